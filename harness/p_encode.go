package main

// C34: data btrfscue cannot decode (compressed, encrypted) is not passed off as
// the contents of a file.

import (
	"fmt"
	"os"
	"slices"
	"strings"

	"pgregory.net/rapid"
)

type caseEnc struct {
	W     *World
	Marks []encMark
	NoDev bool
	Ops   []fsOp `json:",omitempty"`
	NoIno U64    `json:",omitempty"` // which inodes are lost
}

// genNoIno draws which inodes are lost, mostly none.
func genNoIno(t *rapid.T) U64 {
	if rapid.IntRange(0, 5).Draw(t, "noino?") != 3 {
		return 0
	}
	return U64(rapid.Uint64Range(1, 1<<20).Draw(t, "noino"))
}

// withoutInodes leaves out one third of the inodes, unless sel is 0.
func withoutInodes(vs []Ver, sel U64) (left []Ver) {
	for _, v := range vs {
		r := splitmix(uint64(sel)*0x9e3779b97f4a7c15 ^ v.Owner<<40 ^ uint64(v.Key.ID))
		if sel == 0 || v.Key.Type != tInodeItem || r.intn(3) > 0 {
			left = append(left, v)
		}
	}
	return
}

// encMark makes an extent one that is stored in another form.
type encMark struct {
	Sel  int // which of all extents
	Kind int // compression 1-3 or another one, encryption, other encoding
	Link bool
}

func genEnc(t *rapid.T) any {
	c := &caseEnc{W: genWorld(t, WOpt{MaxNodes: 10, Subvols: 1, FarPhys: true, Stale: true, Over: true})}
	c.NoIno = genNoIno(t)
	for i := rapid.IntRange(1, 6).Draw(t, "marks"); i > 0; i-- {
		c.Marks = append(c.Marks, encMark{rapid.IntRange(0, 40).Draw(t, "sel"), rapid.IntRange(0, 7).Draw(t, "kind"), rapid.IntRange(0, 5).Draw(t, "link") == 3})
	}
	return c
}

func genEncMount(t *rapid.T) any {
	c := genEnc(t).(*caseEnc)
	c.NoDev = rapid.IntRange(0, 5).Draw(t, "nodev") == 3
	c.Ops = genOps(t, 3, 25, "lookup", "readdirplus", "data", "data", "data", "attr")
	return c
}

// ranges of files that cannot be restored; of links, the range is empty.
type ranges map[dirKey][][2]uint64

// apply returns the items with the marks, and what they say.
func (c *caseEnc) apply(vs []Ver, v *View) ([]Ver, ranges) {
	out := append([]Ver(nil), vs...)
	type file struct {
		owner, ino uint64
		link       bool
	}
	var files []file
	for _, n := range v.tree() {
		if n.E.Type == ftReg || n.E.Type == ftLink {
			files = append(files, file{n.Owner, uint64(n.E.Loc.ID), n.E.Type == ftLink})
		}
	}
	enc, marked := ranges{}, map[file][]uint64{}
	for _, m := range c.Marks {
		type slot struct {
			f   file
			off uint64
			e   Ext
		}
		var slots []slot
		for _, f := range files {
			if f.link != m.Link {
				continue
			}
			size := v.content(f.owner, f.ino).Size
			offs, exts := v.extents(f.owner, f.ino)
			for i, e := range exts {
				if offs[i] < size && e.Type != 2 {
					slots = append(slots, slot{f, offs[i], e})
				}
			}
		}
		if len(slots) == 0 {
			continue
		}
		s := slots[m.Sel%len(slots)]
		k := Key{U64(s.f.ino), tExtentData, U64(s.off)}
		// The newest version counts.
		best := -1
		for i, x := range out {
			if x.Owner == s.f.owner && x.Key == k && (best < 0 || x.Gen >= out[best].Gen) {
				best = i
			}
		}
		d := append([]byte(nil), out[best].Data...)
		if d[16] != 0 || d[17] != 0 || d[18] != 0 || d[19] != 0 {
			continue // already
		}
		switch m.Kind {
		case 5:
			d[17] = 1
		case 6:
			d[18] = 1
		case 7:
			d[19] = 128
		default:
			d[16] = []byte{1, 2, 3, 4, 255}[m.Kind]
		}
		if s.e.Type == 0 {
			// Compressed data is shorter than what it stands for.
			if m.Sel&1 == 0 {
				d = d[:21+(len(d)-21)/2]
			}
		} else if num := uint64(s.e.DiskNum); num > 4096 && m.Sel&1 == 0 {
			le.PutUint64(d[29:], num/2&^4095)
		}
		out[best].Data = d
		marked[file{s.f.owner, s.f.ino, s.f.link}] = append(marked[file{s.f.owner, s.f.ino, s.f.link}], s.off)
	}
	for f, at := range marked {
		k := dirKey{f.owner, f.ino}
		offs, exts := v.extents(f.owner, f.ino)
		for _, s := range v.layout(f.owner, f.ino) {
			// A hole has no data.
			if slices.Contains(at, offs[s.i]) && (exts[s.i].Type != 1 || exts[s.i].DiskByte != 0) {
				enc[k] = append(enc[k], [2]uint64{s.off, s.end})
			}
		}
		if f.link && enc[k] == nil {
			enc[k] = [][2]uint64{{0, 0}}
		}
	}
	return out, enc
}

func (e ranges) overlaps(k dirKey, off, end uint64) bool {
	for _, r := range e[k] {
		if max(off, r[0]) < min(end, r[1]) {
			return true
		}
	}
	return false
}

func checkEncRecover(x *Ctx, v any) error {
	c := v.(*caseEnc)
	w := c.W
	b := newRecBox(x)
	vs := withoutInodes(w.versions(), c.NoIno)
	full := x.Path("full.img")
	w.writeDataImage(full)
	ref := newView(vs, full)
	defer ref.close()
	if newTreeCheck(ref, b.box).ambiguous() || maxDepthLen(ref) > 3500 {
		x.Label("left out")
		return nil
	}
	marked, enc := c.apply(vs, ref)
	x.LabelIf(c.NoIno > 0, "lost inodes")
	return recoverPartly(x, b, w, ref, marked, enc, "encoded")
}

// recoverPartly restores a filesystem that has files with ranges that cannot be
// restored. These files have to be named, and be right elsewhere.
func recoverPartly(x *Ctx, b *recBox, w *World, ref *View, vs []Ver, lost ranges, what string) error {
	if err := b.prepare(w, vs, false); err != nil {
		return err
	}
	dest := b.mkdir(b.box + "/dest")
	r := run(x.Bin, runOpt{uid: nobody, dir: b.box}, "-p=false", "recover", "--metadata", b.meta, b.img, dest)
	if err := r.crashed(); err != nil {
		return err
	}
	good, hurt, parts := 0, 0, 0
	for _, n := range ref.tree() {
		if n.E.Type != ftReg && n.E.Type != ftLink {
			continue
		}
		p, k := dest+n.Rel, dirKey{n.Owner, uint64(n.E.Loc.ID)}
		named := strings.Contains(r.Err, p)
		if lost[k] == nil {
			if n.E.Type != ftReg {
				continue
			}
			if err := ref.content(k[0], k[1]).sameContent(p); err != nil {
				return bad2(err, "a file without "+what+" extents")
			}
			good++
			continue
		}
		if !named {
			return bad("%q has %s data (%v), and recover does not say so\n%s", n.Rel, what, lost[k], head(r.Err))
		}
		hurt++
		if n.E.Type == ftLink {
			if to, err := os.Readlink(p); err == nil {
				return bad("symbolic link %q, whose target is %s, leads to %q", n.Rel, what, to)
			}
			continue
		}
		ct := ref.content(k[0], k[1])
		st, err := os.Lstat(p)
		if _, ok := ref.inode(k[0], k[1]); !ok && err == nil && uint64(st.Size()) < ct.Size && lost.overlaps(k, uint64(st.Size()), ct.Size) {
			ct.Size = uint64(st.Size()) // how far it goes is not known any more
		}
		if err != nil || !st.Mode().IsRegular() || uint64(st.Size()) != ct.Size {
			return bad("file %q with some %s extents: %v (%v), want %d bytes", n.Rel, what, err, st, ct.Size)
		}
		if ct.Size > 4<<20 {
			continue
		}
		// The rest of the file is right.
		got, want := must1(os.ReadFile(p)), ct.read(0, ct.Size)
		for i := range got {
			gone := lost.overlaps(k, uint64(i), uint64(i)+1)
			if gone && what == "unmapped" && got[i] != 0 {
				return bad("file %q, byte at %d is %x, but where it is stored is unknown (%v)", n.Rel, i, got[i], lost[k])
			}
			if got[i] != want[i] && !gone {
				return bad("file %q, %s at %v: byte at %d is %x, want %x", n.Rel, what, lost[k], i, got[i], want[i])
			}
		}
		for _, e := range lost[k] {
			if e[0] > 0 || e[1] < ct.Size {
				parts++
			}
		}
	}
	x.LabelIf(good > 0 && hurt > 0, "damaged and other files")
	x.LabelIf(parts > 0, "partly damaged files")
	x.NonTrivialIf(hurt > 0)
	return nil
}

func checkEncMount(x *Ctx, v any) error {
	c := v.(*caseEnc)
	b := newRecBox(x)
	b.img, b.meta = b.box+"/disk.img", b.box+"/meta.db"
	vs := withoutInodes(c.W.versions(), c.NoIno)
	full := x.Path("full.img")
	c.W.writeDataImage(full)
	ref := newView(vs, full)
	defer ref.close()
	marked, enc := c.apply(vs, ref)
	ref.noDev = c.NoDev
	must(b.prepare(c.W, marked, false))
	b.own(b.img)
	b.own(b.meta)
	fs, err := b.mount(x.Bin, c.NoDev)
	if err != nil {
		return err
	}
	defer fs.kill()
	cl := newClient(fs, ref, must1(os.ReadFile(b.meta)))
	cl.enc = enc
	for _, op := range c.Ops {
		if err := cl.do(op); err != nil {
			return err
		}
	}
	if err := cl.sweep(true); err != nil {
		return err
	}
	if err := fs.stop(); err != nil {
		return err
	}
	x.LabelIf(c.NoDev, "without a device")
	x.LabelIf(c.NoIno > 0, "lost inodes")
	x.LabelIf(cl.stats.failed > 0 && cl.stats.reads > cl.stats.failed, "some reads failed, others did not")
	x.Label("%s", fmt.Sprintf("%d encoded files", min(len(enc), 3)))
	x.NonTrivialIf(cl.stats.failed > 0)
	return nil
}

func init() {
	register(&Sub{Name: "C34/recover", Quick: 1500, Thorough: 9000, NeedBin: true,
		Rule: "1-6 extents of a generated tree (inline, on disk, symbolic links) marked compressed, encrypted or otherwise encoded; files with them have to be named on stderr, with the right size and the right bytes elsewhere, all others are compared in full; non-trivial: a file or link with encoded data",
		New:  func() any { return &caseEnc{} }, Gen: genEnc, Check: checkEncRecover})
	register(&Sub{Name: "C34/mount", Quick: 1500, Thorough: 9000, NeedBin: true,
		Rule: "the same through the mounted view: reads that touch encoded data fail, all others are right; non-trivial: a read failed",
		New:  func() any { return &caseEnc{} }, Gen: genEncMount, Check: checkEncMount})
}
