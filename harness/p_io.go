package main

// C30: errors of the device and of the destination.

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// ioFault is an error injected into system calls on one file.
type ioFault struct {
	File int // which file of the destination
	Call string
	Err  string
	When int
	Ever bool // this call and all later ones
}

type caseIO struct {
	W      *World
	Cut    int  `json:",omitempty"` // the image is cut to this part (of 1000); 0: not
	CutIn  int  `json:",omitempty"` // the cut is within this extent; 0: it is not
	Dir    bool `json:",omitempty"` // a directory in place of the image
	Faults []ioFault
	Ops    []fsOp `json:",omitempty"`
}

const readCalls = "pread64,read,preadv,preadv2,readv,copy_file_range,sendfile,splice"

// inject makes the wrapping of a command whose calls on a file fail.
func (f ioFault) inject(trace, path string) []string {
	s := fmt.Sprintf("inject=%s:error=%s:when=%d", f.Call, f.Err, f.When+1)
	if f.Ever {
		s += "+"
	}
	return []string{"strace", "-f", "-qq", "-o", trace, "-P", path, "-e", "trace=" + f.Call, "-e", s, "-e", "signal=none"}
}

func injected(trace string) int {
	b, err := os.ReadFile(trace)
	if err != nil {
		return 0
	}
	return strings.Count(string(b), "(INJECTED)")
}

func genCut(t *rapid.T) (cut, in int) {
	if rapid.IntRange(0, 1).Draw(t, "cut?") == 0 {
		return 0, 0
	}
	if rapid.Bool().Draw(t, "within") {
		in = rapid.IntRange(1, 30).Draw(t, "extent")
	}
	return rapid.IntRange(1, 999).Draw(t, "cut"), in
}

func genIORecover(t *rapid.T) any {
	c := &caseIO{W: genWorld(t, WOpt{MaxNodes: 10, Subvols: 1, Big: true, Special: true})}
	c.Cut, c.CutIn = genCut(t)
	c.Dir = c.Cut == 0 && rapid.IntRange(0, 11).Draw(t, "dir?") == 6
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "faults"); i < n; i++ {
		f := ioFault{File: rapid.IntRange(-8, 15).Draw(t, "file"), When: rapid.IntRange(0, 6).Draw(t, "when"), Ever: rapid.Bool().Draw(t, "ever")}
		if f.File < 0 { // the image
			f.File = -1
			f.Call, f.Err = readCalls, "EIO"
		} else {
			f.Call = pick(t, "call", "pwrite64,write,pwritev", "pwrite64,write,pwritev", "ftruncate", "close", "openat,symlinkat,mkdirat,linkat", "fsync,fdatasync,fallocate")
			f.Err = pick(t, "err", "ENOSPC", "EIO", "EDQUOT")
			if f.Call != "pwrite64,write,pwritev" {
				f.When, f.Ever = 0, true
			}
		}
		c.Faults = append(c.Faults, f)
	}
	return c
}

// cutImage leaves a part of the area that holds data, and returns the length.
func (c *caseIO) cutImage(path string, v *View) uint64 {
	size := must1(os.Stat(path)).Size()
	var ends [][2]uint64 // of data on disk
	for _, n := range v.tree() {
		if n.E.Type != ftReg || c.CutIn == 0 {
			continue
		}
		offs, exts := v.extents(n.Owner, uint64(n.E.Loc.ID))
		for _, s := range v.layout(n.Owner, uint64(n.E.Loc.ID)) {
			e := exts[s.i]
			if at, ok := v.phys(uint64(e.DiskByte)); ok && e.Type == 1 && e.DiskByte > 0 && s.end-s.off > 1 {
				ends = append(ends, [2]uint64{at + uint64(e.Off) + s.off - offs[s.i], s.end - s.off})
			}
		}
	}
	if len(ends) > 0 {
		e := ends[c.CutIn%len(ends)]
		size = min(size, int64(e[0]+max(1, e[1]*uint64(c.Cut)/1000)))
		must(os.Truncate(path, size))
	} else if c.Cut > 0 {
		size = dataStart + (size-dataStart)*int64(c.Cut)/1000
		must(os.Truncate(path, size))
	}
	return uint64(size)
}

// result is what became of the tree in the destination.
type ioResult struct {
	whole, failed, silent int
}

// compareReported demands of every file and link that it is whole or reported.
func compareReported(v *View, dest, stderr string) (res ioResult, err error) {
	reported := func(rel string) bool { return strings.Contains(stderr, dest+rel) }
	refs := map[dirKey]int{}
	for o := range v.items {
		for _, k := range v.keys[o] {
			if k.Type == tDirItem {
				for _, e := range v.dir(o, uint64(k.ID)) {
					if isDirEnt(e) {
						a, d := enter(o, e)
						refs[dirKey{a, d}]++
					}
				}
			}
		}
	}
	seen := map[dirKey]bool{}
	var rec func(rel string, owner, dir uint64) error
	rec = func(rel string, owner, dir uint64) error {
		if seen[dirKey{owner, dir}] {
			return nil
		}
		if st, err := os.Lstat(dest + rel); err != nil || !st.IsDir() {
			if refs[dirKey{owner, dir}] > 1 {
				return nil // may be elsewhere
			}
			if !reported(rel) {
				return bad("directory %q is not restored (%v), and not reported", rel, err)
			}
			res.failed++
			return nil
		}
		seen[dirKey{owner, dir}] = true
		for _, e := range v.dir(owner, dir) {
			n := string(e.Name)
			if reserved(n) {
				continue
			}
			p := rel + "/" + n
			if isDirEnt(e) {
				o, d := enter(owner, e)
				if err := rec(p, o, d); err != nil {
					return err
				}
				continue
			}
			var err error
			switch e.Type {
			case ftReg:
				err = v.content(owner, uint64(e.Loc.ID)).sameContent(dest + p)
				if _, ok := err.(*errInfra); ok {
					return err
				}
			case ftLink:
				_, exts := v.extents(owner, uint64(e.Loc.ID))
				got, e := os.Readlink(dest + p)
				if e != nil || got != string(exts[0].Inline) {
					err = bad("symbolic link %q leads to %q (%v), want %q", p, got, e, exts[0].Inline)
				}
			default:
				continue
			}
			if err == nil {
				res.whole++
				continue
			}
			if !reported(p) {
				return bad("not reported: %v", err)
			}
			res.failed++
		}
		return nil
	}
	if err := rec("", oFS, firstFree); err != nil {
		return res, err
	}
	for _, id := range v.subvols() {
		if refs[dirKey{id, firstFree}] == 0 && !seen[dirKey{id, firstFree}] {
			if err := rec(fmt.Sprintf("/subvol_%d", id), id, firstFree); err != nil {
				return res, err
			}
		}
	}
	return res, nil
}

func checkIORecover(x *Ctx, v any) error {
	c := v.(*caseIO)
	w := c.W
	vs := w.versions()
	b := newRecBox(x)
	if err := b.prepare(w, vs, false); err != nil {
		return err
	}
	full := x.Path("full.img")
	w.writeDataImage(full)
	ref := newView(vs, full)
	defer ref.close()
	if newTreeCheck(ref, b.box).ambiguous() || maxDepthLen(ref) > 3500 {
		x.Label("left out")
		return nil
	}
	c.cutImage(b.img, ref)
	img := b.img
	if c.Dir {
		img = b.mkdir(b.box + "/image")
	}
	var files []string
	for _, n := range ref.tree() {
		if isDirEnt(n.E) || n.E.Type == ftReg || n.E.Type == ftLink {
			files = append(files, n.Rel)
		}
	}
	sort.Strings(files)
	hurt := 0
	for i := -1; i < len(c.Faults); i++ {
		dest := b.mkdir(fmt.Sprintf("%s/d%d", b.box, i+1))
		o := runOpt{uid: nobody, dir: b.box}
		tr := fmt.Sprintf("%s/trace%d", b.box, i+1)
		what := "without a fault"
		if i >= 0 {
			f := c.Faults[i]
			p := img
			if f.File >= 0 {
				if len(files) == 0 {
					continue
				}
				p = dest + files[f.File%len(files)]
			}
			o.wrap, o.noLimit = f.inject(tr, p), true
			what = fmt.Sprintf("fault %+v on %q", f, strings.TrimPrefix(p, b.box))
		}
		r := run(x.Bin, o, "-p=false", "recover", "--metadata", b.meta, img, dest)
		if err := r.crashed(); err != nil {
			return bad("%s: %v", what, err)
		}
		res, err := compareReported(ref, dest, r.Err)
		if _, ok := err.(*errInfra); ok {
			return err
		}
		if err != nil {
			return bad("%s (image cut to %d/1000 of %d, directory %t): %v\n%s", what, c.Cut, c.CutIn, c.Dir, err, head(r.Err))
		}
		if i < 0 && c.Cut == 0 && !c.Dir {
			if res.failed > 0 {
				return bad("%s, %d entries are not restored\n%s", what, res.failed, head(r.Err))
			}
			if strings.Contains(r.Err, dest+"/") {
				return bad("%s, recover reports a problem: %s", what, head(r.Err))
			}
		}
		if i >= 0 {
			n := injected(tr)
			x.LabelIf(n == 0, "fault without effect")
			if n > 0 {
				x.Label("fault in %s", map[bool]string{true: "image", false: strings.SplitN(c.Faults[i].Call, ",", 2)[0]}[c.Faults[i].File < 0])
			}
		}
		x.LabelIf(res.failed > 0 && res.whole > 0, "some entries reported, others whole")
		hurt += res.failed
	}
	x.LabelIf(c.Cut > 0, "image cut")
	x.LabelIf(c.CutIn > 0, "image cut within an extent")
	x.LabelIf(c.Dir, "image unreadable")
	x.NonTrivialIf(hurt > 0)
	return nil
}

// ---- recon and identify

func genIOScan(t *rapid.T) any {
	c := &caseIO{W: genWorld(t, WOpt{MaxNodes: 8, Subvols: 1, Xattrs: true, NoData: true, Stale: true})}
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "faults"); i < n; i++ {
		f := ioFault{File: rapid.IntRange(0, 1).Draw(t, "command"), Call: readCalls, Err: pick(t, "err", "EIO", "ENXIO", "ENOMEM", "ETIMEDOUT"),
			When: rapid.IntRange(0, 12).Draw(t, "when"), Ever: rapid.Bool().Draw(t, "ever")}
		switch rapid.IntRange(0, 3).Draw(t, "scale") {
		case 0:
			f.When *= 50
		case 1:
			f.When *= 400
		}
		if rapid.IntRange(0, 9).Draw(t, "seek?") == 4 {
			f.Call, f.When, f.Ever = "lseek,fstat,newfstatat,statx,ioctl", 0, true
		}
		c.Faults = append(c.Faults, f)
	}
	return c
}

func checkIOScan(x *Ctx, v any) error {
	c := v.(*caseIO)
	w := c.W
	vs := dedupe(w.versions())
	img := x.Path("disk.img")
	w.image(vs).write(img)
	want := map[string]Ver{}
	for _, v := range vs {
		want[rawKey(v)] = v
	}
	ident := []string{"-p=false", "identify", "-m", "--block-size", fmt.Sprint(w.BS), "--min-blocks", "10000000", "--min-occurrence", "1", img}
	clean, err := x.ok(runOpt{}, ident[1:]...)
	if err != nil {
		return err
	}
	lines := func(b []byte) string {
		l := strings.Split(string(b), "\n")
		sort.Strings(l)
		return strings.Join(l, "\n")
	}
	hit := 0
	for i, f := range c.Faults {
		tr := x.Path(fmt.Sprintf("trace%d", i))
		o := runOpt{noLimit: true, wrap: f.inject(tr, img), wall: 300 * 1e9}
		what := fmt.Sprintf("fault %+v", f)
		meta := x.Path(fmt.Sprintf("meta%d.db", i))
		args := ident
		if f.File == 1 {
			args = []string{"-p=false", "recon", "--block-size", fmt.Sprint(w.BS), "--id", fsidText(w.fsid()), "--metadata", meta, img}
		}
		r := run(x.Bin, o, args...)
		if err := r.crashed(); err != nil {
			return bad("%s: %v", what, err)
		}
		n := injected(tr)
		x.LabelIf(n == 0, "fault without effect")
		if n > 0 {
			hit++
			x.Label("fault in %s", args[1])
		}
		if r.Code == 0 {
			x.Label("success")
			if f.File == 1 {
				got, err := rawDump(meta)
				if err == nil {
					err = sameMetadata(got, want)
				}
				if err != nil {
					return bad("%s: recon reports success, but %v", what, err)
				}
			} else if lines(r.Out) != lines(clean.Out) {
				return bad("%s: identify reports success and prints\n%s\nwithout the fault it prints\n%s", what, head(string(r.Out)), head(string(clean.Out)))
			}
		} else if strings.TrimSpace(r.Err) == "" {
			return bad("%s: %s fails without a word", what, args[1])
		}
		if f.File == 1 { // and once more, with the device in order
			if _, err := x.ok(runOpt{}, args[1:]...); err != nil {
				return bad("%s, then again: %v", what, err)
			}
			got, err := rawDump(meta)
			if err == nil {
				err = sameMetadata(got, want)
			}
			if err != nil {
				return bad("%s, then again: %v", what, err)
			}
		}
	}
	x.NonTrivialIf(hit > 0 && len(want) > 5)
	return nil
}

// ---- mounted view

func genIOMount(t *rapid.T) any {
	c := &caseIO{W: genWorld(t, WOpt{MaxNodes: 8, Subvols: 1, Big: true})}
	c.Dir = rapid.IntRange(0, 5).Draw(t, "dir?") == 3
	if !c.Dir {
		c.Cut = rapid.IntRange(1, 999).Draw(t, "cut")
		if rapid.Bool().Draw(t, "within") {
			c.CutIn = rapid.IntRange(1, 30).Draw(t, "extent")
		}
	}
	c.Ops = genOps(t, 5, 30, "lookup", "readdirplus", "data", "data", "data", "data")
	return c
}

func checkIOMount(x *Ctx, v any) error {
	c := v.(*caseIO)
	b := newRecBox(x)
	b.img, b.meta = b.box+"/disk.img", b.box+"/meta.db"
	vs := c.W.versions()
	must(b.prepare(c.W, vs, false))
	full := x.Path("full.img")
	c.W.writeDataImage(full)
	ref := newView(vs, full)
	defer ref.close()
	limit := c.cutImage(b.img, ref)
	if c.Dir {
		must(os.Remove(b.img))
		b.mkdir(b.img)
		limit = 0
	}
	b.own(b.img)
	b.own(b.meta)
	fs, err := b.mount(x.Bin, false)
	if err != nil {
		return err
	}
	defer fs.kill()
	cl := newClient(fs, ref, must1(os.ReadFile(b.meta)))
	cl.cut, cl.limit = true, limit
	for _, op := range c.Ops {
		if err := cl.do(op); err != nil {
			return err
		}
	}
	if err := cl.sweep(true); err != nil {
		return err
	}
	if err := fs.stop(); err != nil {
		return err
	}
	x.LabelIf(c.Dir, "image unreadable")
	x.LabelIf(cl.stats.failed > 0, "failed reads")
	x.LabelIf(cl.stats.failed > 0 && cl.stats.reads > cl.stats.failed, "some reads failed, others did not")
	x.NonTrivialIf(cl.stats.failed > 0)
	return nil
}

// unreadable tells whether a part of a file lies beyond the end of the image.
func (c *client) unreadable(n *mNode, ct *Content, off, size uint64) bool {
	if !c.cut || n.what != mTree {
		return false
	}
	end := min(off+size, ct.Size)
	offs, exts := c.v.extents(n.owner, n.ino)
	for _, s := range c.v.layout(n.owner, n.ino) {
		e := exts[s.i]
		if e.Type != 1 || e.DiskByte == 0 {
			continue
		}
		a, z := max(off, s.off), min(end, s.end)
		if a >= z {
			continue
		}
		if p, ok := c.v.phys(uint64(e.DiskByte)); ok && p+uint64(e.Off)+z-offs[s.i] > c.limit {
			return true
		}
	}
	return false
}

func init() {
	register(&Sub{Name: "C30/recover", Quick: 700, Thorough: 8000, NeedBin: true,
		Rule: "recover from a whole, cut or unreadable image, with errors injected (strace) into reads of the image and into opening, writing, truncating and closing a file, link or directory of the destination; each entry has to be whole or named on stderr, and without faults none may be named; non-trivial: an entry that could not be restored",
		New:  func() any { return &caseIO{} }, Gen: genIORecover, Check: checkIORecover})
	register(&Sub{Name: "C30/scan", Quick: 300, Thorough: 4000, NeedBin: true,
		Rule: "recon and identify with errors injected into their n-th read of the image: they fail, or have the result of a run without faults; recon once more completes the metadata; non-trivial: a read failed",
		New:  func() any { return &caseIO{} }, Gen: genIOScan, Check: checkIOScan})
	register(&Sub{Name: "C30/mount", Quick: 700, Thorough: 8000, NeedBin: true,
		Rule: "reads through the view of an image that is cut short or cannot be read: the right bytes, or an error if they lie in the missing part; non-trivial: a failed read",
		New:  func() any { return &caseIO{} }, Gen: genIOMount, Check: checkIOMount})
}
