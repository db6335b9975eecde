package main

// C04, C05, C06, C12, C21, C29: recover.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"pgregory.net/rapid"
)

// recBox is a scratch directory in which recover runs as an unprivileged user.
type recBox struct {
	x    *Ctx
	box  string // owned by the unprivileged user
	img  string
	meta string
}

func newRecBox(x *Ctx) *recBox {
	b := &recBox{x: x, box: x.Path("box"), img: x.Path("disk.img"), meta: x.Path("meta.db")}
	must(os.Mkdir(b.box, 0o755))
	b.own(b.box)
	return b
}

func (b *recBox) own(p string) {
	if os.Getuid() == 0 {
		must(os.Lchown(p, nobody, nobody))
	}
}

func (b *recBox) mkdir(p string) string {
	for d := p; len(d) > len(b.box); d = filepath.Dir(d) {
		if _, err := os.Lstat(d); err == nil {
			break
		}
		defer b.own(d)
	}
	must(os.MkdirAll(p, 0o755))
	return p
}

func (b *recBox) file(p string, data []byte, mode os.FileMode) {
	must(os.WriteFile(p, data, mode))
	must(os.Chmod(p, mode))
	b.own(p)
}

// prepare makes image and metadata, with recon or directly.
func (b *recBox) prepare(w *World, vs []Ver, recon bool) error {
	if !recon {
		buildIndex(b.meta, vs)
		w.writeDataImage(b.img)
		return nil
	}
	im := w.image(vs)
	im.write(b.img)
	return b.recon(w)
}

func (b *recBox) recon(w *World) error {
	_, err := b.x.ok(runOpt{}, "recon", "--block-size", fmt.Sprint(w.BS), "--id", fsidText(w.fsid()), "--metadata", b.meta, b.img)
	return err
}

func (b *recBox) recover(dest string, clobber bool) (*Res, error) {
	args := []string{"recover", "--metadata", b.meta}
	if clobber {
		args = append(args, "--clobber")
	}
	return b.x.btr(runOpt{uid: nobody, dir: b.box, wall: 90 * 1e9, stuckOK: true}, append(args, b.img, dest)...)
}

// reserved tells whether recover leaves a name out by design.
func reserved(n string) bool {
	return n == "" || n == "." || n == ".." || strings.ContainsAny(n, "/\\")
}

type dirKey [2]uint64

func isDirEnt(e DirEnt) bool { return e.Type == ftDir || e.Loc.Type == tRootItem }

// treeCheck compares a recovered tree with its reference.
type treeCheck struct {
	other   map[dirKey]bool // inodes that became something else: links are left open
	v       *View
	dest    string
	keep    map[string]string // relative path -> treeSum entry that overrides
	claimed map[dirKey]string
	pending map[dirKey]string
	files   int
	dirs    int
	links   int
	depth   int
	bytes   uint64
}

func newTreeCheck(v *View, dest string) *treeCheck {
	return &treeCheck{v: v, dest: dest, claimed: map[dirKey]string{}, pending: map[dirKey]string{}}
}

func (c *treeCheck) open() error {
	for k, p := range c.pending {
		if _, ok := c.claimed[k]; !ok {
			return bad("directory %d of tree %d is missing (for example at %q)", k[1], k[0], p)
		}
	}
	return nil
}

// ambiguous tells whether an entry of the root directory has the name a
// subvolume is recovered under.
func (c *treeCheck) ambiguous() bool {
	reach := c.v.reachable(oFS, firstFree)
	for _, id := range c.v.subvols() {
		if reach[dirKey{id, firstFree}] {
			continue
		}
		for _, e := range c.v.dir(oFS, firstFree) {
			if string(e.Name) == fmt.Sprintf("subvol_%d", id) {
				return true
			}
		}
	}
	return false
}

// reachable are all directories below one.
func (v *View) reachable(owner, dir uint64) map[dirKey]bool {
	seen := map[dirKey]bool{{owner, dir}: true}
	for todo := []dirKey{{owner, dir}}; len(todo) > 0; todo = todo[1:] {
		for _, e := range v.dir(todo[0][0], todo[0][1]) {
			if o, d := enter(todo[0][0], e); isDirEnt(e) && !reserved(string(e.Name)) && !seen[dirKey{o, d}] {
				seen[dirKey{o, d}] = true
				todo = append(todo, dirKey{o, d})
			}
		}
	}
	return seen
}

// check compares all of the destination.
func (c *treeCheck) check() error {
	sub := map[string]uint64{}
	reach := c.v.reachable(oFS, firstFree)
	for _, id := range c.v.subvols() {
		if !reach[dirKey{id, firstFree}] {
			sub[fmt.Sprintf("subvol_%d", id)] = id
		}
	}
	if err := c.dir("", oFS, firstFree, sub); err != nil {
		return err
	}
	if err := c.open(); err != nil {
		return err
	}
	var names []string
	for n := range sub {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if _, err := os.Lstat(filepath.Join(c.dest, n)); err != nil {
			c.pending[dirKey{sub[n], firstFree}] = "/" + n
			continue
		}
		if p, ok := c.claimed[dirKey{sub[n], firstFree}]; ok {
			return bad("subvolume %d is restored at %q and at %q", sub[n], p, n)
		}
		if err := c.dir("/"+n, sub[n], firstFree, nil); err != nil {
			return err
		}
	}
	return c.open()
}

func (c *treeCheck) dir(rel string, owner, dir uint64, also map[string]uint64) error {
	c.claimed[dirKey{owner, dir}] = rel
	c.dirs++
	c.depth = max(c.depth, strings.Count(rel, "/"))
	path := c.dest + rel
	st, err := os.Lstat(path)
	if err != nil {
		return bad("directory %q: %v", rel, err)
	}
	if !st.IsDir() {
		return bad("%q is no directory: %v", rel, st.Mode())
	}
	left := map[string]bool{}
	for _, e := range must1(os.ReadDir(path)) {
		left[e.Name()] = true
	}
	for _, e := range c.v.dir(owner, dir) {
		n := string(e.Name)
		if reserved(n) {
			continue
		}
		p := rel + "/" + n
		if _, ok := c.keep[p]; ok {
			continue // compared as a whole
		}
		switch {
		case isDirEnt(e):
			o, d := enter(owner, e)
			if !left[n] {
				c.pending[dirKey{o, d}] = p
				continue
			}
			delete(left, n)
			if q, ok := c.claimed[dirKey{o, d}]; ok {
				return bad("directory %d of tree %d is restored at %q and at %q", d, o, q, p)
			}
			if err := c.dir(p, o, d, nil); err != nil {
				return err
			}
		case e.Type == ftReg:
			delete(left, n)
			ct := c.v.content(owner, uint64(e.Loc.ID))
			if err := ct.sameContent(c.dest + p); err != nil {
				return err
			}
			c.files++
			for _, s := range ct.Segs {
				c.bytes += uint64(len(s.Data))
			}
		case e.Type == ftLink && c.other[dirKey{owner, uint64(e.Loc.ID)}]:
			delete(left, n)
		case e.Type == ftLink:
			delete(left, n)
			offs, exts := c.v.extents(owner, uint64(e.Loc.ID))
			if len(exts) == 0 || offs[0] != 0 || exts[0].Type != 0 {
				continue // its target is lost
			}
			got, err := os.Readlink(c.dest + p)
			if err != nil {
				return bad("symbolic link %q: %v", p, err)
			}
			if want := string(exts[0].Inline); got != want {
				return bad("symbolic link %q leads to %q, want %q", p, got, want)
			}
			c.links++
		default:
			if left[n] {
				return bad("special file %q (type %d) was restored", p, e.Type)
			}
		}
	}
	for n := range left {
		if _, ok := also[n]; ok {
			continue
		}
		if _, ok := c.keep[rel+"/"+n]; !ok {
			return bad("%q is there, but in no directory entry", rel+"/"+n)
		}
	}
	return nil
}

func maxDepthLen(v *View) int {
	seen := map[dirKey]bool{}
	var rec func(owner, dir uint64, n int) int
	rec = func(owner, dir uint64, n int) int {
		if seen[dirKey{owner, dir}] {
			return n
		}
		seen[dirKey{owner, dir}] = true
		m := n
		for _, e := range v.dir(owner, dir) {
			k := n + 1 + len(e.Name)
			if isDirEnt(e) {
				o, d := enter(owner, e)
				k = rec(o, d, k)
			}
			m = max(m, k)
		}
		delete(seen, dirKey{owner, dir})
		return m
	}
	return rec(oFS, firstFree, 0)
}

// ---- C04, C21

type caseC04 struct {
	W     *World
	Recon bool
	Dest  int
}

func genC04(stale bool) func(t *rapid.T) any {
	return func(t *rapid.T) any {
		c := &caseC04{Recon: rapid.IntRange(0, 4).Draw(t, "recon") == 0}
		c.W = genWorld(t, WOpt{MaxNodes: 14, Subvols: 2, Special: true, Collide: true, Big: true, FarPhys: !c.Recon, Stale: stale, Over: stale, Fill: true})
		c.Dest = rapid.IntRange(0, 5).Draw(t, "dest")
		return c
	}
}

// destination makes a destination directory of some kind; it returns the
// argument for recover and the real path.
func (b *recBox) destination(kind int) (arg, real string) {
	real = b.box + "/dest"
	switch kind {
	case 1:
		real = b.box + "/not/there/yet"
		return real, real
	case 2:
		b.mkdir(real)
		must(os.Symlink("dest", b.box+"/link"))
		return b.box + "/link", real
	case 3:
		return "dest", real
	case 4:
		b.mkdir(real)
		return real + "/", real
	case 5:
		b.mkdir(b.box + "/x")
		return "./x/../dest//", real
	}
	b.mkdir(real)
	return real, real
}

func checkC04(x *Ctx, v any) error {
	c := v.(*caseC04)
	vs := c.W.versions()
	b := newRecBox(x)
	if err := b.prepare(c.W, vs, c.Recon); err != nil {
		return err
	}
	view := newView(vs, b.img)
	defer view.close()
	arg, real := b.destination(c.Dest)
	tc := newTreeCheck(view, real)
	if tc.ambiguous() || maxDepthLen(view) > 3500 {
		x.Label("left out")
		return nil
	}
	r, err := b.recover(arg, false)
	if err == nil && r.Code != 0 {
		err = bad("recover failed with status %d: %s", r.Code, head(r.Err))
	}
	if err != nil {
		return err
	}
	if err := tc.check(); err != nil {
		return bad("%v\n%s", err, head(r.Err))
	}
	// Nothing but the destination has been made.
	for p := range treeSum(b.box) {
		if full := b.box + p; full != b.box && p != "/link" && p != "/x" && !strings.HasPrefix(full+"/", real+"/") && !strings.HasPrefix(real, full+"/") {
			return bad("recover left %q behind", full)
		}
	}
	x.LabelIf(c.Recon, "with recon")
	labelWorld(x, c.W)
	x.LabelIf(tc.depth > 2, "deep")
	x.LabelIf(tc.links > 0, "symbolic links")
	x.LabelIf(len(c.W.Stale) > 0, "stale versions")
	x.LabelIf(c.W.Fill != nil && !c.W.Fill.Deep, "large directory")
	x.LabelIf(c.W.Frag != nil, "file in many pieces")
	x.LabelIf(c.W.Fill != nil && c.W.Fill.Deep, "directories within directories")
	x.LabelIf(len(c.W.Over) > 0 && view.overlaps(), "overlapping extents")
	x.NonTrivialIf(tc.files > 1 && tc.bytes > 0 && tc.dirs > 1 && (len(c.W.Stale) > 0 || !strings.HasPrefix(x.sub, "C21")))
	return nil
}

func labelWorld(x *Ctx, w *World) {
	for _, s := range w.Subs {
		for _, n := range s.Nodes {
			seen := map[uint8]int{}
			end := uint64(0)
			for _, e := range n.Exts {
				seen[e.Kind]++
				x.LabelIf(uint64(e.At) > end, "gap")
				x.LabelIf(e.Off > 0 && e.Kind == xReg, "extent at offset")
				x.LabelIf(e.Kind == xReg && w.Chunks[w.Blobs[e.Blob].Chunk].Phys > 1<<30, "far on disk")
				end = uint64(e.At + e.Len)
			}
			x.LabelIf(seen[xHole] > 0, "hole")
			x.LabelIf(seen[xPrealloc] > 0, "preallocated")
			x.LabelIf(seen[xReg] > 1, "several extents")
			x.LabelIf(seen[xInline] > 0 && len(n.Exts) > 1, "inline then more")
			x.LabelIf(n.Type == ftReg && uint64(n.Inode.Size) > end, "size beyond extents")
			x.LabelIf(n.Type == ftReg && uint64(n.Inode.Size) < end, "size within extents")
			x.LabelIf(n.Type == ftReg && n.Inode.Size == 0, "empty file")
			x.LabelIf(n.Type == ftReg && n.Inode.Size > 1<<30, "huge file")
			x.LabelIf(len(n.Links) > 1, "hard links")
		}
	}
	x.LabelIf(len(w.Subs) > 1, "subvolumes")
}

// ---- C06

type preSpec struct {
	At      int // which of the expected files and links
	Kind    int
	Len     int
	Mode    uint32
	Missing bool // an unrelated name next to it instead
}

type caseC06 struct {
	W       *World
	Clobber bool
	Pre     []preSpec
	Rerun   bool
}

// genInside lets image and metadata lie in the destination.
func genInside(t *rapid.T) any {
	c := genC06(t).(*caseC06)
	first := rapid.IntRange(11, 12).Draw(t, "first")
	for i := range c.Pre {
		if i == 0 {
			c.Pre[i].Kind = first
		} else if rapid.IntRange(0, 2).Draw(t, "second") == 1 {
			c.Pre[i].Kind = 23 - first
		}
	}
	return c
}

func genC06(t *rapid.T) any {
	c := &caseC06{Clobber: rapid.Bool().Draw(t, "clobber"), Rerun: rapid.IntRange(0, 3).Draw(t, "rerun") == 0}
	c.W = genWorld(t, WOpt{MaxNodes: 10, Subvols: 1, Collide: true})
	for i, n := 0, rapid.IntRange(1, 6).Draw(t, "pre"); i < n; i++ {
		c.Pre = append(c.Pre, preSpec{At: rapid.IntRange(0, 60).Draw(t, "at"), Kind: rapid.IntRange(0, 10).Draw(t, "kind"),
			Len: pick(t, "len", 5, 0, 1, 100, 40000, 3<<20), Mode: uint32(pick(t, "mode", 0o644, 0o444, 0o600, 0)),
			Missing: rapid.IntRange(0, 4).Draw(t, "missing") == 0})
	}
	return c
}

type treeNode struct {
	Rel   string
	Owner uint64
	E     DirEnt
}

// tree lists all entries below the root directory, and those of unattached
// subvolumes, of a filesystem without loops.
func (v *View) tree() (out []treeNode) {
	seen := map[dirKey]bool{}
	var rec func(rel string, owner, dir uint64)
	rec = func(rel string, owner, dir uint64) {
		if seen[dirKey{owner, dir}] {
			return
		}
		seen[dirKey{owner, dir}] = true
		for _, e := range v.dir(owner, dir) {
			if reserved(string(e.Name)) {
				continue
			}
			p := rel + "/" + string(e.Name)
			out = append(out, treeNode{p, owner, e})
			if isDirEnt(e) {
				o, d := enter(owner, e)
				rec(p, o, d)
			}
		}
	}
	rec("", oFS, firstFree)
	for _, id := range v.subvols() {
		rec(fmt.Sprintf("/subvol_%d", id), id, firstFree)
	}
	return
}

func checkC06(x *Ctx, v any) error {
	c := v.(*caseC06)
	vs := c.W.versions()
	b := newRecBox(x)
	must(b.prepare(c.W, vs, false))
	view := newView(vs, b.img)
	defer view.close()
	dest := b.mkdir(b.box + "/dest")
	out := b.mkdir(b.box + "/outside")
	b.file(out+"/canary", []byte("do not touch"), 0o644)
	tc := newTreeCheck(view, dest)
	if tc.ambiguous() || maxDepthLen(view) > 3500 {
		x.Label("left out")
		return nil
	}
	if c.Rerun {
		if r, err := b.recover(dest, false); err != nil || r.Code != 0 {
			return bad("first run: %v %v", err, r)
		}
		x.Label("second run")
	}
	var leaves, dirs []treeNode
	inTree := map[string]bool{}
	for _, n := range view.tree() {
		inTree[n.Rel] = true
		if isDirEnt(n.E) {
			// A subvolume below would be restored elsewhere.
			plain := true
			for k := range view.reachable(enter(n.Owner, n.E)) {
				plain = plain && k[0] == n.Owner
			}
			if plain {
				dirs = append(dirs, n)
			}
		} else if n.E.Type == ftReg || n.E.Type == ftLink {
			leaves = append(leaves, n)
		}
	}
	tc.keep = map[string]string{}
	placed := map[string]bool{}
	hits := 0
	moved := map[int]bool{}
	var inputs []string // in the place of something
	for i, p := range c.Pre {
		l := leaves
		dirPlace := p.Kind == 8 && !c.Clobber && !c.Rerun && !p.Missing
		if dirPlace {
			l = dirs
		}
		if len(l) == 0 {
			continue
		}
		n := l[p.At%len(l)]
		rel := n.Rel
		if p.Missing {
			// Some are what a program may use for temporary files or backups.
			dir, base := filepath.Dir(rel), filepath.Base(rel)
			rel = dir + "/" + fmt.Sprintf([]string{"unrelated name", "%s~", "%s.tmp", ".%s.tmp", "%s.part", "%s.bak", "%s.1", "%s.new", ".%s", "%s.btrfscue", "%s.recovered", "%s.partial"}[(p.At+p.Len)%12], base)
			rel = strings.TrimSuffix(rel, "%!(EXTRA string="+base+")")
			if dir == "/" {
				rel = rel[1:]
			}
			if len(filepath.Base(rel)) > 255 || inTree[rel] {
				continue
			}
			x.Label("neighbour in place")
		}
		skip := placed[rel] || moved[p.Kind]
		for q := range placed { // below a file that stands for a directory, or around
			skip = skip || strings.HasPrefix(rel, q+"/") || dirPlace && strings.HasPrefix(q, rel+"/")
		}
		if skip {
			continue
		}
		placed[rel] = true
		b.mkdir(filepath.Dir(dest + rel))
		if _, err := os.Lstat(dest + rel); err == nil {
			must(os.Remove(dest + rel))
		}
		switch p.Kind {
		default:
			b.file(dest+rel, patternBytes(uint64(i), 7, uint64(p.Len)), os.FileMode(p.Mode))
			x.Label("file in place")
		case 4:
			must(os.Symlink("nowhere", dest+rel))
			b.own(dest + rel)
			x.Label("dangling link in place")
		case 5:
			must(os.Symlink(out+"/canary", dest+rel))
			b.own(dest + rel)
			x.Label("link to outside in place")
		case 6:
			must(os.Link(out+"/canary", dest+rel))
			x.Label("hard link to outside in place")
		case 7:
			must(os.Symlink(filepath.Base(leaves[p.Len%len(leaves)].Rel), dest+rel))
			b.own(dest + rel)
			x.Label("link inside in place")
		case 9:
			b.mkdir(dest + rel)
			b.file(dest+rel+"/inner", patternBytes(uint64(i), 9, uint64(p.Len)), os.FileMode(p.Mode))
			tc.keep[rel], tc.keep[rel+"/inner"] = "", "" // not a file, so it stays
			x.Label("directory in place")
		case 11, 12: // what recover reads
			in := &b.img
			if p.Kind == 12 {
				in = &b.meta
			}
			tc.keep[rel] = ""
			moved[p.Kind] = true
			must(os.Rename(*in, dest+rel))
			*in = dest + rel
			if !p.Missing {
				inputs = append(inputs, *in)
			}
			if p.Len%2 == 1 {
				*in = b.box + fmt.Sprintf("/link%d", p.Kind)
				must(os.Symlink(dest+rel, *in))
				b.own(*in)
				x.Label("named by a link")
			}
			x.LabelIf(p.Kind == 11, "image in the destination")
			x.LabelIf(p.Kind == 12, "metadata in the destination")
			if p.Missing {
				x.Label("neighbour is an input")
			}
		case 10:
			must(syscall.Mkfifo(dest+rel, 0o600))
			b.own(dest + rel)
			x.Label("named pipe in place")
		}
		x.LabelIf(dirPlace, "file in the place of a directory")
		if !c.Clobber || p.Missing {
			tc.keep[rel] = ""
		}
		if !p.Missing {
			hits++
		}
	}
	if !c.Clobber && c.Rerun {
		x.Label("rerun without clobber")
	}
	before := treeSum(b.box)
	r, err := b.recover(dest, c.Clobber)
	if err == nil && r.Code != 0 {
		err = bad("recover failed with status %d: %s", r.Code, head(r.Err))
	}
	if err != nil {
		return err
	}
	after := treeSum(b.box)
	for rel := range tc.keep {
		tc.keep[rel] = before["/dest"+rel]
		if a, b := before["/dest"+rel], after["/dest"+rel]; a != b {
			return bad("%q existed before: %q, now: %q (clobber: %v)", rel, a, b, c.Clobber)
		}
	}
	for p, a := range before {
		if strings.HasPrefix(p, "/outside") && after[p] != a {
			return bad("%q was %q, now: %q", p, a, after[p])
		}
	}
	if err := tc.check(); err != nil {
		return bad("clobber: %v: %v\n%s", c.Clobber, err, head(r.Err))
	}
	for _, f := range inputs {
		if c.Clobber && !strings.Contains(r.Err, f) {
			return bad("%q is in use and was not restored, but is not named:\n%s", f, head(r.Err))
		}
	}
	x.Label("clobber: %v", c.Clobber)
	x.NonTrivialIf(hits > 0 && tc.files > 0)
	return nil
}

// ---- C05

type hostEnt struct {
	Sub, Dir int
	Name     Bytes
	Kind     int // 0 existing node, 1 new link, 2 new file, 3 new directory
	To       int
	Target   Bytes
	Off      U64 // key offset of the item
}

type hostPre struct {
	Name Bytes
	At   int // directory it is in
	Kind int
}

type caseC05 struct {
	W       *World
	Host    []hostEnt
	Pre     []hostPre
	Clobber []bool
	Dest    int
	ROnly   int `json:",omitempty"` // directories of the destination that are read-only
}

const outMark = "$OUT"

func genC05(t *rapid.T) any {
	c := &caseC05{W: genWorld(t, WOpt{MaxNodes: 8, Subvols: 2, Special: true, NoData: true})}
	var names []string // of entries, for clashes
	for _, s := range c.W.Subs {
		for _, n := range s.Nodes {
			for _, l := range n.Links {
				names = append(names, string(l.Name))
			}
		}
	}
	names = append(names, "a", "b", "d", "link")
	targets := []string{"..", "../..", "../outside", "../../outside", outMark, outMark + "/canary", outMark + "/newfile", outMark + "/newdir",
		"../outside/canary", "../../outside/canary", "nowhere", ".", "a", "b", "/", "../outside/fresh"}
	for i, n := 0, rapid.IntRange(1, 8).Draw(t, "hostile"); i < n; i++ {
		h := hostEnt{Sub: rapid.IntRange(0, 2).Draw(t, "sub"), Dir: rapid.IntRange(0, 5).Draw(t, "dir"), Kind: rapid.IntRange(0, 3).Draw(t, "kind"),
			To: rapid.IntRange(0, 9).Draw(t, "to")}
		if i > 0 && rapid.IntRange(0, 3).Draw(t, "again") == 0 { // the same name, as something else
			p := c.Host[rapid.IntRange(0, i-1).Draw(t, "as")]
			h.Sub, h.Dir, h.Name = p.Sub, p.Dir, p.Name
		} else if rapid.IntRange(0, 1).Draw(t, "plain") == 0 {
			h.Name = Bytes(pick(t, "clash", names...))
		} else {
			h.Name = Bytes(pick(t, "hname", "..", ".", "", "../x", "../outside/canary", "../../outside/canary", "../../../outside/canary",
				outMark+"/canary", outMark+"/new", "a/b", "a/../../x", "a\\b", "..\\x", "/", "//", "a\x00b", "..\x00", strings.Repeat("n", 256), strings.Repeat("../", 20)+"tmp/x",
				"./a", "a/", "link/canary", "link/new", "...", "subvol_256", "subvol_257", "subvol_258", "\n", "~", "d/../../outside/canary"))
		}
		h.Target = Bytes(pick(t, "htarget", targets...))
		h.Off = U64(pick(t, "off", uint64(i), uint64(i), 1<<33+uint64(i), 1<<31+uint64(i)))
		c.Host = append(c.Host, h)
	}
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "pre"); i < n; i++ {
		p := hostPre{At: rapid.IntRange(0, 3).Draw(t, "preat"), Kind: rapid.IntRange(0, 6).Draw(t, "prekind")}
		if rapid.IntRange(0, 2).Draw(t, "prename") == 0 {
			p.Name = Bytes(pick(t, "pname", "subvol_256", "subvol_257", "subvol_258", "subvol_300", "a", "link", "x"))
		} else {
			p.Name = Bytes(pick(t, "pclash", names...))
		}
		c.Pre = append(c.Pre, p)
	}
	c.Clobber = rapid.SliceOfN(rapid.Bool(), 1, 3).Draw(t, "clobbers")
	c.Dest = rapid.IntRange(0, 2).Draw(t, "dest")
	if rapid.IntRange(0, 5).Draw(t, "ronly?") == 3 {
		c.ROnly = rapid.IntRange(1, 15).Draw(t, "ronly")
	}
	return c
}

func checkC05(x *Ctx, v any) error {
	c := v.(*caseC05)
	b := newRecBox(x)
	out := b.mkdir(b.box + "/a/outside")
	expand := func(s Bytes) string { return strings.ReplaceAll(string(s), outMark, out) }
	vs := c.W.versions()
	have := map[string]bool{}
	for _, v := range vs {
		have[rawKey(v)] = true
	}
	add := func(v Ver) {
		if !have[rawKey(v)] {
			have[rawKey(v)] = true
			vs = append(vs, v)
		}
	}
	for i, h := range c.Host {
		si := h.Sub % len(c.W.Subs)
		s := c.W.Subs[si]
		var dirs []WNode
		for _, n := range s.Nodes {
			if n.Type == ftDir {
				dirs = append(dirs, n)
			}
		}
		owner := uint64(s.ID)
		e := DirEnt{Loc: Key{U64(90000 + i), tInodeItem, 0}, TransID: 8, Name: Bytes(expand(h.Name))}
		switch h.Kind {
		case 0:
			n := s.Nodes[h.To%len(s.Nodes)]
			e.Loc.ID, e.Type = n.Ino, n.Type
		case 1:
			e.Type = ftLink
			tgt := expand(h.Target)
			add(Ver{owner, Key{e.Loc.ID, tInodeItem, 0}, baseGen, encInode(Inode{Mode: 0o120777, Nlink: 1, Size: U64(len(tgt))})})
			add(Ver{owner, Key{e.Loc.ID, tExtentData, 0}, baseGen, encExt(Ext{RAM: U64(len(tgt)), Inline: []byte(tgt)})})
		case 2:
			e.Type = ftReg
			add(Ver{owner, Key{e.Loc.ID, tInodeItem, 0}, baseGen, encInode(Inode{Mode: 0o100644, Nlink: 1, Size: 6})})
			add(Ver{owner, Key{e.Loc.ID, tExtentData, 0}, baseGen, encExt(Ext{RAM: 6, Inline: []byte("escape")})})
		case 3:
			// With a file in it.
			e.Type = ftDir
			in := U64(95000 + i)
			add(Ver{owner, Key{e.Loc.ID, tInodeItem, 0}, baseGen, encInode(Inode{Mode: 0o040755, Nlink: 1})})
			for j, n := range []string{"canary", "new"} {
				add(Ver{owner, Key{e.Loc.ID, tDirItem, U64(nameHash(n))}, baseGen, encDirEnts(DirEnt{Loc: Key{in + U64(1000*j), tInodeItem, 0}, Type: ftReg, Name: Bytes(n)})})
				add(Ver{owner, Key{in + U64(1000*j), tInodeItem, 0}, baseGen, encInode(Inode{Mode: 0o100644, Nlink: 1, Size: 6})})
				add(Ver{owner, Key{in + U64(1000*j), tExtentData, 0}, baseGen, encExt(Ext{RAM: 6, Inline: []byte("escape")})})
			}
		}
		d := dirs[h.Dir%len(dirs)]
		add(Ver{owner, Key{d.Ino, tDirItem, h.Off}, baseGen, encDirEnts(e)})
		x.LabelIf(reserved(string(e.Name)), "hostile name")
		x.LabelIf(h.Kind == 1, "link to outside")
	}
	must(b.prepare(c.W, vs, false))

	// The destination lies deep enough that "../.." stays in the box.
	dest := b.mkdir(b.box + "/a/b/dest")
	arg := dest
	switch c.Dest {
	case 1:
		must(os.Symlink("b/dest", b.box+"/a/to"))
		arg = b.box + "/a/to"
	case 2:
		arg = "a/b/dest"
	}
	b.file(out+"/canary", []byte("do not touch"), 0o666)
	b.mkdir(out + "/dir")
	b.file(out+"/dir/canary", []byte("nor this"), 0o666)
	b.file(b.box+"/a/b/canary", []byte("nor that"), 0o666)
	b.file(b.box+"/canary", []byte("nor that"), 0o666)
	for _, p := range c.Pre {
		n := expand(p.Name)
		if reserved(n) || len(n) > 255 || strings.Contains(n, "\x00") {
			continue
		}
		// In the destination or one of its directories.
		dirs := []string{dest}
		for _, e := range must1(os.ReadDir(dest)) {
			if e.IsDir() {
				dirs = append(dirs, dest+"/"+e.Name())
			}
		}
		at := dirs[p.At%len(dirs)] + "/" + n
		if _, err := os.Lstat(at); err == nil {
			continue
		}
		switch p.Kind {
		case 0:
			must(os.Symlink(out, at))
		case 1:
			must(os.Symlink(out+"/canary", at))
		case 2:
			must(os.Symlink("../../outside/fresh", at))
		case 3:
			must(syscall.Mkfifo(at, 0o666))
			b.own(at)
		case 4:
			must(os.Link(out+"/canary", at))
		case 5:
			must(os.Symlink("../../outside/dir", at))
		case 6:
			b.mkdir(at)
		}
		x.Label("prepared entry of kind %d", p.Kind)
	}
	if c.ROnly > 0 {
		// What is in them cannot be replaced.
		for i, p := range append([]os.DirEntry{nil}, must1(os.ReadDir(dest))...) {
			if c.ROnly>>(i%4)&1 == 1 && (p == nil || p.IsDir()) {
				at := dest
				if p != nil {
					at += "/" + p.Name()
				}
				must(os.Chmod(at, 0o555))
				x.Label("read-only directory")
			}
		}
	}
	outside := func() map[string]string {
		m := treeSum(b.box)
		for p := range m {
			if strings.HasPrefix(p, "/a/b/dest/") {
				delete(m, p)
			}
		}
		return m
	}
	before := outside()
	img, meta := fileSum(b.img), fileSum(b.meta)
	for i, cl := range c.Clobber {
		r, err := b.recover(arg, cl)
		if err != nil {
			return err
		}
		if d := diffTree(before, outside()); d != "" {
			return bad("run %d (clobber %v) changed something outside of the destination:\n%s%s", i+1, cl, d, head(r.Err))
		}
		x.Label("clobber: %v", cl)
	}
	if fileSum(b.img) != img || fileSum(b.meta) != meta {
		return bad("image or metadata changed")
	}
	x.NonTrivialIf(len(treeSum(dest)) > 2)
	return nil
}

// ---- C29

func genC29(t *rapid.T) any {
	c := &caseC04{Dest: rapid.IntRange(0, 1).Draw(t, "dest"), Recon: rapid.IntRange(0, 7).Draw(t, "recon") == 0}
	w := &World{FS: 3, BS: 4096, Chunks: []WChunk{{1 << 20, 4 << 20, 16 << 20}}}
	ids := rapid.Permutation([]uint64{256, 257, 258, 259, 511, 1 << 33, lastFree, lastFree - 1, 65536}).Draw(t, "ids")
	nsub := rapid.IntRange(0, 5).Draw(t, "subs")
	w.Subs = []WSub{{ID: oFS, In: -1}}
	for i := 0; i < nsub; i++ {
		w.Subs = append(w.Subs, WSub{ID: U64(ids[i]), RootOff: U64(pick(t, "rootoff", 0, 0, 7)), In: -1})
	}
	seed := U64(0)
	used := map[string]bool{}
	name := func(si, dir int, pre string) Bytes {
		for k := 0; ; k++ {
			n := pick(t, "name", pre, "a", "b", "c", "subvol_256")
			if k > 0 {
				n += fmt.Sprint(k)
			}
			if id := fmt.Sprint(si, "/", dir, "/", n); !used[id] {
				used[id] = true
				return Bytes(n)
			}
		}
	}
	for si := range w.Subs {
		s := &w.Subs[si]
		s.Nodes = []WNode{{Ino: firstFree, Type: ftDir, Inode: Inode{Mode: 0o040755}}}
		nd := rapid.IntRange(0, 4).Draw(t, "dirs")
		for i := 1; i <= nd; i++ {
			s.Nodes = append(s.Nodes, WNode{Ino: U64(firstFree + i), Type: ftDir, Inode: Inode{Mode: 0o040755}})
		}
		for i := 0; i <= nd; i++ {
			// References from anywhere in the subvolume, also from below.
			for k, n := 0, pick(t, "refs", 1, 1, 1, 2, 0, 3); k < n && !(i == 0 && k > 0); k++ {
				if i == 0 && rapid.IntRange(0, 3).Draw(t, "rootref") > 0 {
					break
				}
				d := rapid.IntRange(0, nd).Draw(t, "from")
				if rapid.IntRange(0, 2).Draw(t, "down") > 0 {
					d = rapid.IntRange(0, max(0, i-1)).Draw(t, "above")
				}
				s.Nodes[i].Links = append(s.Nodes[i].Links, WLink{d, name(si, d, fmt.Sprint("d", i))})
			}
		}
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "files"); i < n; i++ {
			seed++
			d := rapid.IntRange(0, nd).Draw(t, "in")
			s.Nodes = append(s.Nodes, WNode{Ino: U64(1000 + i), Type: ftReg, Inode: Inode{Mode: 0o100644, Size: 20},
				Links: []WLink{{d, name(si, d, "f")}}, Exts: []WExt{{Kind: xInline, Len: 20, Seed: seed}}})
		}
	}
	dirIn := func(si int) int {
		n := 0
		for _, x := range w.Subs[si].Nodes {
			if x.Type == ftDir {
				n++
			}
		}
		return rapid.IntRange(0, n-1).Draw(t, "subdir")
	}
	for si := 1; si < len(w.Subs); si++ {
		for k, n := 0, pick(t, "subrefs", 1, 1, 0, 2, 3); k < n; k++ {
			in := rapid.IntRange(0, nsub).Draw(t, "subin")
			d := dirIn(in)
			at := WLink{d, name(in, d, fmt.Sprint("s", si))}
			if k == 0 {
				w.Subs[si].In, w.Subs[si].At = in, at
			} else {
				w.Subs[si].More = append(w.Subs[si].More, WSubLink{in, at})
			}
		}
	}
	w.Lay = U64(rapid.IntRange(0, 100).Draw(t, "lay"))
	c.W = w
	return c
}

func checkC29(x *Ctx, v any) error {
	c := v.(*caseC04)
	if err := checkC04(x, v); err != nil {
		return err
	}
	if x.labels["left out"] {
		return nil
	}
	x.nontrivial = false
	view := newView(c.W.items(), "")
	reach := view.reachable(oFS, firstFree)
	refs := map[dirKey]int{}
	total := 0
	for o, ks := range view.keys {
		for _, k := range ks {
			if k.Type == tDirItem {
				for _, e := range view.dir(o, uint64(k.ID)) {
					if isDirEnt(e) {
						a, d := enter(o, e)
						refs[dirKey{a, d}]++
						total++
					}
				}
			}
		}
	}
	for k, n := range refs {
		x.LabelIf(n > 1 && reach[k], "several references")
		if reach[k] {
			sub := view.reachable(k[0], k[1])
			for _, e := range view.dir(k[0], k[1]) {
				if a, d := enter(k[0], e); isDirEnt(e) && view.reachable(a, d)[k] && sub[dirKey{a, d}] {
					x.Label("loop")
				}
			}
		}
	}
	for _, id := range view.subvols() {
		x.LabelIf(!reach[dirKey{id, firstFree}], "unattached subvolume")
		x.LabelIf(!reach[dirKey{id, firstFree}] && refs[dirKey{id, firstFree}] > 0, "unattached subvolume with references")
		x.LabelIf(reach[dirKey{id, firstFree}], "attached subvolume")
	}
	x.NonTrivialIf(len(c.W.Subs) > 1 && total > 1)
	return nil
}

// ---- C12

type damage struct {
	Item, Kind int
	A, B       U64
}

type caseC12 struct {
	W    *World
	Mode int // 0 items, 1 leaves
	Dmg  []damage
	Cut  int // the image is cut to this part (of 1000); 0: not
}

func genC12(t *rapid.T) any {
	c := &caseC12{Mode: rapid.IntRange(0, 1).Draw(t, "mode")}
	c.W = genWorld(t, WOpt{MaxNodes: 14, Subvols: 2, Collide: true})
	for i, n := 0, rapid.IntRange(0, 5).Draw(t, "damage"); i < n; i++ {
		c.Dmg = append(c.Dmg, damage{rapid.IntRange(0, 300).Draw(t, "item"), rapid.IntRange(0, 8).Draw(t, "kind"),
			U64(rapid.Uint64Range(0, 1<<16).Draw(t, "a")), U64(rapid.Uint64Range(0, 1<<16).Draw(t, "b"))})
	}
	if rapid.IntRange(0, 2).Draw(t, "cut?") == 0 {
		c.Cut = rapid.IntRange(1, 999).Draw(t, "cut")
	}
	return c
}

// damageItems applies damage to single items.
func (c *caseC12) damageItems(vs []Ver) []Ver {
	out := append([]Ver(nil), vs...)
	gone := map[int]bool{}
	for _, d := range c.Dmg {
		i := d.Item % len(out)
		data := append([]byte(nil), out[i].Data...)
		switch d.Kind {
		case 0, 1:
			gone[i] = true
			continue
		case 2: // truncated
			if len(data) > 0 {
				data = data[:int(d.A)%len(data)]
			}
		case 3: // one byte
			if len(data) > 0 {
				data[int(d.A)%len(data)] ^= byte(1 + d.B%255)
			}
		case 4: // a stretch of noise, zeros or ones
			if len(data) > 0 {
				at := int(d.A) % len(data)
				n := min(len(data)-at, 1+int(d.B)%16)
				switch d.B % 3 {
				case 0:
					copy(data[at:at+n], patternBytes(uint64(d.B), 0, uint64(n)))
				case 1:
					copy(data[at:at+n], make([]byte, n))
				case 2:
					copy(data[at:at+n], bytes.Repeat([]byte{0xff}, n))
				}
			}
		case 5: // extended by noise
			data = append(data, patternBytes(uint64(d.A), 0, uint64(1+d.B%40))...)
		case 8: // a zero byte in a name
			var dirs []int
			for i, v := range out {
				if v.Key.Type == tDirItem && len(v.Data) > 30 {
					dirs = append(dirs, i)
				}
			}
			if len(dirs) == 0 {
				continue
			}
			i = dirs[d.Item%len(dirs)]
			data = append([]byte(nil), out[i].Data...)
			data[30+int(d.A)%(len(data)-30)] = 0
		case 6, 7: // an extent is moved, too long or too short by some blocks
			var exts []int
			for i, v := range out {
				if v.Key.Type == tExtentData && len(v.Data) == 53 {
					exts = append(exts, i)
				}
			}
			if len(exts) == 0 {
				continue
			}
			i = exts[d.Item%len(exts)]
			data = append([]byte(nil), out[i].Data...)
			at := []int{21, 37, 45, 45, 45}[d.A%5]
			by := uint64(1+d.B>>1%8) * 4096
			if d.B&1 == 1 {
				by = -by
			}
			le.PutUint64(data[at:], le.Uint64(data[at:])+by)
		}
		out[i].Data = data
	}
	for i := len(out) - 1; i >= 0; i-- {
		if gone[i] {
			out = append(out[:i], out[i+1:]...)
		}
	}
	return out
}

// damageLeaves applies damage to leaf blocks and returns the item versions
// that must be found nonetheless.
func (c *caseC12) damageLeaves(im *Image) (intact []Ver) {
	// All copies of a block are damaged alike: which of two that differ counts
	// is left open.
	hit := map[*Ver][]damage{}
	junk := map[string]bool{}
	var real []int
	for i, b := range im.Blocks {
		if len(b.Vers) > 0 {
			real = append(real, i)
		}
	}
	for _, d := range c.Dmg {
		k := &im.Blocks[real[d.Item%len(real)]].Vers[0]
		hit[k] = append(hit[k], d)
	}
	for i, b := range im.Blocks {
		if len(b.Vers) == 0 {
			continue
		}
		ds := append([]damage(nil), hit[&b.Vers[0]]...)
		if len(ds) == 0 {
			intact = append(intact, b.Vers...)
			continue
		}
		for n := range ds { // chunks are damaged as items only
			if ds[n].Kind >= 7 {
				ds[n].Kind = 1
			}
			if b.Vers[0].Owner == oChunk && ds[n].Kind != 0 {
				ds[n].Kind = 0
			}
		}
		data := append([]byte(nil), b.Data...)
		im.Blocks[i].Data = data
		good := make([]bool, len(b.Vers))
		for k := range good {
			good[k] = true
		}
		all := func() {
			for k := range good {
				good[k] = false
			}
		}
		for _, d := range ds {
			it := hdrLen + int(d.A)%len(b.Vers)*itemLen
			k := int(d.A) % len(b.Vers)
			switch d.Kind {
			case 0:
				clear(data)
				all()
			case 1: // number of items
				n := uint32(len(b.Vers)) + 1 + uint32(d.B)%300
				if d.B%3 == 0 {
					n = uint32(d.B) * 65537
				}
				if d.B%3 == 1 {
					n = uint32(d.B) % uint32(len(b.Vers))
				}
				le.PutUint32(data[96:], n)
				for k := range good {
					good[k] = good[k] && uint32(k) < n
				}
				if n == 0 {
					all()
				}
				// What follows the item table is taken for items.
				for p := hdrLen + len(b.Vers)*itemLen; p+itemLen <= len(data); p += itemLen {
					junk[rawKey(Ver{Owner: b.Vers[0].Owner, Key: decKey(data[p:]), Gen: b.Vers[0].Gen})] = true
				}
			case 2: // data position
				le.PutUint32(data[it+17:], uint32(patternU(uint64(d.B))))
				good[k] = false
			case 3: // data size
				le.PutUint32(data[it+21:], pickU32(uint64(d.B)))
				good[k] = false
			case 4: // key
				data[it+7] ^= 0x40 // object id beyond all others
				good[k] = false
			case 5: // header: id, owner, level
				switch d.B % 3 {
				case 0:
					data[32+d.A%16] ^= byte(1 + d.B%255)
				case 1:
					data[88+6] ^= byte(1 + d.A%255)
				case 2:
					data[100] = byte(1 + d.A%255)
				}
				all()
			case 6: // an item with the key of the metadata of the index
				le.PutUint64(data[80:], maxU)
				le.PutUint64(data[88:], maxU)
				copy(data[it:], rawMetaItemKey)
				all()
			}
		}
		for k, v := range b.Vers {
			if good[k] {
				intact = append(intact, v)
			}
		}
	}
	all := intact
	intact = nil
	for _, v := range all {
		if !junk[rawKey(v)] {
			intact = append(intact, v)
		}
	}
	return
}

// rawMetaItemKey is the key of the index metadata as found in a leaf.
var rawMetaItemKey = append(append(le.AppendUint64(nil, lastFree), 255), bytes.Repeat([]byte{255}, 8)...)

func patternU(s uint64) uint64 {
	r := splitmix(s)
	return r.next()
}

func pickU32(s uint64) uint32 {
	switch s % 4 {
	case 0:
		return 0xffffffff
	case 1:
		return 0
	case 2:
		return uint32(s)
	}
	return uint32(patternU(s))
}

// dumpVers reads the item versions of a metadata file.
func dumpVers(path string) (out []Ver) {
	m, err := rawDump(path)
	must(err)
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if len(k) != 33 || k == string(rawMetaKey[:33]) {
			continue
		}
		b := []byte(k)
		out = append(out, Ver{binary.BigEndian.Uint64(b), Key{U64(binary.BigEndian.Uint64(b[9:])), b[8], U64(binary.BigEndian.Uint64(b[17:]))},
			binary.BigEndian.Uint64(b[25:]), []byte(m[k][min(itemLen, len(m[k])):])})
	}
	return
}

// damaged compares a view of damaged metadata with that of the original.
type damagedView struct {
	orig, now *View
	limit     uint64 // size of the image
}

func (d *damagedView) ok(owner uint64, k Key) bool {
	a, in := d.orig.items[owner][k]
	b, in2 := d.now.items[owner][k]
	return in && in2 && bytes.Equal(a, b)
}

// badDirItems are directory items that are damaged or were not there, of one
// directory or (dir 0) of all of an owner.
func (d *damagedView) badDirItems(owner, dir uint64) (out [][]byte) {
	for k, b := range d.now.items[owner] {
		if k.Type == tDirItem && (dir == 0 || uint64(k.ID) == dir) && !d.ok(owner, k) {
			out = append(out, b)
		}
	}
	return
}

// entryOK tells whether a directory entry is unharmed and cannot be confused
// with anything a damaged item may be taken for.
func (d *damagedView) entryOK(owner, dir uint64, item Key, e DirEnt) bool {
	if !d.ok(owner, item) {
		return false
	}
	for _, b := range d.badDirItems(owner, dir) {
		if bytes.Contains(b, []byte(e.Name)) {
			return false
		}
	}
	if isDirEnt(e) {
		o, ino := enter(owner, e)
		for ow := range d.now.items {
			for _, b := range d.badDirItems(ow, 0) {
				id := ino
				if e.Loc.Type == tRootItem {
					id = o
				} else if ow != owner {
					continue
				}
				if bytes.Contains(b, le.AppendUint64(nil, id)) {
					return false
				}
			}
		}
	}
	return true
}

// extentOK tells whether an extent and all it needs is unharmed.
func (d *damagedView) extentOK(owner, ino, at uint64, e Ext) bool {
	if !d.ok(owner, Key{U64(ino), tExtentData, U64(at)}) {
		return false
	}
	if e.Type != 1 || e.DiskByte == 0 {
		return true
	}
	logical := uint64(e.DiskByte)
	found := false
	for _, k := range d.now.all(oChunk, tChunk, firstFree) {
		b := d.now.items[oChunk][k]
		if len(b) < 8 {
			continue
		}
		in := logical >= uint64(k.Off) && logical-uint64(k.Off) < le.Uint64(b)
		if in && !d.ok(oChunk, k) {
			return false // ambiguous
		}
		found = found || in
	}
	if !found {
		return false
	}
	p, ok := d.orig.phys(logical)
	return ok && p+uint64(e.Off+e.Num) <= d.limit
}

func checkC12(x *Ctx, v any) error {
	c := v.(*caseC12)
	w := c.W
	vs := w.versions()
	b := newRecBox(x)
	if c.Mode == 0 {
		now := c.damageItems(vs)
		buildIndex(b.meta, now)
		w.writeDataImage(b.img)
	} else {
		im := w.image(vs)
		must2 := c.damageLeaves(im)
		im.write(b.img)
		if err := b.recon(w); err != nil {
			return err
		}
		got, err := rawDump(b.meta)
		if err != nil {
			return bad("metadata unreadable: %v", err)
		}
		for _, v := range must2 {
			if g, ok := got[rawKey(v)]; !ok || g[itemLen:] != string(v.Data) {
				return bad("recon lost or changed the intact item %s (%d bytes): %t %d", fromRawKey(rawKey(v)), len(v.Data), ok, len(g))
			}
		}
	}
	if bytesOf := must1(os.Stat(b.img)).Size(); c.Cut > 0 {
		must(os.Truncate(b.img, dataStart+(bytesOf-dataStart)*int64(c.Cut)/1000))
	}
	d := &damagedView{orig: newView(vs, ""), now: newView(dumpVers(b.meta), ""), limit: uint64(must1(os.Stat(b.img)).Size())}
	full := x.Path("full.img")
	w.writeDataImage(full)
	ref := newView(vs, full)
	defer ref.close()

	dest := b.mkdir(b.box + "/dest")
	if newTreeCheck(ref, dest).ambiguous() || maxDepthLen(ref) > 3500 {
		x.Label("left out")
		return nil
	}
	r, err := b.recover(dest, false)
	if err != nil {
		return err
	}
	whole, partly := 0, 0
	reach := ref.reachable(oFS, firstFree)
	var rec func(rel string, owner, dir uint64) error
	rec = func(rel string, owner, dir uint64) error {
		if st, err := os.Lstat(dest + rel); err != nil || !st.IsDir() {
			return bad("directory %q is not restored: %v", rel, err)
		}
		for _, k := range ref.all(owner, tDirItem, dir) {
			es, _ := decDirEnts(ref.items[owner][k])
			for _, e := range es {
				if reserved(string(e.Name)) || !d.entryOK(owner, dir, k, e) {
					continue
				}
				p := rel + "/" + string(e.Name)
				if isDirEnt(e) {
					o, in := enter(owner, e)
					if e.Loc.Type == tRootItem && !reach[dirKey{o, in}] {
						continue // may also have a directory of its own
					}
					if err := rec(p, o, in); err != nil {
						return err
					}
					continue
				}
				ino := uint64(e.Loc.ID)
				n, err := d.file(ref, dest+p, owner, ino, e.Type)
				if err != nil {
					return bad("%v (inode %d of tree %d)", err, ino, owner)
				}
				if n == 1 {
					whole++
				} else if n == 2 {
					partly++
				}
			}
		}
		return nil
	}
	if err := rec("", oFS, firstFree); err != nil {
		return bad("%v\n%s", err, head(r.Err))
	}
	for _, id := range ref.subvols() {
		if reach[dirKey{id, firstFree}] {
			continue
		}
		good, any := true, false
		for _, k := range ref.keys[oRoot] {
			if k.Type == tRootItem && uint64(k.ID) == id {
				any, good = true, good && d.ok(oRoot, k)
			}
		}
		for ow := range d.now.items {
			for _, it := range d.badDirItems(ow, 0) {
				good = good && !bytes.Contains(it, le.AppendUint64(nil, id))
				if ow == oFS { // may be an entry of the same name
					good = good && !bytes.Contains(it, []byte("subvol_"))
				}
			}
		}
		// Other trees may lead to it.
		parent := false
		for o := range ref.items {
			for _, k := range ref.keys[o] {
				if k.Type != tDirItem {
					continue
				}
				es, _ := decDirEnts(ref.items[o][k])
				for _, e := range es {
					parent = parent || e.Loc.Type == tRootItem && uint64(e.Loc.ID) == id
				}
			}
		}
		if any && good && !parent {
			if err := rec(fmt.Sprintf("/subvol_%d", id), id, firstFree); err != nil {
				return bad("%v\n%s", err, head(r.Err))
			}
		}
	}
	x.Label("mode %d", c.Mode)
	x.LabelIf(c.Cut > 0, "cut")
	x.LabelIf(partly > 0, "partly damaged file")
	x.LabelIf(whole > 0, "whole file next to damage")
	harm := len(d.now.items[oFS]) != len(d.orig.items[oFS]) || c.Cut > 0
	for o, m := range d.orig.items {
		for k := range m {
			harm = harm || !d.ok(o, k)
		}
	}
	x.LabelIf(harm, "damaged")
	x.NonTrivialIf(harm && whole+partly > 0)
	return nil
}

// file compares a restored file as far as it is unharmed: 1 all of it, 2 parts
// of it, 0 nothing.
func (d *damagedView) file(ref *View, path string, owner, ino uint64, typ uint8) (int, error) {
	inodeKey := Key{U64(ino), tInodeItem, 0}
	inodeOK := d.ok(owner, inodeKey)
	_, have := d.now.items[owner][inodeKey]
	if typ == ftLink {
		k := Key{U64(ino), tExtentData, 0}
		if !inodeOK || !d.ok(owner, k) || len(d.now.all(owner, tExtentData, ino)) != 1 {
			return 0, nil
		}
		e, _ := decExt(ref.items[owner][k])
		got, err := os.Readlink(path)
		if err != nil || got != string(e.Inline) {
			return 0, bad("symbolic link %q leads to %q (%v), want %q", path, got, err, e.Inline)
		}
		return 1, nil
	}
	if typ != ftReg {
		return 0, nil
	}
	offs, exts := ref.extents(owner, ino)
	allOK := len(d.now.all(owner, tExtentData, ino)) == len(offs)
	extra := len(d.now.all(owner, tExtentData, ino)) > len(offs)
	okExt := make([]bool, len(offs))
	end := uint64(0)
	for i, e := range exts {
		okExt[i] = d.extentOK(owner, ino, offs[i], e)
		allOK = allOK && okExt[i]
		n := uint64(e.Num)
		if e.Type == 0 {
			n = uint64(len(e.Inline))
		}
		end = max(end, offs[i]+n)
	}
	ct := ref.content(owner, ino)
	switch {
	case inodeOK && allOK:
		return 1, ct.sameContent(path)
	case !have && allOK && len(offs) > 0:
		// The end of the extents is the size.
		lost := *ref
		lost.items = map[uint64]map[Key][]byte{}
		for o, m := range ref.items {
			lost.items[o] = m
		}
		m := map[Key][]byte{}
		for k, b := range ref.items[owner] {
			if k != inodeKey {
				m[k] = b
			}
		}
		lost.items[owner] = m
		return 2, lost.content(owner, ino).sameContent(path)
	case inodeOK && !extra:
		f, err := os.OpenFile(path, os.O_RDONLY|syscall.O_NOFOLLOW, 0)
		if err != nil {
			return 0, bad("%q: %v", path, err)
		}
		defer f.Close()
		if st := must1(f.Stat()); uint64(st.Size()) != ct.Size {
			return 0, bad("%q has %d bytes, want %d", path, st.Size(), ct.Size)
		}
		n := 0
		at := map[uint64]int{}
		for i := range offs {
			at[offs[i]] = i
		}
		// What a damaged item of a newer leaf claims is left open.
		nowKeys := d.now.all(owner, tExtentData, ino)
		for _, s := range d.now.layout(owner, ino) {
			i := at[uint64(nowKeys[s.i].Off)]
			if !okExt[i] || s.off >= ct.Size {
				continue
			}
			want := ct.read(s.off, min(s.end-s.off, 4<<20))
			got := make([]byte, len(want))
			if k, err := f.ReadAt(got, int64(s.off)); k < len(got) {
				return 0, bad("%q: short read at %d: %v", path, s.off, err)
			}
			if err := sameBytes(fmt.Sprintf("%q, intact extent", path), s.off, got, want); err != nil {
				return 0, err
			}
			n = 2
		}
		return n, nil
	}
	return 0, nil
}

func init() {
	register(&Sub{Name: "C04/tree", Quick: 2500, Thorough: 12000, NeedBin: true,
		Rule: "generated filesystem (inline, shared, offset, preallocated, sparse extents; subvolumes; far chunks; colliding names), metadata built directly or by recon; recover into several kinds of destination, every entry and byte compared; non-trivial: at least two files with data on disk in more than one directory",
		New:  func() any { return &caseC04{} }, Gen: genC04(false), Check: checkC04})
	register(&Sub{Name: "C05/contain", Quick: 3000, Thorough: 20000, NeedBin: true,
		Rule: "filesystem with hostile names, entries of the same name, links to outside and prepared links, pipes and hard links in the destination; 1-3 runs as an unprivileged user, everything outside compared; non-trivial: something was restored",
		New:  func() any { return &caseC05{} }, Gen: genC05, Check: checkC05})
	register(&Sub{Name: "C06/clobber", Quick: 2500, Thorough: 12000, NeedBin: true,
		Rule: "recover over existing files, links and hard links, and after an earlier run, with and without clobber; non-trivial: an existing file at the place of a restored one",
		New:  func() any { return &caseC06{} }, Gen: genC06, Check: checkC06})
	register(&Sub{Name: "C06/kept", Quick: 800, Thorough: 6000, NeedBin: true,
		Rule: "recover --clobber with symbolic links whose targets are lost, stored in another form or not usable, and files, links and pipes in their place; non-trivial: something in the place of such a link",
		New:  func() any { return &caseKept{} }, Gen: genKept, Check: checkKept})
	register(&Sub{Name: "C10/inside", Quick: 800, Thorough: 6000, NeedBin: true,
		Rule: "recover into a directory that holds the image or the metadata, often under the name of a file to restore, with and without clobber; non-trivial: an existing file at the place of a restored one",
		New:  func() any { return &caseC06{} }, Gen: genInside, Check: checkC06})
	register(&Sub{Name: "C12/local", Quick: 3000, Thorough: 14000, NeedBin: true,
		Rule: "single items or leaves damaged, image cut; everything whose own path, inode, extents and data are unharmed compared; non-trivial: damage, and a file that is compared",
		New:  func() any { return &caseC12{} }, Gen: genC12, Check: checkC12})
	register(&Sub{Name: "C21/recover", Quick: 2000, Thorough: 9000, NeedBin: true,
		Rule: "filesystem with up to 25 older, different versions of its items, recovered and compared as for C04; non-trivial: stale versions and at least two files with data",
		New:  func() any { return &caseC04{} }, Gen: genC04(true), Check: checkC04})
	register(&Sub{Name: "C29/graph", Quick: 3000, Thorough: 14000, NeedBin: true,
		Rule: "directory and subvolume graphs with loops, several references and unattached subvolumes; each directory has to be at exactly one of its places; non-trivial: a subvolume and at least two references",
		New:  func() any { return &caseC04{} }, Gen: genC29, Check: checkC29})
}
