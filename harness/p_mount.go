package main

// C07, C08, C09, C21, C22: the mounted view.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// fsOp is one step of a client of the mounted view. Sel picks a known node, A
// and B what to do with it.
type fsOp struct {
	Kind string
	Sel  int
	A, B int `json:",omitempty"`
}

// mNode is a node the client knows.
type mNode struct {
	id      uint64
	lookups uint64
	what    int // mRoot, mMeta, mTree
	owner   uint64
	ino     uint64
	typ     uint8 // ft*
	path    string
}

// mNum is the inode number of a file.
type mNum struct {
	num  uint64
	path string
}

const (
	mRoot = iota
	mMeta
	mTree
)

// client walks the mounted view and compares every answer with the reference.
type client struct {
	fs      *fuseFS
	v       *View
	noData  bool   // leave file contents out
	meta    []byte // expected contents of the metadata file
	nodes   []*mNode
	byID    map[uint64]*mNode
	files   map[[2]uint64]*mNum // by owner and id
	nums    map[uint64]*mNum    // by inode number
	maxSize uint64              // reads
	cut     bool                // the image ends at limit
	limit   uint64
	enc     ranges // what cannot be read
	stats   struct{ lookups, negative, dirs, attrs, links, xattrs, devs, reads, bytes, cross, forgets, failed, lost int }
}

func newClient(fs *fuseFS, v *View, meta []byte) *client {
	root := &mNode{id: fuseRootNode, what: mRoot, typ: ftDir}
	return &client{fs: fs, v: v, meta: meta, nodes: []*mNode{root}, byID: map[uint64]*mNode{fuseRootNode: root},
		files: map[[2]uint64]*mNum{}, nums: map[uint64]*mNum{}}
}

func errno(r fuseReply) syscall.Errno { return syscall.Errno(-r.errno) }

func (c *client) know(id uint64, n mNode) *mNode {
	if k := c.byID[id]; k != nil {
		k.lookups++
		return k
	}
	n.id, n.lookups = id, 1
	c.byID[id] = &n
	c.nodes = append(c.nodes, &n)
	return &n
}

// child is the expected child of a directory, nil if there is none.
func (c *client) child(n *mNode, name string) *mNode {
	switch {
	case n.what == mRoot && name == "rescue":
		return &mNode{what: mTree, owner: oFS, ino: firstFree, typ: ftDir, path: "/rescue"}
	case n.what == mRoot && name == "metadata":
		return &mNode{what: mMeta, typ: ftReg, path: "/metadata"}
	case n.what != mTree:
		return nil
	}
	for _, e := range c.v.dir(n.owner, n.ino) {
		if string(e.Name) == name {
			return c.entry(n, e)
		}
	}
	return nil
}

func (c *client) entry(n *mNode, e DirEnt) *mNode {
	k := &mNode{what: mTree, owner: n.owner, ino: uint64(e.Loc.ID), typ: e.Type, path: n.path + "/" + string(e.Name)}
	if isDirEnt(e) {
		k.owner, k.ino = enter(n.owner, e)
	}
	return k
}

func (c *client) children(n *mNode) (names []string) {
	switch n.what {
	case mRoot:
		return []string{"metadata", "rescue"}
	case mTree:
		for _, e := range c.v.dir(n.owner, n.ino) {
			names = append(names, string(e.Name))
		}
	}
	sort.Strings(names)
	return
}

func unixTime(t Time) (uint64, uint32) {
	u := time.Unix(t.Sec, int64(t.Nsec))
	return uint64(u.Unix()), uint32(u.Nanosecond())
}

// attrs compares attributes with those of the inode.
func (c *client) attrs(n *mNode, a fAttr) error {
	c.stats.attrs++
	if n.what == mRoot {
		if a.Mode&0o170000 != 0o040000 {
			return bad("mode of the root is %o", a.Mode)
		}
		return nil
	}
	if n.what == mMeta {
		if a.Mode&0o170222 != 0o100000 {
			return bad("mode of the metadata file is %o", a.Mode)
		}
		if a.Size != uint64(len(c.meta)) {
			return bad("size of the metadata file is %d, want %d", a.Size, len(c.meta))
		}
		return nil
	}
	if err := c.number(n, a.Ino); err != nil {
		return err
	}
	in, ok := c.v.inode(n.owner, n.ino)
	if !ok { // lost
		c.stats.lost++
		if a.Mode>>12 != dtype(n.typ) {
			return bad("%q, whose inode is lost, has mode %o, want type %o", n.path, a.Mode, dtype(n.typ)<<12)
		}
		if size := c.v.content(n.owner, n.ino).Size; n.typ == ftReg && a.Size != size {
			return bad("%q, whose inode is lost, has size %d, its extents end at %d", n.path, a.Size, size)
		}
		if n.typ == ftReg && a.Blocks == 0 && !c.noData {
			for _, s := range c.v.content(n.owner, n.ino).Segs {
				if len(s.Data) > 0 {
					return bad("%q, whose inode is lost, has data but no blocks", n.path)
				}
			}
		}
		return nil
	}
	w := fAttr{Size: uint64(in.Size), Mode: in.Mode, Nlink: max(1, in.Nlink), UID: in.UID, GID: in.GID}
	w.Atime, w.AtimeN = unixTime(in.Atime)
	w.Mtime, w.MtimeN = unixTime(in.Mtime)
	w.Ctime, w.CtimeN = unixTime(in.Ctime)
	if f := in.Mode & 0o170000; f == 0o020000 || f == 0o060000 {
		// Inode items hold the kernel's own dev_t; the kernel decodes what FUSE
		// returns like this (new_decode_dev).
		c.stats.devs++
		maj, min := a.Rdev&0xfff00>>8, a.Rdev&0xff|a.Rdev>>12&0xfff00
		if wmaj, wmin := uint32(in.Rdev)>>20, uint32(in.Rdev)&(1<<20-1); maj != wmaj || min != wmin {
			return bad("device number of %q is %d:%d, want %d:%d", n.path, maj, min, wmaj, wmin)
		}
		a.Rdev = 0
	} else {
		a.Rdev = 0
	}
	// Space is given out in whole sectors
	if b := in.bytes(); b < 1<<60 && (a.Blocks < (b+511)/512 || a.Blocks > (b+1<<16)/512) {
		return bad("%q takes up %d bytes and has %d blocks of 512 bytes", n.path, b, a.Blocks)
	}
	a.Ino, a.BlkSize, a.Blocks = 0, 0, 0
	a.Nlink = max(1, a.Nlink)
	if a != w {
		return bad("attributes of %q are %+v, want %+v", n.path, a, w)
	}
	return nil
}

// statfs asks about the filesystem a node is on. What it holds in total is left
// open.
func (c *client) statfs(n *mNode) error {
	r, err := c.fs.call(fStatfs, n.id, nil)
	if err != nil {
		return err
	}
	if r.errno != 0 || len(r.data) < 52 {
		return bad("statfs of %q: %v", n.path, errno(r))
	}
	if bs, max := le.Uint32(r.data[40:]), le.Uint32(r.data[44:]); bs == 0 || max < 255 {
		return bad("statfs of %q: blocks of %d bytes, names of up to %d", n.path, bs, max)
	}
	return nil
}

// number checks that files have the same inode number exactly if they are the
// same, as programs that copy trees take others for links or loops. Numbers have
// 64 bits, so this is left open for ids that are far out.
func (c *client) number(n *mNode, ino uint64) error {
	if n.owner >= 1<<24 || n.ino >= 1<<40 {
		return nil
	}
	k := [2]uint64{n.owner, n.ino}
	if o := c.files[k]; o != nil && o.num != ino {
		return bad("%q and %q are the same file and have the inode numbers %d and %d", o.path, n.path, o.num, ino)
	} else if o == nil {
		if p := c.nums[ino]; p != nil {
			return bad("%q and %q are different files and have the inode number %d", p.path, n.path, ino)
		}
		o = &mNum{num: ino, path: n.path}
		c.files[k], c.nums[ino] = o, o
	}
	return nil
}

func (c *client) lookup(n *mNode, name string) (*mNode, error) {
	want := c.child(n, name)
	r, err := c.fs.call(fLookup, n.id, cstr(name))
	if err != nil {
		return nil, err
	}
	if want == nil {
		c.stats.negative++
		if errno(r) != syscall.ENOENT {
			return nil, bad("lookup of %q in %q, which is not there: %v", name, n.path, errno(r))
		}
		return nil, nil
	}
	c.stats.lookups++
	if c.gone(want) {
		return nil, nil
	}
	if r.errno != 0 {
		return nil, bad("lookup of %q in %q: %v", name, n.path, errno(r))
	}
	id, a, ok := decEntry(r.data)
	if !ok || id == 0 {
		return nil, bad("lookup of %q in %q: no node", name, n.path)
	}
	if k := c.byID[id]; k != nil && (k.what != want.what || k.owner != want.owner || k.ino != want.ino) {
		return nil, bad("%q has the node %d of %q", want.path, id, k.path)
	}
	k := c.know(id, *want)
	return k, c.attrs(k, a)
}

// gone tells whether only the name of a file is left. Nothing is demanded of
// such nodes.
func (c *client) gone(n *mNode) bool {
	if n.what != mTree || n.typ != ftReg {
		return false
	}
	_, ok := c.v.inode(n.owner, n.ino)
	offs, _ := c.v.extents(n.owner, n.ino)
	return !ok && len(offs) == 0
}

func (c *client) getattr(n *mNode) error {
	r, err := c.fs.call(fGetattr, n.id, append(u32s(0, 0), u64s(0)...))
	if err != nil {
		return err
	}
	if r.errno != 0 || len(r.data) < 104 {
		return bad("attributes of %q: %v", n.path, errno(r))
	}
	a, _ := decAttr(r.data[16:])
	return c.attrs(n, a)
}

func dtype(ft uint8) uint32 {
	return map[uint8]uint32{ftReg: 8, ftDir: 4, ftChr: 2, ftBlk: 6, ftFifo: 1, ftSock: 12, ftLink: 10}[ft]
}

// readdir lists a directory with replies of at most size bytes.
func (c *client) readdir(n *mNode, size uint32, plus bool) error {
	c.stats.dirs++
	op := uint32(fReaddir)
	if plus {
		op = fReaddirplus
	}
	r, err := c.fs.call(fOpendir, n.id, u32s(0o200000, 0))
	if err != nil {
		return err
	}
	if r.errno != 0 || len(r.data) < 16 {
		return bad("opening directory %q: %v", n.path, errno(r))
	}
	fh := le.Uint64(r.data)
	got := map[string]fDirent{}
	off := uint64(0)
	for {
		r, err := c.fs.call(op, n.id, append(u64s(fh, off), append(u32s(size, 0), append(u64s(0), u32s(0, 0)...)...)...))
		if err != nil {
			return err
		}
		if r.errno != 0 {
			return bad("reading directory %q: %v", n.path, errno(r))
		}
		if len(r.data) > int(size) {
			return bad("reading directory %q: %d bytes instead of at most %d", n.path, len(r.data), size)
		}
		l, err := decDirents(r.data, plus)
		if err != nil {
			return bad("reading directory %q: %v", n.path, err)
		}
		if len(l) == 0 {
			break
		}
		for _, e := range l {
			off = e.Off
			if e.Name == "." || e.Name == ".." {
				continue
			}
			if _, dup := got[e.Name]; dup {
				return bad("directory %q lists %q twice", n.path, e.Name)
			}
			got[e.Name] = e
			want := c.child(n, e.Name)
			if want == nil {
				return bad("directory %q lists %q", n.path, e.Name)
			}
			if e.Type != dtype(want.typ) {
				return bad("directory %q lists %q as kind %d, want %d", n.path, e.Name, e.Type, dtype(want.typ))
			}
			if plus && e.Node != 0 && !c.gone(want) {
				if k := c.byID[e.Node]; k != nil && (k.what != want.what || k.owner != want.owner || k.ino != want.ino) {
					return bad("%q has the node %d of %q", want.path, e.Node, k.path)
				}
				k := c.know(e.Node, *want)
				if err := c.attrs(k, e.Attr); err != nil {
					return err
				}
			}
		}
		if len(got) > 100000 {
			return bad("directory %q has no end", n.path)
		}
	}
	for _, name := range c.children(n) {
		if _, ok := got[name]; !ok {
			return bad("directory %q does not list %q", n.path, name)
		}
	}
	r, err = c.fs.call(fReleasedir, n.id, append(u64s(fh), append(u32s(0, 0), u64s(0)...)...))
	if err == nil && r.errno != 0 {
		err = bad("closing directory %q: %v", n.path, errno(r))
	}
	return err
}

func (c *client) readlink(n *mNode) error {
	r, err := c.fs.call(fReadlink, n.id, nil)
	if err != nil {
		return err
	}
	offs, exts := c.v.extents(n.owner, n.ino)
	c.stats.links++
	// What older generations left at its number is no target.
	if len(exts) == 0 || offs[0] != 0 || exts[0].Type != 0 { // lost
		if r.errno == 0 {
			return bad("symbolic link %q, whose target is lost, leads to %q", n.path, r.data)
		}
		return nil
	}
	if c.enc[dirKey{n.owner, n.ino}] != nil {
		if r.errno == 0 {
			return bad("symbolic link %q, whose target is encoded, leads to %q", n.path, r.data)
		}
		c.stats.failed++
		return nil
	}
	if r.errno != 0 || string(r.data) != string(exts[0].Inline) {
		return bad("symbolic link %q leads to %q (%v), want %q", n.path, r.data, errno(r), exts[0].Inline)
	}
	return nil
}

// xattrs checks extended attributes; mode chooses how.
func (c *client) xattrs(n *mNode, mode int) error {
	want := map[string]string{}
	var names []string
	for _, e := range c.v.xattrs(n.owner, n.ino) {
		want[string(e.Name)] = string(e.Data)
		names = append(names, string(e.Name))
	}
	sort.Strings(names)
	total := 0
	for _, k := range names {
		total += len(k) + 1
	}
	c.stats.xattrs++
	get := func(op uint32, size int, name string) (fuseReply, error) {
		b := u32s(uint32(size), 0)
		if op == fGetxattr {
			b = append(b, cstr(name)...)
		}
		return c.fs.call(op, n.id, b)
	}
	// check asks for a value with the given room for it.
	check := func(op uint32, name string, need, size int) (string, error) {
		what := fmt.Sprintf("extended attribute %q of %q with %d bytes of room", name, n.path, size)
		r, err := get(op, size, name)
		switch {
		case err != nil:
			return "", err
		case size == 0:
			if r.errno != 0 || len(r.data) < 8 || int(le.Uint32(r.data)) != need {
				return "", bad("size of %s is %x (%v), want %d", what, r.data, errno(r), need)
			}
		case size < need:
			if errno(r) != syscall.ERANGE {
				return "", bad("%s: %v, want %v", what, errno(r), syscall.ERANGE)
			}
		case r.errno != 0 || len(r.data) != need:
			return "", bad("%s: %d bytes (%v), want %d", what, len(r.data), errno(r), need)
		}
		return string(r.data), nil
	}
	sizes := func(need int) []int { return []int{0, need, need + 1, 65536, max(1, need-1)} }
	for _, s := range sizes(total) {
		if s == 0 && mode%2 == 1 {
			continue
		}
		got, err := check(fListxattr, "", total, s)
		if err != nil {
			return err
		}
		if s > 0 && s >= total {
			l := strings.Split(got, "\x00")
			l = l[:len(l)-1]
			sort.Strings(l)
			if strings.Join(l, "\x00") != strings.Join(names, "\x00") {
				return bad("extended attributes of %q: %q, want %q", n.path, l, names)
			}
		}
	}
	for _, name := range names {
		for _, s := range sizes(len(want[name])) {
			got, err := check(fGetxattr, name, len(want[name]), s)
			if err != nil {
				return err
			}
			if s > 0 && s >= len(want[name]) && got != want[name] {
				return bad("extended attribute %q of %q is %q, want %q", name, n.path, got, want[name])
			}
		}
	}
	missing := []string{"user.none", "user.", "user.a2"}
	if len(names) > 0 {
		missing = append(missing, otherCase(names[mode%len(names)]))
	}
	for _, name := range missing {
		if _, ok := want[name]; ok {
			continue
		}
		r, err := get(fGetxattr, 100, name)
		if err != nil {
			return err
		}
		if errno(r) != syscall.ENODATA {
			return bad("extended attribute %q of %q, which is not there: %v", name, n.path, errno(r))
		}
	}
	return nil
}

func (c *client) open(n *mNode, flags uint32) (fh uint64, e syscall.Errno, err error) {
	r, err := c.fs.call(fOpen, n.id, u32s(flags|0o100000, 0))
	if err != nil {
		return 0, 0, err
	}
	if r.errno != 0 {
		return 0, errno(r), nil
	}
	if len(r.data) < 16 {
		return 0, 0, bad("opening %q: truncated answer", n.path)
	}
	return le.Uint64(r.data), 0, nil
}

func (c *client) release(n *mNode, fh uint64) error {
	if r, err := c.fs.call(fFlush, n.id, append(u64s(fh), append(u32s(0, 0), u64s(0)...)...)); err != nil {
		return err
	} else if r.errno != 0 && errno(r) != syscall.ENOSYS {
		return bad("flushing %q: %v", n.path, errno(r))
	}
	r, err := c.fs.call(fRelease, n.id, append(u64s(fh), append(u32s(0, 0), u64s(0)...)...))
	if err == nil && r.errno != 0 {
		err = bad("closing %q: %v", n.path, errno(r))
	}
	return err
}

func (c *client) content(n *mNode) Content {
	if n.what == mMeta {
		return Content{Size: uint64(len(c.meta)), Segs: []Seg{{0, c.meta}}}
	}
	return c.v.content(n.owner, n.ino)
}

// read reads and compares. The kernel cuts what exceeds the file size.
func (c *client) read(n *mNode, ct *Content, fh, off uint64, size uint32) error {
	r, err := c.fs.call(fRead, n.id, append(u64s(fh, off), append(u32s(size, 0), append(u64s(0), u32s(0o100000, 0)...)...)...))
	if err != nil {
		return err
	}
	what := fmt.Sprintf("reading %d bytes at %d of %q (%d bytes)", size, off, n.path, ct.Size)
	if k := (dirKey{n.owner, n.ino}); n.what == mTree && c.enc.overlaps(k, off, min(off+uint64(size), ct.Size)) {
		// Without a device, all data on disk reads as zeros.
		if r.errno == 0 && !(c.v.noDev && bytes.Count(r.data, []byte{0}) == len(r.data)) {
			return bad("%s: got data, although it is stored in encoded form there (%v)", what, c.enc[k])
		}
		c.stats.reads++
		c.stats.failed++
		return nil
	}
	if r.errno != 0 {
		if c.unreadable(n, ct, off, uint64(size)) {
			c.stats.reads++
			c.stats.failed++
			return nil
		}
		return bad("%s: %v", what, errno(r))
	}
	if len(r.data) > int(size) {
		return bad("%s: answer has %d bytes", what, len(r.data))
	}
	c.stats.reads++
	want := ct.read(off, uint64(size))
	if len(r.data) < len(want) {
		return bad("%s: only %d bytes", what, len(r.data))
	}
	c.stats.bytes += len(want)
	for _, s := range ct.Segs {
		if s.Off > off && s.Off < off+uint64(len(want)) {
			c.stats.cross++
		}
	}
	return sameBytes(what, off, r.data[:len(want)], want)
}

// points are the offsets at which something changes in a file.
func points(ct *Content, offs []uint64, exts []Ext) (p []uint64) {
	p = []uint64{0, ct.Size}
	for i, e := range exts {
		p = append(p, offs[i], offs[i]+uint64(e.Num))
		if e.Type == 0 {
			p = append(p, offs[i]+uint64(len(e.Inline)))
		}
	}
	return
}

// reads does a number of reads chosen by seed.
func (c *client) reads(n *mNode, seed, count int) error {
	ct := c.content(n)
	var offs []uint64
	var exts []Ext
	if n.what == mTree {
		offs, exts = c.v.extents(n.owner, n.ino)
	}
	fh, e, err := c.open(n, []uint32{0, 0o4000, 0o1000000}[seed%3])
	if err != nil {
		return err
	}
	if e != 0 {
		return bad("opening %q: %v", n.path, e)
	}
	p := points(&ct, offs, exts)
	r := splitmix(seed)
	for i := 0; i < count; i++ {
		off := p[r.intn(len(p))]
		switch r.intn(6) {
		case 0:
			off += uint64(r.intn(5000))
		case 1:
			off -= min(off, uint64(r.intn(5000)))
		case 2:
			off -= min(off, 1)
		case 3:
			off = r.next() % (ct.Size + 1)
		}
		size := []uint32{1, 4096, 100, 65536, 131072, uint32(1 + r.intn(131072)), 8192, 12288, uint32(1 + r.intn(20000))}[r.intn(9)]
		if r.intn(3) > 0 { // like the kernel: whole pages
			off = off &^ 4095
			size = (size + 4095) &^ 4095
		}
		if off >= ct.Size || off > 1<<62 {
			continue // the kernel does not ask
		}
		if err := c.read(n, &ct, fh, off, size); err != nil {
			return err
		}
	}
	return c.release(n, fh)
}

// readAll reads a file from start to end (or what of it is not too big).
func (c *client) readAll(n *mNode, size uint32) error {
	ct := c.content(n)
	fh, e, err := c.open(n, 0)
	if err != nil {
		return err
	}
	if e != 0 {
		return bad("opening %q: %v", n.path, e)
	}
	if ct.Size <= 4<<20 {
		for off := uint64(0); off < ct.Size; off += uint64(size) {
			if err := c.read(n, &ct, fh, off, size); err != nil {
				return err
			}
		}
	} else {
		for _, s := range ct.Segs {
			for off := s.Off &^ 4095; off < s.Off+uint64(len(s.Data)); off += uint64(size) {
				if err := c.read(n, &ct, fh, off, size); err != nil {
					return err
				}
			}
		}
	}
	return c.release(n, fh)
}

func (c *client) forget(n *mNode) error {
	if n.what != mTree || n.path == "/rescue" {
		return nil
	}
	// The kernel forgets children first.
	for _, k := range c.nodes {
		if k != n && strings.HasPrefix(k.path, n.path+"/") {
			return nil
		}
	}
	c.stats.forgets++
	delete(c.byID, n.id)
	for i, k := range c.nodes {
		if k == n {
			c.nodes = append(c.nodes[:i:i], c.nodes[i+1:]...)
			break
		}
	}
	return c.fs.send(fForget, n.id, u64s(n.lookups), nil)
}

var missingNames = []string{"nope", ".", "..", "a", "rescue", "metadata", "b1", "subvol_256", "A", "aa", " ", strings.Repeat("x", 255), "\xff"}

// do executes one step.
func (c *client) do(op fsOp) error {
	n := c.nodes[op.Sel%len(c.nodes)]
	if n.typ != ftDir && op.Kind != "attr" && op.Kind != "xattr" && op.Kind != "data" && op.Kind != "forget" {
		// Directories only: its next known one.
		for i := range c.nodes {
			if k := c.nodes[(op.Sel+i)%len(c.nodes)]; k.typ == ftDir {
				n = k
				break
			}
		}
	}
	switch op.Kind {
	case "lookup":
		names := c.children(n)
		if len(names) == 0 {
			return nil
		}
		_, err := c.lookup(n, names[op.A%len(names)])
		return err
	case "missing":
		name := missingNames[op.A%len(missingNames)]
		if names := c.children(n); len(names) > 0 && op.B%2 == 1 {
			// Close to an existing one.
			name = names[op.A%len(names)]
			switch op.B / 2 % 3 {
			case 0:
				name += "x"
			case 1:
				name = name[:len(name)-1]
			case 2:
				name = collide(name, uint64(op.A%7))
			}
		}
		if name == "" || name == "." || name == ".." || len(name) > 255 || strings.ContainsAny(name, "/\x00") {
			return nil
		}
		_, err := c.lookup(n, name)
		return err
	case "readdir":
		return c.readdir(n, []uint32{4096, 300, 32768, 1000}[op.A%4], false)
	case "readdirplus":
		return c.readdir(n, []uint32{4096, 600, 32768, 1000}[op.A%4], true)
	case "attr":
		if op.B%3 == 1 {
			if err := c.statfs(n); err != nil {
				return err
			}
		}
		return c.getattr(n)
	case "xattr":
		if n.what != mTree {
			return nil
		}
		return c.xattrs(n, op.A)
	case "data":
		switch n.typ {
		case ftReg:
			if c.noData {
				return nil
			}
			return c.reads(n, op.A, 1+op.B%6)
		case ftLink:
			return c.readlink(n)
		}
		return nil
	case "forget":
		return c.forget(n)
	}
	return infra("unknown step %q", op.Kind)
}

// sweep visits everything.
func (c *client) sweep(data bool) error {
	done := map[string]bool{}
	root := c.nodes[0]
	todo := []*mNode{root}
	for len(todo) > 0 {
		n := todo[0]
		todo = todo[1:]
		if done[n.path] {
			continue
		}
		done[n.path] = true
		if err := c.getattr(n); err != nil {
			return err
		}
		switch n.typ {
		case ftDir:
			if err := c.readdir(n, 4096, len(n.path)%2 == 1); err != nil {
				return err
			}
			names := c.children(n)
			for i, name := range names {
				if i > 60 && i%(1+len(names)/60) > 0 {
					continue // of very large directories, some
				}
				k, err := c.lookup(n, name)
				if err != nil {
					return err
				}
				if k == nil {
					continue
				}
				k2 := *k // by this path
				k2.path = n.path + "/" + name
				todo = append(todo, &k2)
			}
		case ftLink:
			if err := c.readlink(n); err != nil {
				return err
			}
		case ftReg:
			if !data {
				break
			}
			if err := c.readAll(n, 65536); err != nil {
				return err
			}
		}
		if n.what == mTree {
			if err := c.xattrs(n, 0); err != nil {
				return err
			}
		}
	}
	return nil
}

// ---- Cases

type caseMount struct {
	W     *World
	Ops   []fsOp
	NoDev bool `json:",omitempty"`
	Recon bool `json:",omitempty"`
	// Clients are the steps of concurrent clients (C22).
	Clients [][]fsOp `json:",omitempty"`
	Muts    []fsMut  `json:",omitempty"`
}

func genOps(t *rapid.T, lo, hi int, kinds ...string) (ops []fsOp) {
	for i, n := 0, rapid.IntRange(lo, hi).Draw(t, "nops"); i < n; i++ {
		ops = append(ops, fsOp{pick(t, "op", kinds...), rapid.IntRange(0, 60).Draw(t, "sel"), rapid.IntRange(0, 60).Draw(t, "a"), rapid.IntRange(0, 11).Draw(t, "b")})
	}
	return
}

func genC07(t *rapid.T) any {
	c := &caseMount{Recon: rapid.IntRange(0, 7).Draw(t, "recon") == 0}
	c.W = genWorld(t, WOpt{MaxNodes: 16, Subvols: 2, Special: true, Xattrs: true, Collide: true, NoData: true, Fill: true})
	c.Ops = genOps(t, 0, 30, "lookup", "lookup", "lookup", "missing", "readdir", "readdirplus", "attr", "xattr", "data", "forget")
	return c
}

func genC08(t *rapid.T) any {
	c := &caseMount{NoDev: rapid.IntRange(0, 5).Draw(t, "nodev") == 0}
	c.W = genWorld(t, WOpt{MaxNodes: 10, Subvols: 1, Big: true, FarPhys: true})
	c.Ops = genOps(t, 5, 40, "lookup", "readdirplus", "data", "data", "data", "data", "data", "forget")
	return c
}

func genC21mount(t *rapid.T) any {
	c := &caseMount{Recon: rapid.IntRange(0, 4).Draw(t, "recon") == 0}
	c.W = genWorld(t, WOpt{MaxNodes: 14, Subvols: 2, Xattrs: true, Collide: true, Stale: true, Over: true})
	c.Ops = genOps(t, 0, 15, "lookup", "lookup", "missing", "readdir", "readdirplus", "attr", "xattr", "data", "forget")
	return c
}

// prepareMount makes metadata and image in a directory of the unprivileged
// user that runs the command (and could change them).
func (c *caseMount) prepare(x *Ctx) (b *recBox, vs []Ver, err error) {
	b = newRecBox(x)
	b.img, b.meta = b.box+"/disk.img", b.box+"/meta.db"
	vs = c.W.versions()
	if err := b.prepare(c.W, vs, c.Recon); err != nil {
		return nil, nil, err
	}
	b.own(b.img)
	b.own(b.meta)
	return b, vs, nil
}

func (b *recBox) mount(bin string, noDev bool) (*fuseFS, error) {
	args := []string{"--metadata", b.meta}
	if !noDev {
		args = append(args, b.img)
	}
	fs, res, err := b.x.mountFS(bin, runOpt{uid: nobody, dir: b.box, stuckOK: true, noLimit: bin == b.x.RaceBin}, args...)
	if err == nil && fs == nil {
		err = bad("btrfscue mount failed with status %d: %s", res.Code, head(res.Err))
	}
	return fs, err
}

// view is the reference for a mount.
func (c *caseMount) view(b *recBox, vs []Ver) *View {
	v := newView(vs, b.img)
	v.noDev = c.NoDev
	return v
}

func checkMount(x *Ctx, v any) error {
	c := v.(*caseMount)
	b, vs, err := c.prepare(x)
	if err != nil {
		return err
	}
	ref := c.view(b, vs)
	defer ref.close()
	fs, err := b.mount(x.Bin, c.NoDev)
	if err != nil {
		return err
	}
	defer fs.kill()
	cl := newClient(fs, ref, must1(os.ReadFile(b.meta)))
	cl.noData = strings.HasPrefix(x.sub, "C07")
	for _, op := range c.Ops {
		if err := cl.do(op); err != nil {
			return err
		}
	}
	if err := cl.sweep(!cl.noData); err != nil {
		return err
	}
	if err := fs.stop(); err != nil {
		return err
	}
	s := cl.stats
	x.LabelIf(c.NoDev, "without a device")
	x.LabelIf(c.Recon, "with recon")
	x.LabelIf(s.forgets > 0, "nodes forgotten")
	x.LabelIf(s.negative > 0, "negative lookups")
	x.LabelIf(s.links > 0, "symbolic links")
	x.LabelIf(cl.stats.devs > 0, "device nodes")
	x.LabelIf(len(c.W.Subs) > 1, "subvolumes")
	x.LabelIf(s.cross > 0, "reads across extents")
	x.LabelIf(len(c.W.Stale) > 0, "stale copies")
	x.LabelIf(c.W.Fill != nil && !c.W.Fill.Deep, "large directory")
	x.LabelIf(c.W.Frag != nil, "file in many pieces")
	x.LabelIf(c.W.Fill != nil && c.W.Fill.Deep, "directories within directories")
	x.LabelIf(len(c.W.Over) > 0 && cl.v.overlaps(), "overlapping extents")
	switch {
	case strings.HasPrefix(x.sub, "C08"):
		x.NonTrivialIf(s.reads > 5 && s.cross > 0)
	case strings.HasPrefix(x.sub, "C21"):
		x.NonTrivialIf(s.lookups > 3 && len(c.W.Stale) > 0)
	default:
		x.NonTrivialIf(s.lookups > 4 && s.dirs > 2 && len(c.Ops) > 3)
	}
	return nil
}

// ---- C09

// fsMut is a request to change something.
type fsMut struct {
	Kind string
	Sel  int
	A    int
	Name Bytes
}

var mutKinds = []string{"setattr", "setattr", "symlink", "mknod", "mkdir", "unlink", "unlink", "rmdir", "rename", "rename2", "link",
	"create", "write", "write", "write", "setxattr", "removexattr", "fallocate", "ftruncate"}

func genC09(t *rapid.T) any {
	c := &caseMount{NoDev: rapid.IntRange(0, 5).Draw(t, "nodev") == 0}
	c.W = genWorld(t, WOpt{MaxNodes: 8, Subvols: 1, Xattrs: true, Special: true})
	c.Ops = genOps(t, 0, 10, "lookup", "lookup", "readdirplus", "data")
	for i, n := 0, rapid.IntRange(1, 25).Draw(t, "muts"); i < n; i++ {
		c.Muts = append(c.Muts, fsMut{pick(t, "mut", mutKinds...), rapid.IntRange(0, 40).Draw(t, "sel"), rapid.IntRange(0, 1000).Draw(t, "a"),
			Bytes(pick(t, "name", "new", "rescue", "metadata", "a", "user.a"))})
	}
	return c
}

// mutate sends a request to change something and demands that it fails.
func (c *client) mutate(m fsMut) error {
	n := c.nodes[m.Sel%len(c.nodes)]
	dir := n
	for i := range c.nodes {
		if k := c.nodes[(m.Sel+i)%len(c.nodes)]; k.typ == ftDir {
			dir = k
			break
		}
	}
	file := n
	for i := range c.nodes {
		if k := c.nodes[(m.Sel+i)%len(c.nodes)]; k.typ == ftReg {
			file = k
			break
		}
	}
	name := string(m.Name)
	if l := c.children(dir); len(l) > 0 && m.A%2 == 0 {
		name = l[m.A/2%len(l)]
	}
	other := c.nodes[m.A%len(c.nodes)]
	for i := range c.nodes {
		if k := c.nodes[(m.A+i)%len(c.nodes)]; k.typ == ftDir {
			other = k
			break
		}
	}
	refused := func(op uint32, node uint64, body []byte) error {
		r, err := c.fs.call(op, node, body)
		if err == nil && r.errno == 0 {
			err = bad("%s of %q (%q) was not refused", m.Kind, n.path, name)
		}
		return err
	}
	setattr := func(node, fh uint64, valid uint32) error {
		b := append(u32s(valid, 0), u64s(fh, uint64(m.A%7)*1000, 0, 12345, 54321, 1)...)
		return refused(fSetattr, node, append(b, u32s(1, 2, 3, 0o100777, 0, 77, 78, 0)...))
	}
	switch m.Kind {
	case "setattr":
		valid := []uint32{1, 2, 4, 8, 16, 32, 48, 6, 16 | 128, 32 | 256, 63, 9}[m.A%12]
		return setattr(n.id, 0, valid)
	case "symlink":
		return refused(fSymlink, dir.id, cstr(name, "target"))
	case "mknod":
		return refused(fMknod, dir.id, append(u32s([]uint32{0o100644, 0o010644, 0o020644}[m.A%3], 259, 0o22, 0), cstr(name)...))
	case "mkdir":
		return refused(fMkdir, dir.id, append(u32s(0o755, 0o22), cstr(name)...))
	case "unlink":
		return refused(fUnlink, dir.id, cstr(name))
	case "rmdir":
		return refused(fRmdir, dir.id, cstr(name))
	case "rename":
		return refused(fRename, dir.id, append(u64s(other.id), cstr(name, string(m.Name)+"2")...))
	case "rename2":
		return refused(fRename2, dir.id, append(u64s(other.id), append(u32s(uint32(m.A%3), 0), cstr(name, string(m.Name)+"2")...)...))
	case "link":
		return refused(fLink, dir.id, append(u64s(file.id), cstr(string(m.Name))...))
	case "create":
		return refused(fCreate, dir.id, append(u32s([]uint32{0o101, 0o102, 0o302}[m.A%3], 0o100644, 0o22, 0), cstr(name)...))
	case "setxattr":
		return refused(fSetxattr, n.id, append(append(u32s(5, 0), cstr(string(m.Name))...), "value"...))
	case "removexattr":
		return refused(fRemovexattr, n.id, cstr(string(m.Name)))
	case "write", "fallocate", "ftruncate":
		if file.typ != ftReg {
			return nil
		}
		// Either opening it for writing or the write fails.
		fh, e, err := c.open(file, []uint32{2, 1, 2 | 0o2000, 1 | 0o2000}[m.A%4])
		if err != nil || e != 0 {
			return err
		}
		switch m.Kind {
		case "write":
			data := patternBytes(uint64(m.A), 0, uint64([]int{1, 100, 4096, 60000}[m.A%4]))
			b := append(u64s(fh, uint64(m.A%3)*4096), append(u32s(uint32(len(data)), 0), append(u64s(0), u32s(0o100002, 0)...)...)...)
			err = refused(fWrite, file.id, append(b, data...))
		case "fallocate":
			err = refused(fFallocate, file.id, append(u64s(fh, uint64(m.A), 8192), u32s([]uint32{0, 1, 3}[m.A%3], 0)...))
		case "ftruncate":
			err = setattr(file.id, fh, 8|64)
		}
		if err != nil {
			return err
		}
		return c.release(file, fh)
	}
	return infra("unknown change %q", m.Kind)
}

func checkC09(x *Ctx, v any) error {
	c := v.(*caseMount)
	b, vs, err := c.prepare(x)
	if err != nil {
		return err
	}
	ref := c.view(b, vs)
	defer ref.close()
	before := treeSum(b.box)
	fs, err := b.mount(x.Bin, c.NoDev)
	if err != nil {
		return err
	}
	defer fs.kill()
	cl := newClient(fs, ref, must1(os.ReadFile(b.meta)))
	root := cl.nodes[0]
	for _, n := range []string{"rescue", "metadata"} {
		if _, err := cl.lookup(root, n); err != nil {
			return err
		}
	}
	for _, op := range c.Ops {
		if err := cl.do(op); err != nil {
			return err
		}
	}
	for _, m := range c.Muts {
		if err := cl.mutate(m); err != nil {
			return err
		}
		x.Label("%s", m.Kind)
	}
	if err := cl.sweep(true); err != nil {
		return err
	}
	if err := fs.stop(); err != nil {
		return err
	}
	if d := diffTree(before, treeSum(b.box)); d != "" {
		return bad("files changed: %s", d)
	}
	x.NonTrivialIf(len(c.Muts) > 4 && len(cl.nodes) > 3)
	return nil
}

// ---- C22

func genC22(t *rapid.T) any {
	c := &caseMount{}
	c.W = genWorld(t, WOpt{MaxNodes: 12, Subvols: 1, Xattrs: true, Collide: true})
	n := rapid.IntRange(2, 8).Draw(t, "clients")
	for i := 0; i < n; i++ {
		c.Clients = append(c.Clients, genOps(t, 3, 25, "lookup", "lookup", "missing", "readdir", "readdirplus", "attr", "xattr", "data", "data"))
	}
	return c
}

var repoFrame = regexp.MustCompile(`^(blichmann\.eu/code/btrfscue/|main\.)`)

// innermost returns the innermost frame of an access that is not of the
// standard library. bbolt counts cursors without a lock, in transactions that
// are otherwise only read: its accesses have no effect on what is read.
func innermost(access string) string {
	for _, l := range strings.Split(access, "\n") {
		f := strings.TrimSpace(l)
		if !strings.HasPrefix(l, "  ") || strings.HasPrefix(l, "   ") || f == "" {
			continue // Not a function, e.g. the file it is in
		}
		if path, _, _ := strings.Cut(f, "/"); strings.Contains(path, ".") &&
			strings.Contains(f, "/") {
			return f
		}
		if strings.HasPrefix(f, "main.") {
			return f
		}
	}
	return ""
}

// races returns the data races in which the code under test takes part.
func races(stderr string) string {
	for _, r := range strings.Split(stderr, "==================") {
		if !strings.Contains(r, "WARNING: DATA RACE") {
			continue
		}
		// Only what the two accesses do counts, not how the goroutines began.
		acc := r
		if i := strings.Index(acc, "\nGoroutine "); i >= 0 {
			acc = acc[:i]
		}
		for _, a := range strings.SplitN(acc, "\n\n", 3) {
			if repoFrame.MatchString(innermost(a)) {
				return strings.TrimSpace(r)
			}
		}
	}
	return ""
}

func checkC22(bin func(*Ctx) string) func(x *Ctx, v any) error {
	return func(x *Ctx, v any) error {
		c := v.(*caseMount)
		b, vs, err := c.prepare(x)
		if err != nil {
			return err
		}
		before := treeSum(b.box)
		fs, err := b.mount(bin(x), false)
		if err != nil {
			return err
		}
		defer fs.kill()
		meta := must1(os.ReadFile(b.meta))
		errs := make(chan error, len(c.Clients))
		start := make(chan struct{})
		var wg sync.WaitGroup
		steps := 0
		for i := range c.Clients {
			steps += len(c.Clients[i])
			ops := c.Clients[i]
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						if e, ok := r.(*errInfra); ok {
							errs <- e
							return
						}
						panic(r)
					}
				}()
				ref := c.view(b, vs)
				defer ref.close()
				cl := newClient(fs, ref, meta)
				<-start
				// All meet at the same nodes.
				if n, err := cl.lookup(cl.nodes[0], "rescue"); err != nil {
					errs <- err
					return
				} else if err := cl.readdir(n, 4096, true); err != nil {
					errs <- err
					return
				}
				for _, op := range ops {
					if err := cl.do(op); err != nil {
						errs <- err
						return
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		select {
		case err := <-errs:
			return err
		default:
		}
		if err := fs.stop(); err != nil {
			return err
		}
		if r := races(fs.errw.String()); r != "" {
			return bad("data race: %s", head(r))
		}
		if d := diffTree(before, treeSum(b.box)); d != "" {
			return bad("files changed: %s", d)
		}
		x.LabelIf(len(c.Clients) > 4, "more than 4 clients")
		x.NonTrivialIf(len(c.Clients) > 1 && steps > 12)
		return nil
	}
}

func init() {
	register(&Sub{Name: "C07/tree", Quick: 4000, Thorough: 12000, NeedBin: true,
		Rule: "a generated filesystem (directories, hard links, symbolic links, special files, extended attributes, subvolumes, equal name hashes) is mounted with the real command, whose FUSE requests the harness plays; a generated order of lookups, negative lookups, readdir and readdirplus of any size, getattr, listxattr and getxattr of any size, readlink, reads and forgets, then a full sweep, every answer compared with the reference; non-trivial: more than 4 lookups, 2 directories and 3 generated steps",
		New:  func() any { return &caseMount{} }, Gen: genC07, Check: checkMount})
	register(&Sub{Name: "C08/read", Quick: 4000, Thorough: 12000, NeedBin: true,
		Rule: "files of inline, regular, preallocated and hole extents, gaps, tails, sizes up to 1 TiB; reads of any offset and length, biased to where extents begin and end, with and without a device, then all files from start to end, compared with the bytes of the reference; non-trivial: more than 5 reads, at least one across an extent boundary",
		New:  func() any { return &caseMount{} }, Gen: genC08, Check: checkMount})
	register(&Sub{Name: "C09/mutate", Quick: 3000, Thorough: 12000, NeedBin: true,
		Rule: "every kind of changing request on every kind of node with generated names, flags and data must fail; a full sweep of the view, and checksums of metadata file, image and directory, show no change afterwards; the command runs as the owner of these files; non-trivial: more than 4 requests on more than 3 known nodes",
		New:  func() any { return &caseMount{} }, Gen: genC09, Check: checkC09})
	register(&Sub{Name: "C21/mount", Quick: 2000, Thorough: 8000, NeedBin: true,
		Rule: "as C07 and C08, with older copies of items; non-trivial: older copies and more than 3 lookups",
		New:  func() any { return &caseMount{} }, Gen: genC21mount, Check: checkMount})
	register(&Sub{Name: "C22/race", Quick: 240, Thorough: 6000, NeedBin: true, NeedRace: true,
		Rule: "2 to 8 clients walk the same mounted view at the same time, each comparing its answers with the reference; the command is built with the race detector, whose reports on btrfscue's code count; non-trivial: at least 2 clients and 13 steps",
		New:  func() any { return &caseMount{} }, Gen: genC22, Check: checkC22(func(x *Ctx) string { return x.RaceBin })})
	register(&Sub{Name: "C22/plain", Quick: 2000, Thorough: 6000, NeedBin: true,
		Rule: "as C22/race with the ordinary build, at full speed",
		New:  func() any { return &caseMount{} }, Gen: genC22, Check: checkC22(func(x *Ctx) string { return x.Bin })})
}

var _ = bytes.Equal
var _ = filepath.Base
