package main

// C32: deleted and overwritten things in a filesystem with a history. A model
// of a copy-on-write filesystem carries out operations in transactions; every
// transaction writes the leaves it changes to new places and leaves the old
// ones behind.

import (
	"fmt"
	"os"
	"path"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

type hOp struct {
	Kind    uint8
	A, B, C int    // what it works on, modulo what there is
	Name    int    // index of a name
	Seed    U64    // contents
	Len     uint16 // sizes
}

// Kinds of hOp.
const (
	hCommit = iota
	hCreate
	hMkdir
	hSymlink
	hUnlink
	hRemoveAll
	hRename
	hOverwrite
	hTruncate
	hAppend
	hLink
	hChmod
	hXattr
	hDropSub
	hWrite // within a file, or beyond its end
	hPunch
	hClone
	hBalance // a chunk is moved, or removed if nothing is on it
	hRemount // inode numbers are given out again from the highest existing one on
)

type caseHist struct {
	BS, FS   int
	Cap      int // items per leaf
	Ops      []hOp
	GenStep  int
	Lay      U64
	Super    int
	Sub      bool
	Reuse    int // percentage of stale leaves that have been overwritten
	DirMoves bool
	Mount    bool
}

// hNames are the names files may get; the first two have the same hash.
var hNames = func() []string {
	return []string{"report.txt", collide("report.txt", 3), "a", "photo 1.jpg", "notes", "übung", strings.Repeat("long", 50), "x.tmp", "b"}
}()

func genHist(t *rapid.T) any {
	c := &caseHist{BS: pick(t, "bs", 4096, 16384, 8192), FS: rapid.IntRange(1, 50).Draw(t, "fs"), Cap: rapid.IntRange(2, 14).Draw(t, "cap")}
	c.GenStep = pick(t, "genstep", 1, 1, 2, 1000)
	c.Lay = U64(rapid.Uint64Range(1, 1<<20).Draw(t, "lay"))
	c.Super = rapid.IntRange(0, 3).Draw(t, "super")
	c.Sub = rapid.IntRange(0, 2).Draw(t, "sub") == 0
	c.DirMoves = rapid.IntRange(0, 3).Draw(t, "dirmoves") == 0
	c.Mount = rapid.IntRange(0, 3).Draw(t, "mount") == 0
	if rapid.IntRange(0, 2).Draw(t, "reuse?") == 0 {
		c.Reuse = rapid.IntRange(1, 100).Draw(t, "reuse")
	}
	n := rapid.IntRange(3, 60).Draw(t, "n")
	few := rapid.IntRange(0, 2).Draw(t, "few") == 1 // files that change often
	moves := rapid.IntRange(0, 4).Draw(t, "moves") == 2
	for i := 0; i < n; i++ {
		o := hOp{Kind: pick(t, "kind", uint8(hCommit), hCommit, hCreate, hCreate, hCreate, hMkdir, hSymlink, hUnlink, hUnlink, hRemoveAll, hRename, hOverwrite, hOverwrite,
			hTruncate, hAppend, hWrite, hWrite, hWrite, hPunch, hClone, hLink, hChmod, hXattr)}
		if few && i < 3 {
			o.Kind = hCreate
		} else if few {
			o.Kind = pick(t, "change", uint8(hCommit), hCommit, hWrite, hWrite, hWrite, hOverwrite, hTruncate, hAppend, hPunch, hClone, hUnlink)
		}
		if moves && i >= 3 && !few {
			o.Kind = pick(t, "moving", uint8(hCommit), hCreate, hCreate, hUnlink, hOverwrite, hBalance, hBalance)
		}
		if rapid.IntRange(0, 40).Draw(t, "drop") == 17 {
			o.Kind = hDropSub
		}
		if r := rapid.IntRange(0, 25).Draw(t, "balance"); r >= 14 && r <= 16 {
			o.Kind = hBalance
		}
		if r := rapid.IntRange(0, 25).Draw(t, "remount"); r >= 11 && r <= 13 {
			o.Kind = hRemount
		}
		o.A, o.B, o.C = rapid.IntRange(0, 30).Draw(t, "a"), rapid.IntRange(0, 30).Draw(t, "b"), rapid.IntRange(0, 7).Draw(t, "c")
		o.Name = rapid.IntRange(0, len(hNames)-1).Draw(t, "name")
		o.Seed = U64(rapid.Uint64Range(1, 1<<30).Draw(t, "seed"))
		o.Len = rapid.Uint16().Draw(t, "len")
		c.Ops = append(c.Ops, o)
	}
	return c
}

type hEntry struct {
	dir  uint64
	name string
	seq  uint64
}

type hNode struct {
	ino    uint64
	typ    uint8
	inode  Inode
	links  []hEntry
	inline []byte
	exts   []hExt
	cut    bool // truncated within its last block
	target string
	xattrs map[string]string
}

// hExt is an extent of a file, in blocks.
type hExt struct {
	at, n int
	blob  int // hHole, hPrealloc
	skip  int // within the blob
}

const (
	hHole     = -1
	hPrealloc = -2
)

type hTree struct {
	owner  uint64
	nodes  map[uint64]*hNode
	ino    uint64
	had    map[uint64]uint8 // the types inodes had so far
	seq    uint64
	leaves []hLeaf
	gone   bool
}

type hLeaf struct {
	first Key
	block int
}

type hBlock struct {
	owner, gen uint64
	vers       []Ver
	live       bool
}

// hState is what a file held.
type hState struct {
	Content
	blobs []int
}

// hChunk is a chunk of the world with the same index.
type hChunk struct {
	used uint64
	live bool
}

type history struct {
	c       *caseHist
	w       *World
	trees   []*hTree
	root    *hTree // the tree of roots, with items of its own
	gen     uint64
	blocks  []hBlock
	last    map[string]Ver     // the last version of every key
	states  map[dirKey]*hState // the last committed one of each file
	chunks  *hTree
	alloc   []hChunk
	moved   int
	dirMove bool
	deleted int
	changed int
	// Inode numbers that were given out again, and whether for something of
	// another type.
	reused map[dirKey]bool
	retype bool
}

func newHistory(c *caseHist) *history {
	h := &history{c: c, gen: baseGen, last: map[string]Ver{}, states: map[dirKey]*hState{}, reused: map[dirKey]bool{}}
	h.w = &World{FS: c.FS, BS: c.BS, Lay: c.Lay, Super: c.Super, Decoys: int(c.Lay % 4)}
	h.root, h.chunks = &hTree{owner: oRoot}, &hTree{owner: oChunk}
	h.newChunk(4)
	h.newChunk(1)
	h.trees = []*hTree{newTree(oFS)}
	if c.Sub {
		h.trees = append(h.trees, newTree(256))
	}
	h.commit()
	return h
}

func newTree(owner uint64) *hTree {
	t := &hTree{owner: owner, nodes: map[uint64]*hNode{}, had: map[uint64]uint8{}, ino: firstFree, seq: 2}
	t.nodes[firstFree] = &hNode{ino: firstFree, typ: ftDir, inode: Inode{Gen: 3, Nlink: 1, Mode: 0o40755}}
	return t
}

// lookup finds a directory entry.
func (t *hTree) lookup(dir uint64, name string) *hNode {
	for _, n := range t.nodes {
		for _, l := range n.links {
			if l.dir == dir && l.name == name {
				return n
			}
		}
	}
	return nil
}

func (t *hTree) list(typ func(*hNode) bool) (out []*hNode) {
	for _, n := range t.nodes {
		if typ(n) {
			out = append(out, n)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ino < out[j].ino })
	return
}

func isDirNode(n *hNode) bool  { return n.typ == ftDir }
func isFileNode(n *hNode) bool { return n.typ == ftReg }
func notDirNode(n *hNode) bool { return n.typ != ftDir }

func (t *hTree) link(n *hNode, dir uint64, name string) {
	t.seq++
	n.links = append(n.links, hEntry{dir, name, t.seq})
	n.inode.Nlink = uint32(len(n.links))
	t.touch(dir, len(name)*2)
}

func (t *hTree) touch(dir uint64, grow int) {
	d := t.nodes[dir]
	d.inode.Size = U64(max(0, int(d.inode.Size)+grow))
	d.inode.Mtime.Sec++
	d.inode.Ctime.Sec++
}

func (t *hTree) unlink(n *hNode, i int) {
	l := n.links[i]
	n.links = append(append([]hEntry{}, n.links[:i]...), n.links[i+1:]...)
	n.inode.Nlink = uint32(len(n.links))
	t.touch(l.dir, -2*len(l.name))
	if len(n.links) == 0 {
		delete(t.nodes, n.ino)
	}
}

// hSlot is the size of the places for chunks.
const hSlot = 6 << 20

// newChunk adds a chunk to the end of the address space, at a free place.
func (h *history) newChunk(sel int) bool {
	taken, end := map[uint64]bool{}, uint64(13631488)
	for i, c := range h.w.Chunks {
		if h.alloc[i].live {
			taken[uint64(c.Phys)] = true
			end = max(end, uint64(c.Logical+c.Len))
		}
	}
	for i := 0; i < 8; i++ {
		phys := uint64(dataStart + (sel+i)%8*hSlot)
		if !taken[phys] {
			n := uint64(hSlot)
			if len(h.alloc) > 1 && sel%3 == 1 {
				n /= 2
			}
			h.w.Chunks = append(h.w.Chunks, WChunk{U64(end), U64(n), U64(phys)})
			h.alloc = append(h.alloc, hChunk{live: true})
			return true
		}
	}
	return false
}

// blob allocates blocks on disk.
func (h *history) blob(seed U64, blocks int) (int, bool) {
	n := uint64(blocks) * sector
	for k, max := 0, len(h.alloc); k <= max; k++ {
		i := (k + int(seed>>2%5)) % max
		if k == max {
			if i = max; !h.newChunk(int(seed % 8)) {
				break
			}
		}
		if a := &h.alloc[i]; a.live && a.used+n <= uint64(h.w.Chunks[i].Len) {
			h.w.Blobs = append(h.w.Blobs, Blob{i, U64(a.used), U64(n), seed})
			a.used += n
			return len(h.w.Blobs) - 1, true
		}
	}
	return 0, false
}

// balance moves what is on a chunk elsewhere, and removes it.
func (h *history) balance(o hOp) {
	var can []int
	for i, a := range h.alloc {
		if a.live {
			can = append(can, i)
		}
	}
	h.commit()
	if (o.Name%2 == 0 || len(can) < 2) && h.newChunk(o.B) {
		h.commit()
	}
	// Mostly the last ones, so that addresses are used again.
	ci := can[len(can)-1-o.A%min(len(can), 1+o.C)]
	to := map[int]int{}
	for _, t := range h.trees {
		if t.gone {
			continue
		}
		for _, n := range t.list(isFileNode) {
			for i, e := range n.exts {
				if e.blob < 0 || h.w.Blobs[e.blob].Chunk != ci {
					continue
				}
				if _, ok := to[e.blob]; !ok {
					h.alloc[ci].used = uint64(h.w.Chunks[ci].Len) // nothing new goes there
					b := h.w.Blobs[e.blob]
					k, ok := h.blob(b.Seed, int(b.Len/sector))
					if !ok {
						return
					}
					to[e.blob] = k
					h.moved++
				}
				n.exts[i].blob = to[e.blob]
			}
		}
	}
	h.alloc[ci].live = false
	h.commit()
}

// dead tells which blobs cannot be found any more: something else has their
// place or their addresses.
func (h *history) dead() map[int]bool {
	out := map[int]bool{}
	for i, b := range h.w.Blobs {
		c := h.w.Chunks[b.Chunk]
		for _, o := range h.w.Blobs[i+1:] {
			d := h.w.Chunks[o.Chunk]
			if d.Phys+o.Off < c.Phys+b.Off+b.Len && c.Phys+b.Off < d.Phys+o.Off+o.Len {
				out[i] = true
			}
		}
		for _, d := range h.w.Chunks[b.Chunk+1:] {
			if d.Logical < c.Logical+b.Off+b.Len && c.Logical+b.Off < d.Logical+d.Len {
				out[i] = true
			}
		}
	}
	return out
}

func (h *history) chunkItems() map[Key][]byte {
	m := map[Key][]byte{}
	for i, c := range h.w.Chunks {
		if h.alloc[i].live {
			m[Key{firstFree, tChunk, c.Logical}] = encChunk(ChunkRec{c.Len, 1, []Stripe{{1, c.Phys}}})
		}
	}
	return m
}

func (n *hNode) blocks() int { return int((n.inode.Size + sector - 1) / sector) }

// put makes room for an extent, and puts it there. What it covers only a part
// of gets trimmed or split.
func (n *hNode) put(e hExt) {
	if e.n == 0 {
		return
	}
	var out []hExt
	for _, o := range n.exts {
		if left := min(o.at+o.n, e.at) - o.at; left > 0 {
			out = append(out, hExt{o.at, left, o.blob, o.skip})
		}
		if right := o.at + o.n - max(o.at, e.at+e.n); right > 0 {
			out = append(out, hExt{o.at + o.n - right, right, o.blob, o.skip + o.n - right})
		}
	}
	n.exts = append(out, e)
	sort.Slice(n.exts, func(i, j int) bool { return n.exts[i].at < n.exts[j].at })
}

// data puts new contents on disk for some blocks of a file, in one or several
// extents.
func (h *history) data(n *hNode, at, blocks int, seed U64) {
	for blocks > 0 {
		k := min(blocks, 1+int(seed>>3%4))
		b, ok := h.blob(seed, k)
		if !ok {
			b = hHole
		}
		n.put(hExt{at, k, b, 0})
		at, blocks, seed = at+k, blocks-k, seed*31+7
	}
}

// grow prepares a file for something at block at: contents in its item and the
// last, incomplete block are written anew, and there is a hole up to at.
func (h *history) grow(n *hNode, at int, seed U64) {
	end := n.blocks()
	if n.inline != nil {
		n.inline = nil
		h.data(n, 0, 1, seed+77)
	} else if n.inode.Size%sector != 0 && (at >= end || n.cut) {
		h.data(n, end-1, 1, seed+99)
	}
	n.cut = false
	if at > end {
		n.put(hExt{end, at - end, hHole, 0})
	}
}

// fill gives a file new contents.
func (h *history) fill(n *hNode, o hOp) {
	n.inline, n.exts, n.inode.Size = nil, nil, 0
	switch o.C % 4 {
	case 0: // empty
	case 1:
		n.inline = patternBytes(uint64(o.Seed), 0, 1+uint64(o.Len)%2000)
		n.inode.Size = U64(len(n.inline))
	default:
		h.extend(n, o)
	}
	n.inode.Mtime.Sec++
}

func (h *history) extend(n *hNode, o hOp) {
	at := n.blocks()
	h.grow(n, at, o.Seed)
	for i := 0; i <= o.C/2; i++ {
		k := 1 + int(o.Seed>>(2*i)%5)
		switch (uint64(o.Seed) >> i) % 7 {
		case 0:
			n.put(hExt{at, k, hHole, 0})
		case 1:
			n.put(hExt{at, k, hPrealloc, 0})
		default:
			h.data(n, at, k, o.Seed+U64(i))
		}
		at += k
	}
	n.inode.Size = U64(uint64(at)*sector - uint64(o.Len)%sector)
}

// write changes a part of a file.
func (h *history) write(n *hNode, o hOp, src *hNode) {
	at, k := int(o.Seed>>7%U64(n.blocks()+3)), 1+o.C
	if o.Kind == hPunch && at+k > n.blocks() {
		k = n.blocks() - at
	}
	if k <= 0 {
		return
	}
	h.grow(n, at, o.Seed)
	end := at + k
	switch {
	case o.Kind == hPunch:
		n.put(hExt{at, k, hHole, 0})
	case o.Kind == hClone && len(src.exts) > 0:
		e := src.exts[int(o.Seed%U64(len(src.exts)))]
		e.skip += e.n / 3
		e.n -= e.n / 3
		e.at, end = at, at+e.n
		n.put(e)
	default:
		h.data(n, at, k, o.Seed)
	}
	if end >= n.blocks() {
		n.inode.Size = U64(max(uint64(end)*sector-uint64(o.Len)%sector, uint64(n.inode.Size)))
	}
	n.inode.Mtime.Sec++
}

func (h *history) truncate(n *hNode, o hOp) {
	if n.inline != nil {
		n.inline = n.inline[:int(o.Len)%(len(n.inline)+1)]
		n.inode.Size = U64(len(n.inline))
		if len(n.inline) == 0 {
			n.inline = nil
		}
		return
	}
	size := uint64(o.Len) << 2 % uint64(n.inode.Size+1)
	if o.C == 7 {
		// Make it longer.
		size = uint64(n.inode.Size) + uint64(o.Len)
		h.grow(n, int((size+sector-1)/sector), o.Seed)
	}
	n.inode.Size = U64(size)
	n.cut = true
	end := n.blocks()
	var out []hExt
	for _, e := range n.exts {
		if e.n = min(e.n, end-e.at); e.n > 0 {
			out = append(out, e)
		}
	}
	n.exts = out
}

func (t *hTree) removeAll(n *hNode) {
	if n.typ == ftDir {
		for _, k := range t.list(func(m *hNode) bool { return true }) {
			for i := len(k.links) - 1; i >= 0; i-- {
				if t.nodes[k.ino] != nil && k.links[i].dir == n.ino {
					if k.typ == ftDir {
						t.removeAll(k)
						break
					}
					t.unlink(k, i)
				}
			}
		}
	}
	for i := len(n.links) - 1; i >= 0; i-- {
		t.unlink(n, i)
	}
}

// above tells whether directory a is d or contains it.
func (t *hTree) above(a, d uint64) bool {
	for ; d != firstFree; d = t.nodes[d].links[0].dir {
		if d == a {
			return true
		}
	}
	return a == firstFree
}

func (h *history) apply(o hOp) {
	if o.Kind == hCommit {
		h.commit()
		return
	}
	t := h.trees[o.B%len(h.trees)]
	if t.gone {
		t = h.trees[0]
	}
	dirs := t.list(isDirNode)
	dir := dirs[o.A%len(dirs)]
	name := hNames[o.Name]
	at := func(list []*hNode) *hNode {
		if len(list) == 0 {
			return nil
		}
		return list[o.A%len(list)]
	}
	create := func(typ uint8, mode uint32) *hNode {
		if old := t.lookup(dir.ino, name); old != nil {
			return nil
		}
		t.ino++
		n := &hNode{ino: t.ino, typ: typ, inode: Inode{Gen: U64(h.gen), TransID: U64(h.gen), Mode: mode, Mtime: Time{int64(o.Len) << 12, 5}, Ctime: Time{int64(o.Len) << 13, 6}}}
		if was, ok := t.had[n.ino]; ok {
			h.reused[dirKey{t.owner, n.ino}] = true
			h.retype = h.retype || was != typ
			h.dirMove = h.dirMove || was == ftDir && typ == ftDir // two names, one directory
		}
		t.had[n.ino] = typ
		t.nodes[n.ino] = n
		t.link(n, dir.ino, name)
		return n
	}
	switch o.Kind {
	case hCreate:
		if n := create(ftReg, 0o100644); n != nil {
			h.fill(n, o)
		}
	case hMkdir:
		create(ftDir, 0o40755)
	case hSymlink:
		if n := create(ftLink, 0o120777); n != nil {
			n.target = fmt.Sprintf("../%s/%d", hNames[o.C%len(hNames)], o.Len)
			n.inode.Size = U64(len(n.target))
		}
	case hUnlink:
		if n := at(t.list(notDirNode)); n != nil {
			t.unlink(n, o.C%len(n.links))
			h.deleted++
		}
	case hRemoveAll:
		if dir.ino != firstFree {
			t.removeAll(dir)
			h.deleted++
		}
	case hRename:
		n := at(t.list(func(n *hNode) bool { return n.ino != firstFree && (h.c.DirMoves || n.typ != ftDir) }))
		if n == nil {
			return
		}
		to := dirs[o.C%len(dirs)]
		if n.typ == ftDir && t.above(n.ino, to.ino) {
			return
		}
		if old := t.lookup(to.ino, name); old != nil {
			if old == n || old.typ == ftDir || n.typ == ftDir {
				return
			}
			for i, l := range old.links {
				if l.dir == to.ino && l.name == name {
					t.unlink(old, i)
					break
				}
			}
		}
		h.dirMove = h.dirMove || n.typ == ftDir
		i := int(o.Seed % U64(len(n.links)))
		t.link(n, to.ino, name)
		t.unlink(n, i)
	case hOverwrite, hTruncate, hAppend, hWrite, hPunch, hClone:
		n := at(t.list(isFileNode))
		if n == nil {
			return
		}
		h.changed++
		switch o.Kind {
		case hOverwrite:
			h.fill(n, o)
		case hAppend:
			h.extend(n, o)
		case hTruncate:
			h.truncate(n, o)
		default:
			files := t.list(isFileNode)
			h.write(n, o, files[int(o.Len)%len(files)])
		}
	case hLink:
		if n := at(t.list(isFileNode)); n != nil {
			if d := dirs[o.C%len(dirs)]; t.lookup(d.ino, name) == nil && len(n.links) < 4 {
				t.link(n, d.ino, name)
			}
		}
	case hChmod:
		n := at(t.list(func(*hNode) bool { return true }))
		n.inode.Mode = n.inode.Mode&^0o777 | uint32(o.Len)&0o777
		n.inode.UID, n.inode.GID = uint32(o.C), uint32(o.Seed)
		n.inode.Ctime = Time{int64(o.Seed), uint32(o.Len)}
	case hXattr:
		n := at(t.list(func(*hNode) bool { return true }))
		k := fmt.Sprintf("user.%d", o.C%3)
		if n.xattrs == nil {
			n.xattrs = map[string]string{}
		}
		if o.Len%4 == 0 {
			delete(n.xattrs, k)
		} else {
			n.xattrs[k] = string(patternBytes(uint64(o.Seed), 0, uint64(o.Len)%100))
		}
	case hBalance:
		h.balance(o)
	case hRemount:
		h.commit()
		t.ino = firstFree
		for i := range t.nodes {
			t.ino = max(t.ino, i)
		}
	case hDropSub:
		if len(h.trees) > 1 && !h.trees[1].gone {
			h.trees[1].gone = true
			h.deleted++
		}
	}
}

// items are the current items of a file tree.
func (h *history) items(t *hTree) map[Key][]byte {
	m := map[Key][]byte{}
	ents := map[Key][]DirEnt{}
	put := func(id uint64, ty uint8, off uint64, d []byte) { m[Key{U64(id), ty, U64(off)}] = d }
	nodes := t.list(func(*hNode) bool { return true })
	var all []struct {
		e hEntry
		d DirEnt
	}
	for _, n := range nodes {
		put(n.ino, tInodeItem, 0, encInode(n.inode))
		refs := map[uint64][]byte{}
		for _, l := range n.links {
			e := DirEnt{Loc: Key{U64(n.ino), tInodeItem, 0}, TransID: 9, Type: n.typ, Name: Bytes(l.name)}
			all = append(all, struct {
				e hEntry
				d DirEnt
			}{l, e})
			refs[l.dir] = append(refs[l.dir], encInodeRef(l.seq, l.name)...)
		}
		for d, b := range refs {
			put(n.ino, tInodeRef, d, b)
		}
		for k, v := range n.xattrs {
			put(n.ino, tXAttr, uint64(nameHash(k)), encDirEnts(DirEnt{TransID: 9, Type: ftXattr, Name: Bytes(k), Data: Bytes(v)}))
		}
		switch {
		case n.typ == ftLink:
			put(n.ino, tExtentData, 0, encExt(Ext{Gen: 5, RAM: U64(len(n.target)), Inline: []byte(n.target)}))
		case n.inline != nil:
			put(n.ino, tExtentData, 0, encExt(Ext{Gen: 5, RAM: U64(len(n.inline)), Inline: n.inline}))
		}
		for _, x := range n.exts {
			ln := U64(x.n) * sector
			e := Ext{Gen: 5, RAM: ln, Type: 1, Num: ln}
			if x.blob == hPrealloc {
				// Preallocated space lies on old data.
				e.Type = 2
				e.DiskByte, e.DiskNum = U64(h.w.Chunks[0].Logical), ln
			} else if x.blob >= 0 {
				b := h.w.Blobs[x.blob]
				e.RAM, e.DiskByte, e.DiskNum, e.Off = b.Len, U64(h.w.logical(b)), b.Len, U64(x.skip)*sector
			}
			put(n.ino, tExtentData, uint64(x.at)*sector, encExt(e))
		}
	}
	if t.owner == oFS && len(h.trees) > 1 && !h.trees[1].gone {
		all = append(all, struct {
			e hEntry
			d DirEnt
		}{hEntry{firstFree, "subvolume", 2}, DirEnt{Loc: Key{256, tRootItem, U64(maxU)}, TransID: 8, Type: ftDir, Name: "subvolume"}})
	}
	sort.Slice(all, func(i, j int) bool { return all[i].e.seq < all[j].e.seq })
	for _, l := range all {
		put(l.e.dir, tDirIndex, l.e.seq, encDirEnts(l.d))
		k := Key{U64(l.e.dir), tDirItem, U64(nameHash(l.e.name))}
		ents[k] = append(ents[k], l.d)
	}
	for k, es := range ents {
		m[k] = encDirEnts(es...)
	}
	return m
}

func (h *history) rootItems() map[Key][]byte {
	m := map[Key][]byte{{oFS, tRootItem, 0}: encRootItem(h.gen, firstFree)}
	if len(h.trees) > 1 && !h.trees[1].gone {
		m[Key{256, tRootItem, 0}] = encRootItem(h.gen, firstFree)
		m[Key{oFS, tRootRef, 256}] = encRootRef(firstFree, 2, "subvolume")
		m[Key{256, tRootBackRef, oFS}] = encRootRef(firstFree, 2, "subvolume")
	}
	return m
}

// diskLess is the order of keys in a tree.
func diskLess(a, b Key) bool {
	if a.ID != b.ID {
		return a.ID < b.ID
	}
	if a.Type != b.Type {
		return a.Type < b.Type
	}
	return a.Off < b.Off
}

// flush brings the leaves of a tree in line with its items.
func (h *history) flush(t *hTree, m map[Key][]byte) {
	var keys []Key
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return diskLess(keys[i], keys[j]) })
	old := t.leaves
	if len(old) == 0 {
		old = []hLeaf{{block: -1}}
	}
	t.leaves = nil
	for i, l := range old {
		var own []Key
		for len(keys) > 0 && (i+1 == len(old) || diskLess(keys[0], old[i+1].first)) {
			own, keys = append(own, keys[0]), keys[1:]
		}
		if l.block >= 0 {
			b := &h.blocks[l.block]
			same := len(own) == len(b.vers)
			for j := range own {
				same = same && b.vers[j].Key == own[j] && string(b.vers[j].Data) == string(m[own[j]])
			}
			if same {
				t.leaves = append(t.leaves, l)
				continue
			}
			b.live = false
		}
		for len(own) > 0 {
			room, n := h.c.BS-hdrLen, 0
			for n < len(own) && n < h.c.Cap && itemLen+len(m[own[n]]) <= room {
				room -= itemLen + len(m[own[n]])
				n++
			}
			nb := hBlock{owner: t.owner, gen: h.gen, live: true}
			for _, k := range own[:n] {
				v := Ver{t.owner, k, h.gen, m[k]}
				nb.vers = append(nb.vers, v)
				h.last[rawKey(Ver{Owner: v.Owner, Key: v.Key})] = v
			}
			t.leaves = append(t.leaves, hLeaf{own[0], len(h.blocks)})
			h.blocks = append(h.blocks, nb)
			own = own[n:]
		}
	}
}

func (h *history) commit() {
	for _, t := range h.trees {
		if t.gone {
			for _, l := range t.leaves {
				h.blocks[l.block].live = false
			}
			t.leaves = nil
			continue
		}
		h.flush(t, h.items(t))
		for _, n := range t.list(isFileNode) {
			st := &hState{Content: h.content(n)}
			for _, e := range n.exts {
				if e.blob >= 0 {
					st.blobs = append(st.blobs, e.blob)
				}
			}
			h.states[dirKey{t.owner, n.ino}] = st
		}
	}
	h.flush(h.root, h.rootItems())
	h.flush(h.chunks, h.chunkItems())
	h.gen += uint64(h.c.GenStep)
}

// live describes the tree as it is now: path -> file.
func (h *history) live() map[string]*hNode {
	out := map[string]*hNode{}
	for i, t := range h.trees {
		if t.gone {
			continue
		}
		at := "/"
		if i > 0 {
			at = "/subvolume"
		}
		var rec func(dir uint64, p string)
		rec = func(dir uint64, p string) {
			for _, n := range t.list(func(*hNode) bool { return true }) {
				for _, l := range n.links {
					if l.dir == dir {
						q := path.Join(p, l.name)
						out[q] = n
						if n.typ == ftDir {
							rec(n.ino, q)
						}
					}
				}
			}
		}
		rec(firstFree, at)
	}
	return out
}

// content is what the file holds according to the model.
func (h *history) content(n *hNode) (c Content) {
	c.Size = uint64(n.inode.Size)
	if n.inline != nil {
		c.Segs = []Seg{{0, n.inline}}
	}
	for _, e := range n.exts {
		if off := uint64(e.at) * sector; e.blob >= 0 && off < c.Size {
			c.Segs = append(c.Segs, Seg{off, patternBytes(uint64(h.w.Blobs[e.blob].Seed), uint64(e.skip)*sector, min(uint64(e.n)*sector, c.Size-off))})
		}
	}
	return
}

func checkHist(x *Ctx, v any) error {
	c := v.(*caseHist)
	h := newHistory(c)
	for _, o := range c.Ops {
		h.apply(o)
	}
	h.commit()
	// The image: current leaves, old leaves as far as they have
	// not been overwritten.
	r := splitmix(c.Lay)
	var vs []Ver
	var blocks []Block
	stale, lost := 0, 0
	for i := range h.blocks {
		b := &h.blocks[i]
		if !b.live {
			if b.owner != oChunk && r.intn(100) < c.Reuse {
				lost++
				continue
			}
			stale++
		}
		gap := 0
		if r.intn(3) == 0 {
			gap = r.intn(50)
		}
		blocks = append(blocks, Block{Data: encLeaf(c.BS, h.w.fsid(), b.owner, b.gen, r.next(), b.vers, gap), Vers: b.vers})
		vs = append(vs, b.vers...)
	}
	for i := 0; i < h.w.Decoys; i++ {
		blocks = append(blocks, decoy(vs, h.w, &r))
	}
	im := &Image{W: h.w, Size: max(minDevSize(uint64(c.BS)), dataStart+6*8<<20)}
	place(blocks, uint64(c.BS), dataStart, im.Size, &r, false)
	im.Blocks = blocks
	box := newRecBox(x)
	box.img, box.meta = box.box+"/disk.img", box.box+"/meta.db"
	im.write(box.img)
	if err := box.recon(h.w); err != nil {
		return err
	}
	box.own(box.img)
	box.own(box.meta)
	// The reference is what each key was last, or, after losses, the newest
	// version that is left.
	ref := vs
	if lost == 0 {
		ref = nil
		for _, l := range h.last {
			ref = append(ref, l)
		}
	}
	view := newView(ref, box.img)
	defer view.close()
	arg, real := box.destination(0)
	tc := newTreeCheck(view, real)
	tc.other = h.reused
	res, err := box.recover(arg, false)
	if err == nil && res.Code != 0 {
		err = bad("recover failed with status %d: %s", res.Code, head(res.Err))
	}
	if err != nil {
		return err
	}
	if err := tc.check(); err != nil {
		return bad("%v\n%s", err, head(res.Err))
	}
	// Files have the last contents they had.
	overwritten := 0
	if lost == 0 {
		dead := h.dead()
	files:
		for _, n := range view.tree() {
			if n.E.Type != ftReg || h.reused[dirKey{n.Owner, uint64(n.E.Loc.ID)}] {
				continue
			}
			st := h.states[dirKey{n.Owner, uint64(n.E.Loc.ID)}]
			if st == nil {
				return infra("file %q is not from the model", n.Rel)
			}
			for _, b := range st.blobs {
				if dead[b] {
					overwritten++
					continue files
				}
			}
			if err := st.sameContent(real + n.Rel); err != nil {
				return bad("%q, as it was last: %v", n.Rel, err)
			}
		}
	}
	// Whatever exists now is there.
	live := h.live()
	if !h.dirMove {
		var ps []string
		for p := range live {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			n := live[p]
			switch n.typ {
			case ftReg:
				if err := h.content(n).sameContent(real + p); err != nil {
					return bad("the file exists: %v", err)
				}
			case ftLink:
				if got, err := os.Readlink(real + p); err != nil || got != n.target {
					return bad("the symbolic link %q exists: got %q (%v), want %q", p, got, err, n.target)
				}
			case ftDir:
				if st, err := os.Lstat(real + p); err != nil || !st.IsDir() {
					return bad("the directory %q exists: %v", p, err)
				}
			}
		}
		// ls shows the same.
		r, err := x.ok(runOpt{}, "ls", "--metadata", box.meta, "--recursive")
		if err != nil {
			return err
		}
		want := view.lsTree(oFS, firstFree, true, false)
		got := lines(r.Out)
		if len(got) != len(want) {
			return bad("ls prints %d lines, want %d:\n%s", len(got), len(want), head(string(r.Out)))
		}
		for i := range want {
			if !want[i].match(got[i]) {
				return bad("ls, line %d: %q, want %q %q", i+1, got[i], want[i].head+want[i].re, want[i].name)
			}
		}
	}
	if c.Mount && !h.retype { // the view of an entry with an inode of another type is left open
		fs, err := box.mount(x.Bin, false)
		if err != nil {
			return err
		}
		defer fs.kill()
		cl := newClient(fs, view, must1(os.ReadFile(box.meta)))
		if err := cl.sweep(true); err != nil {
			return err
		}
		if err := fs.stop(); err != nil {
			return err
		}
		x.Label("mounted")
	}
	dead := tc.files + tc.links - len(live)
	for _, n := range live {
		if n.typ == ftDir {
			dead++
		}
	}
	x.LabelIf(lost > 0, "old leaves overwritten")
	x.LabelIf(h.dirMove, "directories moved")
	x.LabelIf(h.moved > 0, "data moved to another chunk")
	x.LabelIf(len(h.alloc) > 2, "more than 2 chunks")
	again := false
	for i, a := range h.w.Chunks {
		for _, b := range h.w.Chunks[i+1:] {
			again = again || b.Logical < a.Logical+a.Len && a.Logical < b.Logical+b.Len
		}
	}
	x.LabelIf(again, "addresses given out again")
	x.LabelIf(len(h.dead()) > 0, "data overwritten")
	x.LabelIf(overwritten > 0, "data of former states overwritten")
	x.LabelIf(len(h.reused) > 0, "inode numbers used again")
	x.LabelIf(h.retype, "inode numbers used again for another type")
	x.LabelIf(len(h.trees) > 1, "subvolume")
	x.LabelIf(len(h.trees) > 1 && h.trees[1].gone, "deleted subvolume")
	x.LabelIf(view.overlaps(), "extents of several states")
	x.LabelIf(dead > 0, "deleted or former names shown")
	x.LabelIf(h.changed > 0, "files changed")
	x.LabelIf(stale > 10, "more than 10 old leaves")
	x.NonTrivialIf(stale > 2 && h.deleted+h.changed > 0 && tc.files > 0)
	return nil
}

func init() {
	register(&Sub{Name: "C32/history", Quick: 900, Thorough: 8000, NeedBin: true,
		Rule: "up to 60 operations (create, delete, rename, overwrite, write within, punch, clone, truncate, append, link, chmod ...) in transactions of a copy-on-write filesystem model that leaves old leaves behind; recover, ls and sometimes the mounted view are compared with the last state of everything, and with what exists now; non-trivial: old leaves, something deleted or changed, and a file",
		New:  func() any { return &caseHist{} }, Gen: genHist, Check: checkHist})
}
