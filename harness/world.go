package main

// Generated filesystems: a structured description (World) that is expanded to
// item versions and disk contents, written as a sparse image or straight into
// metadata, and interpreted by an independent reference (View).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"syscall"

	"pgregory.net/rapid"
)

const sector = 4096

// WChunk maps logical addresses to the device.
type WChunk struct {
	Logical, Len, Phys U64
}

// Blob is a piece of data on disk: pattern(Seed) at Off within a chunk.
type Blob struct {
	Chunk int
	Off   U64
	Len   U64
	Seed  U64
}

// Extent kinds of WExt.
const (
	xInline = iota
	xReg
	xPrealloc
	xHole
)

type WExt struct {
	At   U64
	Kind uint8
	Len  U64
	Blob int `json:",omitempty"`
	Off  U64 `json:",omitempty"` // within the blob
	Seed U64 `json:",omitempty"` // inline contents
}

type WXattr struct{ Name, Value Bytes }

// WLink is a directory entry: of directory node Dir.
type WLink struct {
	Dir  int
	Name Bytes
}

type WNode struct {
	Ino    U64
	Type   uint8 // ft*
	Links  []WLink
	Inode  Inode
	Exts   []WExt   `json:",omitempty"`
	Target Bytes    `json:",omitempty"`
	Xattrs []WXattr `json:",omitempty"`
}

// WSub is a subvolume; Nodes[0] is its root directory.
type WSub struct {
	ID      U64
	RootOff U64
	// In is the subvolume that contains its directory entry At, -1 for none.
	In    int
	At    WLink
	Nodes []WNode
	// More are further entries that lead here.
	More []WSubLink `json:",omitempty"`
}

type WSubLink struct {
	In int
	At WLink
}

// WStale adds an older version of an item.
type WStale struct {
	Item int // modulo the number of items
	Age  U64
	Mut  U64
}

// WOver adds an extent item that overlaps with others of a file.
type WOver struct {
	File, Base int
	Shift      int // blocks from the start of extent Base
	Age        int // 0: between the others, 1: older, 2: newer
	E          WExt
}

// WOldChunk is the record of a removed chunk whose addresses have since been
// given to others.
type WOldChunk struct {
	Chunk, Shift int // starts Shift sectors from the start of that one
	Len, Phys    U64
	Gen          int
}

// WFill puts many entries into a directory, or many directories into each
// other.
type WFill struct {
	Sub, Dir, N int
	Type        uint8 // ftReg, ftDir, ftLink
	Len         int   // of the names, at least
	Deep        bool  `json:",omitempty"` // N directories deep, entries of the type at the ends
}

// WFrag is a file in very many pieces.
type WFrag struct {
	Sub, N int
	Seed   U64
}

type World struct {
	FS     int
	BS     int
	Chunks []WChunk
	Blobs  []Blob
	Subs   []WSub
	Stale  []WStale    `json:",omitempty"`
	Over   []WOver     `json:",omitempty"`
	Fill   *WFill      `json:",omitempty"`
	Frag   *WFrag      `json:",omitempty"`
	Was    []WOldChunk `json:",omitempty"`
	// Gens, Lay: seeds of item generations and of leaf packing and placement;
	// 0 is the simplest choice.
	Gens, Lay U64
	Tail      int // bytes after the last whole block
	Decoys    int
	Super     int `json:",omitempty"`
}

// WOpt selects what a world may contain.
type WOpt struct {
	MaxNodes  int
	Subvols   int
	Special   bool
	Xattrs    bool
	Collide   bool
	Stale     bool
	Over      bool
	Fill      bool // large directories
	Big       bool // very sparse files
	PlainName bool // no control characters in names
	FarPhys   bool // chunks far beyond the end of a scannable image
	NoData    bool // no large data
	Links     bool // half of the entries are symbolic links
}

const baseGen = 1000

func genName(t *rapid.T, plain bool) string {
	switch rapid.IntRange(0, 11).Draw(t, "nameclass") {
	case 0, 1, 2, 3, 4:
		return rapid.StringMatching(`[a-d]{1,3}`).Draw(t, "name")
	case 5:
		return rapid.StringMatching(`[A-Za-z0-9._ -]{1,20}`).Draw(t, "name")
	case 6:
		return pick(t, "name", "...", " ", "-rf", ".hidden", "subvol_256", "subvol_257", "subvol_5", "rescue", "metadata", "a b", "%s%d", "~", "é", "日本")
	case 7:
		n := pick(t, "len", 255, 254, 128, 100)
		return strings.Repeat(pick(t, "rep", "x", "ab", "Z1."), n)[:n]
	case 8:
		b := rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(t, "name")
		for i, c := range b {
			if c == 0 || c == '/' || c == '\\' || plain && (c < 0x20 || c == 0x7f) {
				b[i] = 'q'
			}
		}
		return string(b)
	case 9:
		return rapid.StringMatching(`[a-c]\.(txt|dat)`).Draw(t, "name")
	}
	return rapid.StringMatching(`[a-z]{4,10}`).Draw(t, "name")
}

// collide returns a name with the hash of name that is different from it.
func collide(name string, n uint64) string {
	target := nameHash(name)
	rev := crcRevTable()
	for try := uint64(0); try < 4000; try++ {
		prefix := fmt.Sprintf("%c%d_", 'a'+byte(n%26), n/26*4000+try)
		cur := nameHash(prefix)
		// Find the four table indexes backwards from the target register.
		var idx [4]byte
		reg := target
		for i := 3; i >= 0; i-- {
			idx[i] = rev[reg>>24]
			reg = (reg ^ crcTab[idx[i]]) << 8
		}
		ok := true
		out := []byte(prefix)
		for i := 0; i < 4; i++ {
			c := byte(cur) ^ idx[i]
			cur = cur>>8 ^ crcTab[idx[i]]
			if c <= 0x20 || c >= 0x7f || c == '/' || c == '\\' {
				ok = false
				break
			}
			out = append(out, c)
		}
		if ok && string(out) != name && nameHash(string(out)) == target {
			return string(out)
		}
	}
	panic(&errInfra{"no colliding name found"})
}

var crcTab = func() (tab [256]uint32) {
	for i := range tab {
		tab[i] = crc32cRaw(uint32(i), []byte{0})
	}
	return
}()

func crcRevTable() (rev [256]byte) {
	for i, v := range crcTab {
		rev[v>>24] = byte(i)
	}
	return
}

func genTime(t *rapid.T) Time {
	if rapid.IntRange(0, 7).Draw(t, "before 1970") == 5 {
		return Time{rapid.Int64Range(-1<<35, -1).Draw(t, "sec"), rapid.Uint32Range(0, 999999999).Draw(t, "nsec")}
	}
	return Time{rapid.Int64Range(0, 1<<34).Draw(t, "sec"), rapid.Uint32Range(0, 999999999).Draw(t, "nsec")}
}

func genInode(t *rapid.T, ft uint8) Inode {
	fmt := map[uint8]uint32{ftReg: 0o100000, ftDir: 0o040000, ftChr: 0o020000, ftBlk: 0o060000, ftFifo: 0o010000, ftSock: 0o140000, ftLink: 0o120000}[ft]
	i := Inode{Gen: 7, TransID: 9, Nlink: uint32(pick(t, "nlink", 1, 1, 2, 3, 70000)),
		Mode: fmt | uint32(pick(t, "perm", 0o644, 0o755, 0, 0o777, 0o4755, 0o1777, rapid.IntRange(0, 0o7777).Draw(t, "mode")))}
	if rapid.Bool().Draw(t, "owner?") {
		i.UID, i.GID = rapid.Uint32().Draw(t, "uid"), rapid.Uint32().Draw(t, "gid")
	}
	if rapid.Bool().Draw(t, "times?") {
		i.Atime, i.Ctime, i.Mtime, i.Ot = genTime(t), genTime(t), genTime(t), genTime(t)
	}
	if ft == ftDir {
		i.Size = U64(rapid.IntRange(0, 300).Draw(t, "dirsize"))
	}
	if ft == ftChr || ft == ftBlk {
		i.Rdev = U64(rapid.Uint32().Draw(t, "rdev"))
	}
	return i
}

type worldGen struct {
	t    *rapid.T
	o    WOpt
	w    *World
	used []uint64 // per chunk
	seed uint64
	big  int
}

func (g *worldGen) nextSeed() U64 { g.seed++; return U64(g.seed) }

// blob allocates n bytes on disk; -1 if there is no room.
func (g *worldGen) blob(n uint64) int {
	t, w := g.t, g.w
	ci := rapid.IntRange(0, len(w.Chunks)-1).Draw(t, "chunk")
	for k := range w.Chunks {
		c := (ci + k) % len(w.Chunks)
		room := uint64(w.Chunks[c].Len) - g.used[c]
		if room < n {
			continue
		}
		gap := uint64(0)
		switch rapid.IntRange(0, 5).Draw(t, "place") {
		case 0:
			gap = room - n // the very end of the chunk
		case 1:
			gap = min(room-n, 3*sector)
		}
		w.Blobs = append(w.Blobs, Blob{c, U64(g.used[c] + gap), U64(n), g.nextSeed()})
		g.used[c] += gap + n
		return len(w.Blobs) - 1
	}
	return -1
}

func (g *worldGen) file(n *WNode) {
	t := g.t
	// disk appends a reg or prealloc extent, returns its length.
	disk := func(at uint64, kind uint8) uint64 {
		blocks := uint64(rapid.IntRange(1, 6).Draw(t, "blocks"))
		if !g.o.NoData && rapid.IntRange(0, 24).Draw(t, "large") == 0 {
			blocks = uint64(pick(t, "lblocks", 256, 257, 512, 300, 700))
		}
		ln := blocks * sector
		if len(g.w.Blobs) > 0 && rapid.IntRange(0, 3).Draw(t, "share") == 0 {
			bi := rapid.IntRange(0, len(g.w.Blobs)-1).Draw(t, "blob")
			b := g.w.Blobs[bi]
			nb := uint64(b.Len) / sector
			o := uint64(rapid.IntRange(0, int(nb-1)).Draw(t, "boff"))
			ln = uint64(rapid.IntRange(1, int(nb-o)).Draw(t, "blen")) * sector
			n.Exts = append(n.Exts, WExt{At: U64(at), Kind: kind, Len: U64(ln), Blob: bi, Off: U64(o * sector)})
			return ln
		}
		extra := uint64(rapid.SampledFrom([]int{0, 0, 1, 5}).Draw(t, "extra")) * sector
		bi := g.blob(ln + 2*extra)
		if bi < 0 {
			return sector
		}
		n.Exts = append(n.Exts, WExt{At: U64(at), Kind: kind, Len: U64(ln), Blob: bi, Off: U64(extra)})
		return ln
	}
	inline := func(max int) uint64 {
		ln := uint64(pick(t, "inl", 1, 5, 100, max, rapid.IntRange(1, max).Draw(t, "inlr")))
		n.Exts = append(n.Exts, WExt{Kind: xInline, Len: U64(ln), Seed: g.nextSeed()})
		return ln
	}
	size := uint64(0)
	switch rapid.IntRange(0, 9).Draw(t, "filekind") {
	case 0: // empty
	case 1:
		size = pick(t, "sparse", uint64(1), 4096, 10000, 1<<20)
	case 2:
		size = inline(pick(t, "inlmax", 2000, 2048, min(g.w.BS, sector)-200))
	case 3:
		size = inline(1000) + uint64(pick(t, "inltrail", 0, 0, 1, 4096, 9000))
	default:
		cur := uint64(0)
		if rapid.IntRange(0, 9).Draw(t, "inlfirst") == 0 {
			inline(pick(t, "inlmax", 2000, 2048, min(g.w.BS, sector)-200))
			cur = sector
		}
		segs := rapid.IntRange(1, 5).Draw(t, "segs")
		if rapid.IntRange(0, 30).Draw(t, "manysegs") == 0 {
			segs = 40
		}
		end := cur
		for i := 0; i < segs; i++ {
			switch rapid.IntRange(0, 9).Draw(t, "seg") {
			case 0:
				cur += disk(cur, xPrealloc)
				end = cur
			case 1:
				ln := uint64(rapid.IntRange(1, 8).Draw(t, "hole")) * sector
				if g.o.Big && g.big < 1 && rapid.IntRange(0, 7).Draw(t, "bighole") == 0 {
					ln = 1 << 30
					g.big++
				}
				n.Exts = append(n.Exts, WExt{At: U64(cur), Kind: xHole, Len: U64(ln)})
				cur += ln
				end = cur
			case 2:
				ln := uint64(rapid.IntRange(1, 8).Draw(t, "gap")) * sector
				if g.o.Big && rapid.IntRange(0, 3).Draw(t, "biggap") == 0 {
					ln = pick(t, "gapsize", uint64(1)<<31, 1<<32, 1<<36, 1<<40)
				}
				cur += ln
			default:
				cur += disk(cur, xReg)
				end = cur
			}
		}
		switch rapid.IntRange(0, 5).Draw(t, "sizekind") {
		case 0:
			size = cur // may be a trailing gap
		case 1:
			size = end + uint64(rapid.IntRange(0, 20000).Draw(t, "trail"))
		case 2, 3, 4:
			if end > 0 {
				size = end - uint64(rapid.IntRange(0, sector-1).Draw(t, "cut"))
			}
		case 5:
			size = end
			// Preallocated beyond the end of the file.
			disk((end+sector-1)/sector*sector, xPrealloc)
		}
	}
	n.Inode.Size = U64(size)
	switch rapid.IntRange(0, 7).Draw(g.t, "bytes") {
	case 3: // sparse
		n.Inode.Extra = -rapid.Int64Range(0, int64(min(size, 1<<60))).Draw(g.t, "sparse")
	case 5: // preallocated
		n.Inode.Extra = rapid.Int64Range(0, 1<<22).Draw(g.t, "more")
	}
}

func genWorld(t *rapid.T, o WOpt) *World {
	w := &World{FS: rapid.IntRange(1, 200).Draw(t, "fs"), BS: pick(t, "bs", 16384, 4096, 8192, 32768, 65536)}
	g := &worldGen{t: t, o: o, w: w}
	// Chunks: physical slots of 6 MiB from 16 MiB on, in any order.
	nc := rapid.IntRange(1, 5).Draw(t, "chunks")
	slots := rapid.Permutation([]int{0, 1, 2, 3, 4, 5, 6, 7}).Draw(t, "slots")
	logical := pick(t, "lbase", uint64(0), 1<<20, 13631488, 1<<32-1<<20, 1<<40, 1<<62)
	for i := 0; i < nc; i++ {
		ln := uint64(pick(t, "clen", 4, 1, 2, 6)) << 20
		phys := uint64(16+6*slots[i]) << 20
		if o.FarPhys && rapid.IntRange(0, 5).Draw(t, "far") == 0 {
			phys += pick(t, "faroff", uint64(1)<<32, 1<<31, 1<<40, 5<<33)
		}
		w.Chunks = append(w.Chunks, WChunk{U64(logical), U64(ln), U64(phys)})
		logical += ln + pick(t, "lgap", uint64(0), 0, 1<<20, 1<<32, 1<<44)
	}
	g.used = make([]uint64, nc)
	// Address 0 means a hole, so nothing may be stored there.
	if w.Chunks[0].Logical == 0 {
		g.used[0] = sector
	}
	w.Subs = []WSub{{ID: oFS, In: -1}}
	ids := rapid.Permutation([]uint64{256, 257, 258, 300, 1 << 40, lastFree, 65536}).Draw(t, "subids")
	for i, n := 0, rapid.IntRange(0, o.Subvols).Draw(t, "subvols"); i < n; i++ {
		w.Subs = append(w.Subs, WSub{ID: U64(ids[i]), In: -1, RootOff: U64(pick(t, "rootoff", 0, 0, 7, 1234))})
	}
	taken := map[string]bool{} // sub/dir/name
	nameIn := func(si, dir int, list []WLink) string {
		if o.Collide && rapid.IntRange(0, 3).Draw(t, "collide") == 0 {
			// Collide with an entry of the same directory.
			var cand []string
			for _, n := range w.Subs[si].Nodes {
				for _, l := range n.Links {
					if l.Dir == dir {
						cand = append(cand, string(l.Name))
					}
				}
			}
			if len(cand) > 0 {
				base := cand[rapid.IntRange(0, len(cand)-1).Draw(t, "collidewith")]
				for k := uint64(0); k < 50; k++ {
					n := collide(base, k)
					if !taken[fmt.Sprint(si, "/", dir, "/", n)] {
						taken[fmt.Sprint(si, "/", dir, "/", n)] = true
						return n
					}
				}
			}
		}
		n := genName(t, o.PlainName)
		for k := 0; taken[fmt.Sprint(si, "/", dir, "/", n)] || n == "." || n == ".."; k++ {
			if len(n) > 250 {
				n = n[:250]
			}
			n += fmt.Sprint(k)
		}
		taken[fmt.Sprint(si, "/", dir, "/", n)] = true
		return n
	}
	for si := range w.Subs {
		s := &w.Subs[si]
		s.Nodes = []WNode{{Ino: firstFree, Type: ftDir, Inode: genInode(t, ftDir)}}
		dirs := []int{0}
		ino := uint64(firstFree)
		nn := rapid.IntRange(0, max(1, o.MaxNodes/len(w.Subs))).Draw(t, "nodes")
		for i := 0; i < nn; i++ {
			ino += pick(t, "inostep", uint64(1), 1, 2, 100, 1<<33)
			ty := pick(t, "type", uint8(ftReg), ftReg, ftReg, ftDir, ftDir, ftLink, ftReg)
			if o.Links && rapid.Bool().Draw(t, "link") {
				ty = ftLink
			}
			if o.Special && rapid.IntRange(0, 9).Draw(t, "special") == 0 {
				ty = pick(t, "sp", uint8(ftFifo), ftChr, ftBlk, ftSock)
			}
			dir := dirs[rapid.IntRange(0, len(dirs)-1).Draw(t, "parent")]
			n := WNode{Ino: U64(ino), Type: ty, Inode: genInode(t, ty), Links: []WLink{{dir, Bytes(nameIn(si, dir, nil))}}}
			switch ty {
			case ftReg:
				g.file(&n)
			case ftLink:
				n.Target = Bytes(pick(t, "target", "a", "../x", "/etc/passwd", "no such", genName(t, false), strings.Repeat("l/", 500), strings.Repeat("long/", rapid.IntRange(200, 730).Draw(t, "tlen"))))
				n.Inode.Size = U64(len(n.Target))
			case ftDir:
				dirs = append(dirs, len(s.Nodes))
			}
			if ty != ftDir && rapid.IntRange(0, 7).Draw(t, "hardlink") == 0 {
				d2 := dirs[rapid.IntRange(0, len(dirs)-1).Draw(t, "hlparent")]
				s.Nodes = append(s.Nodes, n) // so that names may collide
				n.Links = append(n.Links, WLink{d2, Bytes(nameIn(si, d2, nil))})
				s.Nodes = s.Nodes[:len(s.Nodes)-1]
			}
			if o.Xattrs && rapid.IntRange(0, 2).Draw(t, "xattr?") == 0 {
				g.xattrs(&n)
			}
			s.Nodes = append(s.Nodes, n)
		}
		if si > 0 && rapid.IntRange(0, 3).Draw(t, "attached") > 0 {
			in := rapid.IntRange(0, si-1).Draw(t, "insub")
			var ds []int
			for i, n := range w.Subs[in].Nodes {
				if n.Type == ftDir {
					ds = append(ds, i)
				}
			}
			d := ds[rapid.IntRange(0, len(ds)-1).Draw(t, "indir")]
			s.In, s.At = in, WLink{d, Bytes(nameIn(in, d, nil))}
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "gens?") > 0 {
		w.Gens = U64(rapid.Uint64Range(0, 1<<20).Draw(t, "gens"))
	}
	if rapid.IntRange(0, 3).Draw(t, "lay?") > 0 {
		w.Lay = U64(rapid.Uint64Range(0, 1<<20).Draw(t, "lay"))
	}
	if o.Stale {
		for i, n := 0, rapid.IntRange(0, 25).Draw(t, "stale"); i < n; i++ {
			w.Stale = append(w.Stale, WStale{rapid.IntRange(0, 400).Draw(t, "item"),
				U64(pick(t, "age", uint64(1), 1, 2, 50, 900)), U64(rapid.Uint64Range(0, 1<<16).Draw(t, "mut"))})
		}
	}
	fill := -1
	if o.Fill {
		fill = rapid.IntRange(0, 15).Draw(t, "fill")
	}
	if fill == 6 {
		w.Fill = &WFill{pick(t, "fsub", 0, 0, 1, 2), pick(t, "fdir", 0, 0, 0, 1, 2, 5), pick(t, "fn", 20, 40, 70, 135, 260, 520),
			pick(t, "ftype", uint8(ftReg), ftReg, ftDir, ftLink), pick(t, "flen", 1, 1, 3), true}
	}
	if (o.Over || o.Big) && !o.NoData && len(w.Blobs) > 0 && rapid.IntRange(0, 15).Draw(t, "frag") == 7 {
		w.Frag = &WFrag{rapid.IntRange(0, 2).Draw(t, "frsub"), pick(t, "frn", 12, 50, 150, 400, 1100, 2500), U64(rapid.Uint32().Draw(t, "frseed"))}
	}
	if fill == 9 {
		w.Fill = &WFill{rapid.IntRange(0, 3).Draw(t, "fsub"), rapid.IntRange(0, 9).Draw(t, "fdir"), pick(t, "fn", 100, 257, 1000, 2500),
			pick(t, "ftype", uint8(ftReg), ftReg, ftDir, ftLink), pick(t, "flen", 5, 5, 40, 255), false}
		if w.BS > 16384 {
			w.Fill.N = min(w.Fill.N, 1000) // there is room for a number of leaves only
		}
	}
	if o.Over {
		for i, n := 0, pick(t, "over", 0, 1, 2, 4, 8, 14); i < n; i++ {
			w.Over = append(w.Over, WOver{rapid.IntRange(0, 12).Draw(t, "ofile"), rapid.IntRange(0, 4).Draw(t, "obase"),
				rapid.IntRange(-4, 6).Draw(t, "oshift"), rapid.IntRange(0, 2).Draw(t, "oage"),
				WExt{Kind: pick(t, "okind", uint8(xReg), xReg, xReg, xHole, xPrealloc, xInline), Len: U64(rapid.IntRange(1, 8).Draw(t, "olen") * sector),
					Blob: rapid.IntRange(0, 20).Draw(t, "oblob"), Off: U64(rapid.IntRange(0, 3).Draw(t, "ooff") * sector), Seed: U64(500 + i)}})
		}
	}
	if o.Stale && rapid.IntRange(0, 2).Draw(t, "was?") == 1 {
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "was"); i < n; i++ {
			w.Was = append(w.Was, WOldChunk{rapid.IntRange(0, nc-1).Draw(t, "wchunk"), pick(t, "wshift", 1, 2, 3, 5, 8, 16, 40, 256, -1, -256),
				U64(pick(t, "wlen", 1, 3, 16, 64, 256, 4096)) * sector, U64(16<<20 + rapid.IntRange(0, 10000).Draw(t, "wphys")*sector), rapid.IntRange(1, 900).Draw(t, "wgen")})
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "tail?") == 0 {
		w.Tail = rapid.IntRange(0, 3*w.BS-1).Draw(t, "tail")
	}
	w.Decoys = rapid.IntRange(0, 6).Draw(t, "decoys")
	w.Super = rapid.IntRange(0, 3).Draw(t, "super")
	return w
}

// otherCase returns a name that only differs in case.
func otherCase(name string) string {
	l := len(name) - 1
	if up := strings.ToUpper(name[l:]); up != name[l:] {
		return name[:l] + up
	}
	return name[:l] + strings.ToLower(name[l:])
}

func (g *worldGen) xattrs(n *WNode) {
	t := g.t
	for i, k := 0, rapid.IntRange(1, 3).Draw(t, "nx"); i < k; i++ {
		name := pick(t, "xname", "user.a", "user.b", "security.selinux", "system.posix_acl_access", "trusted.overlay.opaque", "btrfs.compression", "user."+rapid.StringMatching(`[a-z]{1,40}`).Draw(t, "xn"))
		if g.o.Collide && len(n.Xattrs) > 0 && rapid.IntRange(0, 1).Draw(t, "xcollide") == 0 {
			name = collide(string(n.Xattrs[0].Name), uint64(i))
		} else if len(n.Xattrs) > 0 && rapid.IntRange(0, 4).Draw(t, "xcase") == 2 {
			name = otherCase(string(n.Xattrs[0].Name))
		}
		dup := false
		for _, x := range n.Xattrs {
			dup = dup || string(x.Name) == name
		}
		if !dup {
			n.Xattrs = append(n.Xattrs, WXattr{Bytes(name), Bytes(patternBytes(uint64(g.nextSeed()), 0, uint64(pick(t, "xlen", 0, 1, 30, 500, (g.w.BS-700)/4))))})
		}
	}
}

// ---- Expansion

func (w *World) fsid() []byte { u := mkFSID(U64(w.FS)); return u[:] }

func (w *World) logical(b Blob) uint64 { return uint64(w.Chunks[b.Chunk].Logical) + uint64(b.Off) }

func (w *World) encExt(e WExt) []byte {
	switch e.Kind {
	case xInline:
		return encExt(Ext{Gen: 5, RAM: e.Len, Type: 0, Inline: patternBytes(uint64(e.Seed), 0, uint64(e.Len))})
	case xHole:
		return encExt(Ext{Gen: 5, RAM: e.Len, Type: 1, Num: e.Len})
	}
	b := w.Blobs[e.Blob]
	return encExt(Ext{Gen: 5, RAM: b.Len, Type: e.Kind, DiskByte: U64(w.logical(b)), DiskNum: b.Len, Off: e.Off, Num: e.Len})
}

// nodes adds the entries.
func (f *WFill) nodes(ns []WNode) []WNode {
	ns = append([]WNode(nil), ns...)
	var dirs []int
	for i, n := range ns {
		if n.Type == ftDir {
			dirs = append(dirs, i)
		}
	}
	ino := ns[len(ns)-1].Ino
	in := dirs[f.Dir%len(dirs)]
	for i := 0; i < f.N; i++ {
		typ, name := f.Type, fmt.Sprintf("fill%d", i*7919%f.N)
		if f.Deep {
			if name = "d"; i == 0 {
				name, typ = "fill0", ftDir
			} else if i < f.N-2 {
				typ = ftDir
			} else if name = "end1"; i < f.N-1 {
				name = "end0"
			}
		}
		if len(name) < f.Len {
			name += strings.Repeat("_", f.Len-len(name))
		}
		n := WNode{Ino: ino + U64(i+1), Type: typ, Links: []WLink{{in, Bytes(name)}}, Inode: Inode{Gen: 7, Nlink: 1}}
		if f.Deep && typ == ftDir && i < f.N-2 {
			in = len(ns)
		}
		switch typ {
		case ftReg:
			n.Inode.Mode = 0o100644
			if i%3 > 0 {
				n.Inode.Size = U64(i % 100)
				n.Exts = []WExt{{Kind: xInline, Len: n.Inode.Size, Seed: U64(i)}}
			}
			if n.Inode.Size == 0 {
				n.Exts = nil
			}
		case ftDir:
			n.Inode.Mode = 0o040755
		case ftLink:
			n.Inode.Mode = 0o120777
			n.Target = Bytes(name[:min(5, len(name))])
			n.Inode.Size = U64(len(n.Target))
		}
		ns = append(ns, n)
	}
	return ns
}

// node returns the file. Its pieces are parts of the data of other files.
func (f *WFrag) node(w *World, ino U64) WNode {
	n := WNode{Ino: ino, Type: ftReg, Links: []WLink{{0, Bytes("fill in many pieces")}}, Inode: Inode{Gen: 7, Nlink: 1, Mode: 0o100644}}
	r := splitmix(f.Seed)
	at := U64(0)
	for i := 0; i < f.N; i++ {
		e := WExt{At: at, Kind: xHole, Len: U64(1+r.intn(3)) * sector}
		if i := r.intn(len(w.Blobs) + 1); r.intn(8) > 0 && i < len(w.Blobs) {
			if b := w.Blobs[i]; b.Len >= e.Len {
				e.Kind, e.Blob, e.Off = xReg, i, U64(r.intn(int(min(b.Len-e.Len, 1<<30)/sector)+1)*sector)
				if r.intn(10) == 0 {
					e.Kind = xPrealloc
				}
			}
		}
		if at += e.Len; r.intn(12) == 0 {
			at += sector * U64(r.intn(3))
		}
		n.Exts = append(n.Exts, e)
	}
	n.Inode.Size = at - U64(r.intn(sector))
	return n
}

// items expands the world to the newest version of each item.
func (w *World) items() (out []Ver) {
	gens := splitmix(w.Gens)
	gen := func() uint64 {
		if w.Gens == 0 {
			return baseGen
		}
		if gens.intn(3) > 0 {
			return baseGen + gens.next()%4
		}
		return baseGen + gens.next()%40
	}
	add := func(owner, id uint64, t uint8, off uint64, data []byte) {
		out = append(out, Ver{owner, Key{U64(id), t, U64(off)}, gen(), data})
	}
	for _, c := range w.Chunks {
		add(oChunk, firstFree, tChunk, uint64(c.Logical), encChunk(ChunkRec{c.Len, 1, []Stripe{{1, c.Phys}}}))
	}
	add(oRoot, oFS, tRootItem, 0, encRootItem(7, firstFree))
	type slot struct {
		owner, dir uint64
		hash       uint32
	}
	ents := map[slot][]DirEnt{}
	var order []slot
	seq := map[[2]uint64]uint64{}
	link := func(owner, dir uint64, e DirEnt) {
		s := slot{owner, dir, nameHash(string(e.Name))}
		if ents[s] == nil {
			order = append(order, s)
		}
		ents[s] = append(ents[s], e)
		k := [2]uint64{owner, dir}
		seq[k]++
		add(owner, dir, tDirIndex, seq[k]+1, encDirEnts(e))
	}
	for si, s := range w.Subs {
		owner := uint64(s.ID)
		if w.Fill != nil && w.Fill.Sub%len(w.Subs) == si {
			s.Nodes = w.Fill.nodes(s.Nodes)
		}
		if w.Frag != nil && w.Frag.Sub%len(w.Subs) == si {
			s.Nodes = append(append([]WNode(nil), s.Nodes...), w.Frag.node(w, s.Nodes[len(s.Nodes)-1].Ino+1))
		}
		if si > 0 {
			add(oRoot, owner, tRootItem, uint64(s.RootOff), encRootItem(7, firstFree))
		}
		for _, n := range s.Nodes {
			add(owner, uint64(n.Ino), tInodeItem, 0, encInode(n.Inode))
			refs := map[uint64][]byte{}
			for _, l := range n.Links {
				d := uint64(s.Nodes[l.Dir].Ino)
				link(owner, d, DirEnt{Loc: Key{n.Ino, tInodeItem, 0}, TransID: 8, Type: n.Type, Name: l.Name})
				refs[d] = append(refs[d], encInodeRef(2, string(l.Name))...)
			}
			for _, l := range n.Links { // one item for all links of a directory
				d := uint64(s.Nodes[l.Dir].Ino)
				if refs[d] != nil {
					add(owner, uint64(n.Ino), tInodeRef, d, refs[d])
					refs[d] = nil
				}
			}
			for _, e := range n.Exts {
				add(owner, uint64(n.Ino), tExtentData, uint64(e.At), w.encExt(e))
			}
			if n.Type == ftLink {
				add(owner, uint64(n.Ino), tExtentData, 0, encExt(Ext{Gen: 5, RAM: U64(len(n.Target)), Inline: []byte(n.Target)}))
			}
			byHash := map[uint32][]DirEnt{}
			var hs []uint32
			for _, x := range n.Xattrs {
				h := nameHash(string(x.Name))
				if byHash[h] == nil {
					hs = append(hs, h)
				}
				byHash[h] = append(byHash[h], DirEnt{TransID: 8, Type: ftXattr, Name: x.Name, Data: x.Value})
			}
			for _, h := range hs {
				add(owner, uint64(n.Ino), tXAttr, uint64(h), encDirEnts(byHash[h]...))
			}
		}
		if s.In >= 0 {
			p := w.Subs[s.In]
			d := uint64(p.Nodes[s.At.Dir].Ino)
			link(uint64(p.ID), d, DirEnt{Loc: Key{s.ID, tRootItem, U64(maxU)}, TransID: 8, Type: ftDir, Name: s.At.Name})
			add(oRoot, uint64(p.ID), tRootRef, owner, encRootRef(d, 2, string(s.At.Name)))
			add(oRoot, owner, tRootBackRef, uint64(p.ID), encRootRef(d, 2, string(s.At.Name)))
		}
		for _, m := range s.More {
			p := w.Subs[m.In]
			link(uint64(p.ID), uint64(p.Nodes[m.At.Dir].Ino), DirEnt{Loc: Key{s.ID, tRootItem, U64(maxU)}, TransID: 8, Type: ftDir, Name: m.At.Name})
		}
	}
	for _, s := range order {
		add(s.owner, s.dir, tDirItem, uint64(s.hash), encDirEnts(ents[s]...))
	}
	return
}

// versions is items plus the stale older versions.
func (w *World) versions() []Ver {
	its := w.items()
	out := append([]Ver(nil), its...)
	type vk struct {
		o uint64
		k Key
		g uint64
	}
	have := map[vk]bool{}
	for _, v := range its {
		have[vk{v.Owner, v.Key, v.Gen}] = true
	}
	out = append(out, w.overlapping(its)...)
	for _, o := range w.Was {
		at := int64(w.Chunks[o.Chunk].Logical) + int64(o.Shift)*sector
		k := vk{oChunk, Key{firstFree, tChunk, U64(at)}, uint64(o.Gen)}
		if at < 0 || have[k] {
			continue
		}
		have[k] = true
		out = append(out, Ver{k.o, k.k, k.g, encChunk(ChunkRec{o.Len, 1, []Stripe{{1, o.Phys}}})})
	}
	for _, s := range w.Stale {
		v := its[s.Item%len(its)]
		if uint64(s.Age) >= v.Gen {
			continue
		}
		v.Gen -= uint64(s.Age)
		v.Data = w.mutate(v, splitmix(s.Mut))
		k := vk{v.Owner, v.Key, v.Gen}
		if !have[k] {
			have[k] = true
			out = append(out, v)
		}
	}
	return out
}

// overlapping expands Over: what is left of other states of a file, with
// extents at other places. No two versions of a file's extents have the same
// generation then, unless they did before.
func (w *World) overlapping(its []Ver) (out []Ver) {
	type file struct {
		owner, ino uint64
		exts       []WExt
	}
	var files []file
	gens := map[dirKey]map[uint64]uint64{} // by offset
	for _, v := range its {
		if v.Key.Type == tExtentData {
			k := dirKey{v.Owner, uint64(v.Key.ID)}
			if gens[k] == nil {
				gens[k] = map[uint64]uint64{}
			}
			gens[k][uint64(v.Key.Off)] = v.Gen
		}
	}
	for _, s := range w.Subs {
		for _, n := range s.Nodes {
			if n.Type == ftReg && len(n.Exts) > 0 {
				files = append(files, file{uint64(s.ID), uint64(n.Ino), n.Exts})
			}
		}
	}
	if len(files) == 0 {
		return
	}
	for _, o := range w.Over {
		f := files[o.File%len(files)]
		have := gens[dirKey{f.owner, f.ino}]
		base := f.exts[o.Base%len(f.exts)]
		e := o.E
		at := int64(base.At) + int64(o.Shift)*sector
		if at < 0 {
			at = 0
		}
		e.At = U64(at)
		if _, ok := have[uint64(e.At)]; ok {
			continue
		}
		switch {
		case e.Kind == xInline && e.At != 0, e.Kind != xHole && e.Kind != xInline && len(w.Blobs) == 0:
			e.Kind = xHole
		case e.Kind == xInline:
			e.Len /= 64 // sectors
		}
		if e.Kind == xReg || e.Kind == xPrealloc {
			e.Blob %= len(w.Blobs)
			b := w.Blobs[e.Blob]
			if e.Off >= b.Len {
				e.Off = 0
			}
			e.Len = min(e.Len, b.Len-e.Off)
		}
		taken := map[uint64]bool{}
		lo, hi := uint64(maxU), uint64(0)
		for _, g := range have {
			taken[g] = true
			lo, hi = min(lo, g), max(hi, g)
		}
		g := have[uint64(base.At)]
		switch o.Age {
		case 1:
			g = lo - 1
		case 2:
			g = hi + 1
		}
		for taken[g] {
			g++
		}
		have[uint64(e.At)] = g
		out = append(out, Ver{f.owner, Key{U64(f.ino), tExtentData, e.At}, g, w.encExt(e)})
	}
	return
}

// mutate makes an older, different, well-formed version of an item.
func (w *World) mutate(v Ver, r splitmix) []byte {
	d := append([]byte(nil), v.Data...)
	if len(d) == 0 {
		return patternBytes(r.next(), 0, 8)
	}
	kind := v.Key.Type
	// Payloads that are not of their key's type are only scrambled.
	if es, ok := decDirEnts(d); (kind == tDirItem || kind == tDirIndex || kind == tXAttr) && (!ok || len(es) == 0) ||
		kind == tInodeItem && len(d) < 160 || kind == tChunk && len(d) < 64 || kind == tRootItem && len(d) < 184 {
		kind = 0
	}
	switch kind {
	case tInodeItem:
		le.PutUint64(d[16:], le.Uint64(d[16:])+1+r.next()%5000) // size
		if r.intn(2) == 0 {
			le.PutUint64(d[16:], r.next()%5000)
		}
		le.PutUint32(d[40:], uint32(r.next()))
		le.PutUint32(d[44:], uint32(r.next()))
		le.PutUint32(d[52:], le.Uint32(d[52:])^uint32(1+r.next()%0o777))
		le.PutUint64(d[124:], r.next()%(1<<33))
	case tDirItem, tDirIndex:
		es, _ := decDirEnts(d)
		for i := range es {
			switch r.intn(3) {
			case 0:
				es[i].Loc.ID += U64(1 + r.next()%3)
			case 1:
				es[i].Type = pickByte(&r, ftReg, ftDir, ftLink, ftFifo)
			default:
				es[i].Loc = Key{U64(firstFree + r.next()%8), tInodeItem, 0}
				es[i].Type = pickByte(&r, ftReg, ftDir, ftLink)
			}
		}
		// Older versions of a shared item may hold fewer entries.
		if len(es) > 1 && r.intn(2) == 0 {
			es = es[:1+r.intn(len(es)-1)]
		}
		return encDirEnts(es...)
	case tXAttr:
		es, _ := decDirEnts(d)
		for i := range es {
			es[i].Data = Bytes(patternBytes(r.next(), 0, r.next()%40))
		}
		return encDirEnts(es...)
	case tExtentData:
		n := 1 + r.next()%3000
		switch r.intn(3) {
		case 0:
			return encExt(Ext{RAM: U64(n), Inline: patternBytes(r.next(), 0, n)})
		case 1:
			return encExt(Ext{RAM: 8192, Type: 1, Num: 8192})
		}
		if len(w.Blobs) > 0 {
			b := w.Blobs[r.intn(len(w.Blobs))]
			return encExt(Ext{RAM: b.Len, Type: 1, DiskByte: U64(w.logical(b)), DiskNum: b.Len, Num: b.Len})
		}
		return encExt(Ext{RAM: U64(n), Inline: patternBytes(r.next(), 0, n)})
	case tChunk:
		le.PutUint64(d[48+8:], le.Uint64(d[48+8:])+sector*(1+r.next()%64))
	case tRootItem:
		le.PutUint64(d[176:], r.next()%(1<<40))
	default:
		for i := range d {
			d[i] ^= byte(r.next())
		}
	}
	return d
}

func pickByte(r *splitmix, b ...uint8) uint8 { return b[r.intn(len(b))] }

// ---- Images

// Block is a metadata block with its place.
type Block struct {
	Phys uint64
	Data []byte
	Vers []Ver // what recon has to find in it
}

// packLeaves distributes item versions over leaf blocks.
func packLeaves(vs []Ver, bs int, fsid []byte, r *splitmix, simple bool) (blocks []Block) {
	type grp struct{ owner, gen uint64 }
	groups := map[grp][]Ver{}
	var order []grp
	for _, v := range vs {
		g := grp{v.Owner, v.Gen}
		if groups[g] == nil {
			order = append(order, g)
		}
		groups[g] = append(groups[g], v)
	}
	for _, g := range order {
		l := groups[g]
		// On disk, keys are ordered by object id, type and offset.
		sort.SliceStable(l, func(i, j int) bool {
			a, b := l[i].Key, l[j].Key
			if a.ID != b.ID {
				return a.ID < b.ID
			}
			if a.Type != b.Type {
				return a.Type < b.Type
			}
			return a.Off < b.Off
		})
		for len(l) > 0 {
			room, n := bs-hdrLen, 0
			limit := len(l)
			if !simple && r.intn(2) == 0 {
				limit = 1 + r.intn(len(l))
			}
			for n < limit && itemLen+len(l[n].Data) <= room {
				room -= itemLen + len(l[n].Data)
				n++
			}
			if n == 0 {
				panic(&errInfra{fmt.Sprintf("item of %d bytes does not fit into a leaf of %d", len(l[0].Data), bs)})
			}
			gap := 0
			if !simple && r.intn(3) == 0 {
				gap = r.intn(room/n + 1)
			}
			blocks = append(blocks, Block{Data: encLeaf(bs, fsid, g.owner, g.gen, r.next(), l[:n], gap), Vers: l[:n]})
			l = l[n:]
		}
	}
	return
}

// place assigns distinct block-aligned positions from after the first
// superblock up to limit (the start of the data area), plus the last block of
// the device.
func place(blocks []Block, bs, limit, size uint64, r *splitmix, simple bool) {
	first := uint64(super1) + bs
	n := (limit - first) / bs
	used := map[uint64]bool{}
	last := size - size%bs - bs
	for i := range blocks {
		if simple {
			blocks[i].Phys = first + uint64(i)*bs
			continue
		}
		if r.intn(40) == 0 && !used[last] && last%bs == 0 {
			used[last] = true
			blocks[i].Phys = last
			continue
		}
		if r.intn(20) == 0 && !used[first] {
			used[first] = true
			blocks[i].Phys = first
			continue
		}
		if uint64(i) >= n {
			panic(&errInfra{fmt.Sprintf("%d blocks do not fit", len(blocks))})
		}
		for k := r.next(); ; k++ {
			p := first + k%n*bs
			if !used[p] {
				used[p] = true
				blocks[i].Phys = p
				break
			}
		}
	}
}

const dataStart = 16 << 20

// Image is the layout of an image file.
type Image struct {
	Size   uint64
	Blocks []Block
	W      *World
}

// image lays the given item versions out on a device.
func (w *World) image(vs []Ver) *Image {
	bs := uint64(w.BS)
	im := &Image{W: w, Size: max(minDevSize(bs), dataStart+6*8<<20) + uint64(w.Tail)}
	r := splitmix(w.Lay)
	simple := w.Lay == 0
	blocks := packLeaves(vs, w.BS, w.fsid(), &r, simple)
	if !simple {
		// Some leaves are there twice.
		for i, n := 0, len(blocks); i < n; i++ {
			if r.intn(12) == 0 {
				blocks = append(blocks, blocks[i])
			}
		}
	}
	for i := 0; i < w.Decoys && len(vs) > 0; i++ {
		blocks = append(blocks, decoy(vs, w, &r))
	}
	place(blocks, bs, dataStart, im.Size, &r, simple)
	im.Blocks = blocks
	return im
}

// decoy is a block recon has to skip.
func decoy(vs []Ver, w *World, r *splitmix) Block {
	v := vs[r.intn(len(vs))]
	v.Gen += 1 + r.next()%1000
	v.Data = w.mutate(v, *r)
	b := encLeaf(w.BS, w.fsid(), v.Owner, v.Gen, r.next(), []Ver{v}, 0)
	if w.Super == superLog && r.intn(3) == 0 {
		// As in an image that does not start where the filesystem does.
		b = make([]byte, w.BS)
		copy(b, w.superblock(super1))
		return Block{Data: b}
	}
	switch r.intn(5) {
	case 0: // of another filesystem
		other := mkFSID(U64(w.FS) + 1000)
		copy(b[32:], other[:])
		if r.intn(2) == 0 {
			copy(b[32:], w.fsid())
			b[32+r.intn(16)] ^= 1 << r.intn(8)
		}
	case 1: // internal node
		b[100] = byte(1 + r.intn(7))
		if r.intn(4) == 0 {
			b[100] = byte(1 + r.intn(255))
		}
	case 2: // empty leaf
		le.PutUint32(b[96:], 0)
	case 3: // all zero or all ones id
		for i := 32; i < 48; i++ {
			b[i] = byte(-(int(r.next()) & 1))
		}
		for i := 33; i < 48; i++ {
			b[i] = b[32]
		}
	case 4: // plain data
		pattern(r.next(), 0, b)
	}
	return Block{Data: b}
}

// Super says what has become of the superblocks.
const (
	superPlain = iota
	superNone  // overwritten with zeros
	superJunk  // overwritten with other data
	superLog   // all fields set, with a log tree as after a crash
)

// superblock is as much of one as Super asks for.
func (w *World) superblock(at uint64) []byte {
	b := make([]byte, 4096)
	switch w.Super {
	case superNone:
		return b
	case superJunk:
		pattern(at+uint64(w.FS), 0, b)
		return b
	}
	copy(b[32:], w.fsid())
	le.PutUint64(b[48:], at)
	copy(b[64:], "_BHRfS_M")
	le.PutUint64(b[72:], baseGen+40)
	if w.Super == superLog {
		r := splitmix(uint64(w.FS))
		for i, v := range []uint64{30408704 + r.next()%64<<14, 22020096, 30000000>>14<<14 + r.next()%4096<<14, 0, 10 << 30, 1 << 20, 6, 1} {
			le.PutUint64(b[80+8*i:], v) // root, chunk root, log root ...
		}
		for i, v := range []uint32{4096, uint32(w.BS), uint32(w.BS), 4096, 97} {
			le.PutUint32(b[144+4*i:], v)
		}
		le.PutUint64(b[164:], baseGen)
		le.PutUint64(b[188:], 0x161)
		copy(b[299:], "label")
		// The system chunks.
		wb := wbuf(nil)
		wb.key(Key{firstFree, tChunk, 22020096})
		copy(b[811:], append(wb, encChunk(ChunkRec{Length: 8 << 20, Type: 2, Stripes: []Stripe{{1, 22020096}}})...))
	}
	return b
}

func (w *World) writeData(f *os.File) {
	for _, b := range w.Blobs {
		_, err := f.WriteAt(patternBytes(uint64(b.Seed), 0, uint64(b.Len)), int64(w.Chunks[b.Chunk].Phys+b.Off))
		must(err)
	}
}

func (im *Image) write(path string) {
	f := must1(os.Create(path))
	defer f.Close()
	must(f.Truncate(int64(im.Size)))
	im.W.writeData(f)
	for _, s := range []uint64{super1, super2} {
		if s+4096 <= im.Size {
			_, err := f.WriteAt(im.W.superblock(s), int64(s))
			must(err)
		}
	}
	for _, b := range im.Blocks {
		_, err := f.WriteAt(b.Data, int64(b.Phys))
		must(err)
	}
}

// writeDataImage writes only the file data (for runs on prepared metadata).
func (w *World) writeDataImage(path string) {
	f := must1(os.Create(path))
	defer f.Close()
	end := uint64(dataStart)
	for _, c := range w.Chunks {
		end = max(end, uint64(c.Phys+c.Len))
	}
	must(f.Truncate(int64(end)))
	w.writeData(f)
}

// ---- Reference interpretation

// View interprets item versions: the newest version of every key counts.
type View struct {
	items map[uint64]map[Key][]byte // owner
	keys  map[uint64][]Key          // sorted (type, id, off)
	gens  map[uint64]map[Key]uint64
	large *sync.Map // directories, layouts of files
	img   *os.File
	noDev bool // data on disk reads as zeros
}

func newView(vs []Ver, imgPath string) *View {
	v := &View{items: map[uint64]map[Key][]byte{}, keys: map[uint64][]Key{}, large: &sync.Map{}}
	gens := map[uint64]map[Key]uint64{}
	v.gens = gens
	for _, it := range vs {
		if v.items[it.Owner] == nil {
			v.items[it.Owner] = map[Key][]byte{}
			gens[it.Owner] = map[Key]uint64{}
		}
		if g, ok := gens[it.Owner][it.Key]; !ok || it.Gen >= g {
			gens[it.Owner][it.Key] = it.Gen
			v.items[it.Owner][it.Key] = it.Data
		}
	}
	for o, m := range v.items {
		for k := range m {
			v.keys[o] = append(v.keys[o], k)
		}
		l := v.keys[o]
		sort.Slice(l, func(i, j int) bool { return cmpKey(l[i], l[j]) < 0 })
	}
	if imgPath != "" {
		v.img = must1(os.Open(imgPath))
	}
	return v
}

func (v *View) close() {
	if v.img != nil {
		v.img.Close()
	}
}

func (v *View) all(owner uint64, t uint8, id uint64) (out []Key) {
	l := v.keys[owner]
	i := sort.Search(len(l), func(i int) bool { return cmpKey(l[i], Key{U64(id), t, 0}) >= 0 })
	for ; i < len(l) && l[i].Type == t && uint64(l[i].ID) == id; i++ {
		out = append(out, l[i])
	}
	return
}

func (v *View) inode(owner, ino uint64) (Inode, bool) {
	b, ok := v.items[owner][Key{U64(ino), tInodeItem, 0}]
	if !ok {
		return Inode{}, false
	}
	return decInode(b)
}

// dir lists a directory in index order.
func (v *View) dir(owner, ino uint64) (out []DirEnt) {
	if l, ok := v.large.Load(dirKey{owner, ino}); ok {
		return l.([]DirEnt)
	}
	for _, k := range v.all(owner, tDirItem, ino) {
		es, _ := decDirEnts(v.items[owner][k])
		out = append(out, es...)
	}
	out = out[:len(out):len(out)]
	if len(out) > 50 {
		v.large.Store(dirKey{owner, ino}, out)
	}
	return
}

func (v *View) xattrs(owner, ino uint64) (out []DirEnt) {
	for _, k := range v.all(owner, tXAttr, ino) {
		es, _ := decDirEnts(v.items[owner][k])
		out = append(out, es...)
	}
	return
}

// enter gives the directory an entry leads to.
func enter(owner uint64, e DirEnt) (uint64, uint64) {
	if e.Loc.Type == tRootItem {
		return uint64(e.Loc.ID), firstFree
	}
	return owner, uint64(e.Loc.ID)
}

func (v *View) subvols() (out []uint64) {
	for _, k := range v.keys[oRoot] {
		if k.Type == tRootItem && uint64(k.ID) >= firstFree && uint64(k.ID) <= lastFree &&
			(len(out) == 0 || out[len(out)-1] != uint64(k.ID)) {
			out = append(out, uint64(k.ID))
		}
	}
	return
}

// phys maps an address; where chunks overlap, the newest counts.
func (v *View) phys(logical uint64) (at uint64, ok bool) {
	newest := uint64(0)
	for _, k := range v.all(oChunk, tChunk, firstFree) {
		b := v.items[oChunk][k]
		ln := le.Uint64(b)
		if logical >= uint64(k.Off) && logical-uint64(k.Off) < ln {
			if g := v.gens[oChunk][k]; !ok || g > newest {
				at, ok, newest = le.Uint64(b[56:])+logical-uint64(k.Off), true, g
			}
		}
	}
	return
}

// Seg is a stretch of file contents; nil Data means zeros.
type Seg struct {
	Off  uint64
	Data []byte
}

// Content is what a file holds: Segs, and zeros elsewhere up to Size.
type Content struct {
	Size uint64
	Segs []Seg
}

// extents returns the newest extents of a file.
func (v *View) extents(owner, ino uint64) (offs []uint64, exts []Ext) {
	for _, k := range v.all(owner, tExtentData, ino) {
		e, ok := decExt(v.items[owner][k])
		if !ok {
			panic(&errInfra{"bad extent in reference"})
		}
		offs, exts = append(offs, uint64(k.Off)), append(exts, e)
	}
	return
}

// span is a stretch of a file that belongs to one of its extents.
type span struct {
	off, end uint64
	i        int
}

func (v *View) extLen(owner uint64, k Key, e Ext) uint64 {
	if e.Type != 0 {
		return uint64(e.Num)
	}
	if d := v.items[owner][k]; d[16]|d[17]|d[18]|d[19] != 0 {
		return uint64(e.RAM) // encoded
	}
	return min(uint64(e.RAM), uint64(len(e.Inline)))
}

// layout tells which extent each part of a file belongs to: where several
// overlap, the newest one counts, and the last one of the newest.
func (v *View) layout(owner, ino uint64) (out []span) {
	ks := v.all(owner, tExtentData, ino)
	type layKey struct{ owner, ino uint64 }
	if len(ks) > 50 {
		if l, ok := v.large.Load(layKey{owner, ino}); ok {
			return l.([]span)
		}
		defer func() { v.large.Store(layKey{owner, ino}, out) }()
	}
	var is []int
	for i := range ks {
		if _, ok := decExt(v.items[owner][ks[i]]); ok {
			is = append(is, i)
		}
	}
	sort.SliceStable(is, func(a, b int) bool { return v.gens[owner][ks[is[a]]] < v.gens[owner][ks[is[b]]] })
	for _, i := range is {
		e, _ := decExt(v.items[owner][ks[i]])
		s := span{uint64(ks[i].Off), uint64(ks[i].Off), i}
		s.end += min(v.extLen(owner, ks[i], e), maxU-s.off)
		if s.off == s.end {
			continue
		}
		var left []span
		for _, o := range out {
			if o.end <= s.off || o.off >= s.end {
				left = append(left, o)
				continue
			}
			if o.off < s.off {
				left = append(left, span{o.off, s.off, o.i})
			}
			if o.end > s.end {
				left = append(left, span{s.end, o.end, o.i})
			}
		}
		out = append(left, s)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].off < out[j].off })
	return
}

// overlaps tells whether extents of a file of the tree overlap.
func (v *View) overlaps() bool {
	for _, n := range v.tree() {
		if n.E.Type != ftReg {
			continue
		}
		owner, ino := n.Owner, uint64(n.E.Loc.ID)
		end, left := uint64(0), false
		offs, exts := v.extents(owner, ino)
		ks := v.all(owner, tExtentData, ino)
		for i, e := range exts {
			left = left || i > 0 && offs[i] < end
			end = max(end, offs[i]+v.extLen(owner, ks[i], e))
		}
		if left {
			return true
		}
	}
	return false
}

func (v *View) content(owner, ino uint64) (c Content) {
	offs, exts := v.extents(owner, ino)
	in, haveInode := v.inode(owner, ino)
	lay := v.layout(owner, ino)
	if len(lay) > 0 {
		c.Size = lay[len(lay)-1].end
	}
	if haveInode {
		c.Size = uint64(in.Size)
	}
	for _, s := range lay {
		if s.off >= c.Size {
			break
		}
		e, skip, n := exts[s.i], s.off-offs[s.i], min(s.end, c.Size)-s.off
		var data []byte
		switch {
		case e.Type == 0:
			data = e.Inline[skip : skip+n]
		case v.noDev:
			continue
		case e.Type == 1 && e.DiskByte != 0:
			p, ok := v.phys(uint64(e.DiskByte))
			if !ok {
				panic(&errInfra{"extent outside of all chunks"})
			}
			data = make([]byte, n)
			if n, err := v.img.ReadAt(data, int64(p+uint64(e.Off)+skip)); n < len(data) {
				panic(&errInfra{fmt.Sprint("reference read: ", err)})
			}
		default:
			continue
		}
		c.Segs = append(c.Segs, Seg{s.off, data})
	}
	return
}

// read returns n bytes at off.
func (c Content) read(off, n uint64) []byte {
	if off >= c.Size {
		return nil
	}
	b := make([]byte, min(n, c.Size-off))
	for _, s := range c.Segs {
		e := s.Off + uint64(len(s.Data))
		if e <= off || s.Off >= off+uint64(len(b)) {
			continue
		}
		if s.Off >= off {
			copy(b[s.Off-off:], s.Data)
		} else {
			copy(b, s.Data[off-s.Off:])
		}
	}
	return b
}

const (
	seekData = 3
	seekHole = 4
)

// sameContent compares a file with its expected content.
func (c Content) sameContent(path string) error {
	f, err := os.OpenFile(path, os.O_RDONLY|syscall.O_NOFOLLOW|syscall.O_NONBLOCK, 0)
	if err != nil {
		return bad("%q: %v", path, err)
	}
	defer f.Close()
	st := must1(f.Stat())
	if !st.Mode().IsRegular() {
		return bad("%q is not a regular file: %v", path, st.Mode())
	}
	if uint64(st.Size()) != c.Size {
		return bad("%q has %d bytes, want %d", path, st.Size(), c.Size)
	}
	// All data stretches of the file equal the expected bytes ...
	buf := make([]byte, 1<<20)
	for pos := int64(0); pos < st.Size(); {
		d, err := f.Seek(pos, seekData)
		if err != nil {
			break // only a hole is left
		}
		h := must1(f.Seek(d, seekHole))
		for d < h {
			n := min(h-d, int64(len(buf)))
			if k, err := f.ReadAt(buf[:n], d); int64(k) < n {
				return infra("read back: %v", err)
			}
			if err := sameBytes(fmt.Sprintf("%q", path), uint64(d), buf[:n], c.read(uint64(d), uint64(n))); err != nil {
				return err
			}
			d += n
		}
		pos = h
	}
	// ... and so do all stretches that have to be there.
	for _, s := range c.Segs {
		b := make([]byte, len(s.Data))
		if k, err := f.ReadAt(b, int64(s.Off)); k < len(b) {
			return bad("%q: short read at %d: %v", path, s.Off, err)
		}
		if err := sameBytes(fmt.Sprintf("%q", path), s.Off, b, c.read(s.Off, uint64(len(b)))); err != nil {
			return err
		}
	}
	return nil
}

func sameBytes(what string, at uint64, got, want []byte) error {
	if bytes.Equal(got, want) {
		return nil
	}
	if len(got) != len(want) {
		return bad("%s: %d bytes at %d, want %d", what, len(got), at, len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			j := min(i+16, len(got))
			return bad("%s: bytes at %d: %x, want %x", what, at+uint64(i), got[i:j], want[i:j])
		}
	}
	return nil
}

func worldJSON(w *World) string { return string(must1(json.Marshal(w))) }
