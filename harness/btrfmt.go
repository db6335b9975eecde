package main

// Independent encoders and decoders of the BTRFS on-disk format, written from
// the kernel's include/uapi/linux/btrfs_tree.h, not from the code under test.

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"sort"
	"strconv"
)

var le = binary.LittleEndian

const (
	hdrLen  = 101
	itemLen = 25

	tInodeItem   = 1
	tInodeRef    = 12
	tXAttr       = 24
	tDirItem     = 84
	tDirIndex    = 96
	tExtentData  = 108
	tExtentCsum  = 128
	tRootItem    = 132
	tRootBackRef = 144
	tRootRef     = 156
	tExtentItem  = 168
	tBlockGroup  = 192
	tDevExtent   = 204
	tDevItem     = 216
	tChunk       = 228

	oRoot   = 1
	oExtent = 2
	oChunk  = 3
	oDev    = 4
	oFS     = 5
	oCsum   = 7

	firstFree = 256
	lastFree  = ^uint64(255) // -256

	ftUnknown = 0
	ftReg     = 1
	ftDir     = 2
	ftChr     = 3
	ftBlk     = 4
	ftFifo    = 5
	ftSock    = 6
	ftLink    = 7
	ftXattr   = 8
)

// Bytes is a byte string with a readable JSON form: a quoted Go string.
type Bytes string

func (b Bytes) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.QuoteToASCII(string(b))) }
func (b *Bytes) UnmarshalJSON(j []byte) error {
	var s string
	if err := json.Unmarshal(j, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(s)
	if err != nil {
		return err
	}
	*b = Bytes(u)
	return nil
}

// Hex is a byte slice written in hexadecimal.
type Hex []byte

func (h Hex) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(h)) }
func (h *Hex) UnmarshalJSON(j []byte) error {
	var s string
	if err := json.Unmarshal(j, &s); err != nil {
		return err
	}
	b, err := hex.DecodeString(s)
	*h = b
	return err
}

// U64 is a uint64 that survives JSON (as a decimal string).
type U64 uint64

func (u U64) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.FormatUint(uint64(u), 10)) }
func (u *U64) UnmarshalJSON(j []byte) error {
	var s string
	if err := json.Unmarshal(j, &s); err != nil {
		return err
	}
	v, err := strconv.ParseUint(s, 10, 64)
	*u = U64(v)
	return err
}

type Key struct {
	ID   U64
	Type uint8
	Off  U64
}

func (k Key) String() string { return fmt.Sprintf("(%d %d %d)", k.ID, k.Type, k.Off) }

// cmpKey orders keys the way the index does: type, object id, offset.
func cmpKey(a, b Key) int {
	switch {
	case a.Type != b.Type:
		return cmpU(uint64(a.Type), uint64(b.Type))
	case a.ID != b.ID:
		return cmpU(uint64(a.ID), uint64(b.ID))
	}
	return cmpU(uint64(a.Off), uint64(b.Off))
}

func cmpU(a, b uint64) int {
	if a < b {
		return -1
	} else if a > b {
		return 1
	}
	return 0
}

// crc32cRaw is the bitwise CRC-32C register update, without pre- or
// post-inversion.
func crc32cRaw(crc uint32, b []byte) uint32 {
	for _, c := range b {
		crc ^= uint32(c)
		for i := 0; i < 8; i++ {
			crc = crc>>1 ^ 0x82f63b78&-(crc&1)
		}
	}
	return crc
}

// nameHash is btrfs_name_hash(): crc32c((u32)~1, name, len).
func nameHash(name string) uint32 { return crc32cRaw(^uint32(1), []byte(name)) }

// splitmix is the deterministic expansion of a drawn seed.
type splitmix uint64

func (s *splitmix) next() uint64 {
	*s += 0x9e3779b97f4a7c15
	z := uint64(*s)
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func (s *splitmix) intn(n int) int { return int(s.next() % uint64(n)) }

// solid is the content drawn by (seed): position-dependent, never zero, so
// misplaced bytes and missing bytes both show.
func solid(seed uint64, off uint64, b []byte) {
	var w uint64
	for i := range b {
		p := off + uint64(i)
		if i == 0 || p&7 == 0 {
			x := splitmix(seed*0x2545f4914f6cdd1d ^ p>>3*0x9e3779b97f4a7c15)
			w = x.next()
		}
		b[i] = byte(w>>(8*(p&7))) | 1
	}
}

// pattern is the same for most seeds. One in four has zeros, in some of these
// whole pages of them.
func pattern(seed uint64, off uint64, b []byte) {
	solid(seed, off, b)
	m := splitmix(seed ^ 0x5eed)
	mode := m.next() % 8
	if mode > 1 {
		return
	}
	zero := false
	for i := range b {
		p := off + uint64(i)
		if i == 0 || p&7 == 0 {
			unit := p >> 12
			if mode == 1 {
				unit = p >> 4
			}
			z := splitmix(seed ^ unit<<20)
			zero = z.next()%8 < 3
		}
		if zero || mode == 1 && b[i] < 8 {
			b[i] = 0
		}
	}
}

func patternBytes(seed uint64, off, n uint64) []byte {
	b := make([]byte, n)
	pattern(seed, off, b)
	return b
}

type wbuf []byte

func (w *wbuf) u8(v uint8)    { *w = append(*w, v) }
func (w *wbuf) u16(v uint16)  { *w = le.AppendUint16(*w, v) }
func (w *wbuf) u32(v uint32)  { *w = le.AppendUint32(*w, v) }
func (w *wbuf) u64(v uint64)  { *w = le.AppendUint64(*w, v) }
func (w *wbuf) raw(b []byte)  { *w = append(*w, b...) }
func (w *wbuf) zero(n int)    { *w = append(*w, make([]byte, n)...) }
func (w *wbuf) key(k Key)     { w.u64(uint64(k.ID)); w.u8(k.Type); w.u64(uint64(k.Off)) }
func (w *wbuf) time(t Time)   { w.u64(uint64(t.Sec)); w.u32(t.Nsec) }
func (w *wbuf) bytes() []byte { return []byte(*w) }

type Time struct {
	Sec  int64
	Nsec uint32
}

type Inode struct {
	Gen, TransID            U64
	Size                    U64
	Extra                   int64 `json:",omitempty"` // bytes on disk compared with Size
	Nlink, UID, GID, Mode   uint32
	Rdev                    U64
	Atime, Ctime, Mtime, Ot Time
}

// bytes is how much of the device is taken up.
func (i Inode) bytes() uint64 {
	if i.Extra < 0 && uint64(-i.Extra) > uint64(i.Size) {
		return 0
	}
	return uint64(i.Size) + uint64(i.Extra)
}

func encInode(i Inode) []byte {
	var w wbuf
	w.u64(uint64(i.Gen))
	w.u64(uint64(i.TransID))
	w.u64(uint64(i.Size))
	w.u64(i.bytes())
	w.u64(0) // block group
	w.u32(i.Nlink)
	w.u32(i.UID)
	w.u32(i.GID)
	w.u32(i.Mode)
	w.u64(uint64(i.Rdev))
	w.u64(0) // flags
	w.u64(0) // sequence
	w.zero(32)
	w.time(i.Atime)
	w.time(i.Ctime)
	w.time(i.Mtime)
	w.time(i.Ot)
	return w
}

func decInode(b []byte) (i Inode, ok bool) {
	if len(b) < 160 {
		return i, false
	}
	tm := func(o int) Time { return Time{int64(le.Uint64(b[o:])), le.Uint32(b[o+8:])} }
	return Inode{Gen: U64(le.Uint64(b)), TransID: U64(le.Uint64(b[8:])), Size: U64(le.Uint64(b[16:])),
		Extra: int64(le.Uint64(b[24:]) - le.Uint64(b[16:])), Nlink: le.Uint32(b[40:]), UID: le.Uint32(b[44:]), GID: le.Uint32(b[48:]), Mode: le.Uint32(b[52:]),
		Rdev: U64(le.Uint64(b[56:])), Atime: tm(112), Ctime: tm(124), Mtime: tm(136), Ot: tm(148)}, true
}

// DirEnt is one entry of a DIR_ITEM, DIR_INDEX or XATTR_ITEM.
type DirEnt struct {
	Loc     Key
	TransID U64
	Type    uint8
	Name    Bytes
	Data    Bytes
}

func encDirEnts(es ...DirEnt) []byte {
	var w wbuf
	for _, e := range es {
		w.key(e.Loc)
		w.u64(uint64(e.TransID))
		w.u16(uint16(len(e.Data)))
		w.u16(uint16(len(e.Name)))
		w.u8(e.Type)
		w.raw([]byte(e.Name))
		w.raw([]byte(e.Data))
	}
	return w
}

// decDirEnts decodes all complete entries.
func decDirEnts(b []byte) (es []DirEnt, ok bool) {
	for len(b) > 0 {
		if len(b) < 30 {
			return es, false
		}
		dl, nl := int(le.Uint16(b[25:])), int(le.Uint16(b[27:]))
		if 30+dl+nl > len(b) {
			return es, false
		}
		es = append(es, DirEnt{Loc: decKey(b), TransID: U64(le.Uint64(b[17:])), Type: b[29],
			Name: Bytes(b[30 : 30+nl]), Data: Bytes(b[30+nl : 30+nl+dl])})
		b = b[30+nl+dl:]
	}
	return es, true
}

func decKey(b []byte) Key { return Key{U64(le.Uint64(b)), b[8], U64(le.Uint64(b[9:]))} }

// Ext is a file extent item.
type Ext struct {
	Gen      U64
	RAM      U64
	Compr    uint8
	Type     uint8 // 0 inline, 1 regular, 2 preallocated
	Inline   []byte
	DiskByte U64
	DiskNum  U64
	Off      U64
	Num      U64
}

func encExt(e Ext) []byte {
	var w wbuf
	w.u64(uint64(e.Gen))
	w.u64(uint64(e.RAM))
	w.u8(e.Compr)
	w.u8(0)
	w.u16(0)
	w.u8(e.Type)
	if e.Type == 0 {
		w.raw(e.Inline)
	} else {
		w.u64(uint64(e.DiskByte))
		w.u64(uint64(e.DiskNum))
		w.u64(uint64(e.Off))
		w.u64(uint64(e.Num))
	}
	return w
}

func decExt(b []byte) (e Ext, ok bool) {
	if len(b) < 21 {
		return e, false
	}
	e = Ext{Gen: U64(le.Uint64(b)), RAM: U64(le.Uint64(b[8:])), Compr: b[16], Type: b[20]}
	if e.Type == 0 {
		e.Inline = b[21:]
		return e, true
	}
	if len(b) < 53 {
		return e, false
	}
	e.DiskByte, e.DiskNum = U64(le.Uint64(b[21:])), U64(le.Uint64(b[29:]))
	e.Off, e.Num = U64(le.Uint64(b[37:])), U64(le.Uint64(b[45:]))
	return e, true
}

// Stripe and ChunkRec describe a CHUNK_ITEM.
type Stripe struct{ Dev, Off U64 }

type ChunkRec struct {
	Length  U64
	Type    U64
	Stripes []Stripe
}

func encChunk(c ChunkRec) []byte {
	var w wbuf
	w.u64(uint64(c.Length))
	w.u64(oExtent)
	w.u64(65536)
	w.u64(uint64(c.Type))
	w.u32(65536)
	w.u32(65536)
	w.u32(4096)
	w.u16(uint16(len(c.Stripes)))
	w.u16(1)
	for _, s := range c.Stripes {
		w.u64(uint64(s.Dev))
		w.u64(uint64(s.Off))
		w.zero(16)
	}
	return w
}

func encRootItem(gen uint64, rootDir uint64) []byte {
	b := make([]byte, 439)
	copy(b, encInode(Inode{Gen: 1, Size: 3, Nlink: 1, Mode: 0o40755}))
	le.PutUint64(b[160:], gen)
	le.PutUint64(b[168:], rootDir)
	le.PutUint32(b[216:], 1)
	le.PutUint64(b[239:], gen)
	return b
}

func encRootRef(dirID, seq uint64, name string) []byte {
	var w wbuf
	w.u64(dirID)
	w.u64(seq)
	w.u16(uint16(len(name)))
	w.raw([]byte(name))
	return w
}

func encInodeRef(idx uint64, name string) []byte {
	var w wbuf
	w.u64(idx)
	w.u16(uint16(len(name)))
	w.raw([]byte(name))
	return w
}

// Ver is one version of one item.
type Ver struct {
	Owner uint64
	Key   Key
	Gen   uint64
	Data  []byte
}

// RefIx is the reference index: a plain sorted list of item versions.
type RefIx []Ver

func (r RefIx) Len() int      { return len(r) }
func (r RefIx) Swap(i, j int) { r[i], r[j] = r[j], r[i] }
func (r RefIx) Less(i, j int) bool {
	a, b := &r[i], &r[j]
	if a.Owner != b.Owner {
		return a.Owner < b.Owner
	}
	if c := cmpKey(a.Key, b.Key); c != 0 {
		return c < 0
	}
	return a.Gen < b.Gen
}

// newRefIx sorts and keeps the last inserted of equal versions.
func newRefIx(vs []Ver) RefIx {
	type vk struct {
		o uint64
		k Key
		g uint64
	}
	last := map[vk]int{}
	for i, v := range vs {
		last[vk{v.Owner, v.Key, v.Gen}] = i
	}
	var r RefIx
	for i, v := range vs {
		if last[vk{v.Owner, v.Key, v.Gen}] == i {
			r = append(r, v)
		}
	}
	sort.Stable(r)
	return r
}

// visible picks the version a query at generation gen has to see out of the
// versions r[i:j] of one item (ascending generation).
func (r RefIx) visible(i, j int, gen uint64) *Ver {
	best := i
	for k := i; k < j; k++ {
		if r[k].Gen <= gen {
			best = k
		}
	}
	return &r[best]
}

// group returns the end of the versions of the item at i.
func (r RefIx) group(i int) int {
	j := i + 1
	for j < len(r) && r[j].Owner == r[i].Owner && r[j].Key == r[i].Key {
		j++
	}
	return j
}

func (r RefIx) find(owner uint64, k Key, gen uint64) *Ver {
	for i := 0; i < len(r); {
		j := r.group(i)
		if r[i].Owner == owner && r[i].Key == k {
			return r.visible(i, j, gen)
		}
		i = j
	}
	return nil
}

func (r RefIx) rng(owner uint64, first, last Key, gen uint64) (out []*Ver) {
	for i := 0; i < len(r); {
		j := r.group(i)
		if r[i].Owner == owner && cmpKey(r[i].Key, first) >= 0 && cmpKey(r[i].Key, last) <= 0 {
			out = append(out, r.visible(i, j, gen))
		}
		i = j
	}
	return
}

const maxU = ^uint64(0)

func (r RefIx) all(owner uint64, t uint8, id, gen uint64) []*Ver {
	return r.rng(owner, Key{U64(id), t, 0}, Key{U64(id), t, U64(maxU)}, gen)
}

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

// putCsum stores the checksum of a metadata block.
func putCsum(b []byte) {
	for i := range b[:32] {
		b[i] = 0
	}
	le.PutUint32(b, crc32.Checksum(b[32:], castagnoli))
}
