package main

// C15 (offsets), C20, C23, C24, C28: library functions, in process.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"

	"blichmann.eu/code/btrfscue/internal/identify"
	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
	"blichmann.eu/code/btrfscue/pkg/coding"
	"blichmann.eu/code/btrfscue/pkg/ioutil"
	"blichmann.eu/code/btrfscue/pkg/uuid"
	"pgregory.net/rapid"
)

// ---- C15/offsets

type caseC15 struct {
	Blocks  U64 // device size in blocks beyond the minimum
	Tail    int // extra bytes
	BS      int
	Samples U64
	Rand    int64
}

const (
	super1 = 0x10000
	super2 = 0x4000000
	super3 = 0x4000000000
	super4 = 0x4000000000000
)

func minDevSize(bs uint64) uint64 { return super2 + 100*bs }

func genBS(t *rapid.T) int {
	return pick(t, "bs", 4096, 16384, 4096, 8192, 32768, 65536, 1024, 512)
}

// genDevExtra draws a device size beyond the minimum, with emphasis on sizes
// around the superblock copies.
func genDevExtra(t *rapid.T, bs uint64, huge bool) uint64 {
	hi := 3
	if huge {
		hi = 7
	}
	switch rapid.IntRange(0, hi).Draw(t, "sizeclass") {
	case 0:
		return 0
	case 1:
		return rapid.Uint64Range(0, 250).Draw(t, "blocks")
	case 2:
		return rapid.Uint64Range(0, 5000).Draw(t, "blocks")
	case 3:
		return pick(t, "b", uint64(1), 99, 100, 101, 199, 200, 201)
	case 4:
		return (super3-minDevSize(bs))/bs + rapid.Uint64Range(0, 500).Draw(t, "blocks") - 150
	case 5:
		return (super3-minDevSize(bs))/bs + rapid.Uint64Range(0, 1<<24).Draw(t, "blocks")
	case 6:
		return (super4-minDevSize(bs))/bs + rapid.Uint64Range(0, 500).Draw(t, "blocks") - 150
	}
	return rapid.Uint64Range(0, 1<<20).Draw(t, "blocks")
}

func genC15(t *rapid.T) any {
	c := &caseC15{BS: genBS(t), Rand: rapid.Int64Range(1, 1<<40).Draw(t, "rand")}
	if rapid.IntRange(0, 9).Draw(t, "odd") == 0 {
		c.BS = rapid.IntRange(126, 70000).Draw(t, "oddbs")
	}
	bs := uint64(c.BS)
	c.Blocks = U64(genDevExtra(t, bs, true))
	if rapid.Bool().Draw(t, "tail?") {
		c.Tail = rapid.IntRange(0, c.BS-1).Draw(t, "tail")
	}
	n := (minDevSize(bs) + uint64(c.Blocks)*bs) / bs
	c.Samples = U64(pick(t, "samples", 1000, 0, 1, 50, 199, 200, 201, 299, 300, 301, 399, 400, 401,
		rapid.Uint64Range(0, 5000).Draw(t, "sr"), min(n, 20000), min(n-1, 20000), min(n, 20000)+1, min(n, 20000)+1000))
	if n > 20000 && uint64(c.Samples) > n/2 && n < 140000 {
		c.Samples = U64(n + uint64(pick(t, "over", 0, 1, 100000)))
	}
	if rapid.IntRange(0, 99).Draw(t, "many") == 50 {
		c.Samples = U64(rapid.Uint64Range(20000, 150000).Draw(t, "manyr"))
	}
	return c
}

func checkC15(x *Ctx, v any) error {
	c := v.(*caseC15)
	bs := uint64(c.BS)
	size := minDevSize(bs) + uint64(c.Blocks)*bs + uint64(c.Tail)
	got0, err := btrfs.CheckDeviceSize(sizeSeeker(size), bs)
	if err != nil || got0 != size {
		return bad("CheckDeviceSize(%d, %d) = %d, %v", size, bs, got0, err)
	}
	rand.Seed(c.Rand)
	numBlocks := size / bs
	want := min(uint64(c.Samples), numBlocks)
	s := identify.MakeSampleOffsets(size, bs, uint64(c.Samples))
	what := fmt.Sprintf("MakeSampleOffsets(%d, %d, %d)", size, bs, c.Samples)
	aligned := super1%bs == 0
	if uint64(len(s)) != want {
		return bad("%s: %d samples, want %d", what, len(s), want)
	}
	in := map[uint64]bool{}
	for i, o := range s {
		if o > size-bs {
			return bad("%s: sample %d at %d: no whole block on the device (%d bytes)", what, i, o, size)
		}
		if i > 0 && o <= s[i-1] {
			return bad("%s: samples %d and %d not ascending: %d, %d", what, i-1, i, s[i-1], o)
		}
		if aligned && o%bs != 0 {
			return bad("%s: sample at %d is not a block", what, o)
		}
		in[o] = true
	}
	var near []uint64
	for _, sb := range []uint64{super1, super2, super3, super4} {
		for i := uint64(0); i < 100; i++ {
			if o := sb + i*bs; o <= size-bs {
				near = append(near, o)
			}
		}
	}
	nset := map[uint64]bool{}
	for _, o := range near {
		nset[o] = true
	}
	if uint64(len(nset)) <= want {
		for o := range nset {
			if !in[o] {
				return bad("%s: block %d near a superblock copy is not sampled", what, o)
			}
		}
		x.Label("superblock vicinity checked")
	}
	x.LabelIf(uint64(c.Samples) > numBlocks, "more samples than blocks")
	x.LabelIf(uint64(len(nset)) > want, "fewer samples than superblock vicinity")
	x.LabelIf(size >= super3, "beyond third superblock")
	x.LabelIf(size >= super4, "beyond fourth superblock")
	x.LabelIf(c.Blocks < 100, "minimal device")
	x.NonTrivialIf(want > 0 && (c.Blocks < 400 || uint64(c.Samples) > numBlocks || uint64(len(nset)) >= want || size >= super3))
	return nil
}

// sizeSeeker is a device of which only the size can be asked.
type sizeSeeker uint64

func (s sizeSeeker) Read(b []byte) (int, error) { return 0, io.EOF }
func (s sizeSeeker) Seek(o int64, w int) (int64, error) {
	if w == io.SeekEnd {
		return int64(s) + o, nil
	}
	return o, nil
}

// ---- C20/fields

type field struct {
	name string
	off  int
	kind string // u8 u16 u32 u64 uuid csum key time
	get  func(b []byte) any
}

type layout struct {
	name   string
	size   int
	fields []field
}

func f[T any](name string, off int, kind string, get func(b []byte) T) field {
	return field{name, off, kind, func(b []byte) any { return get(b) }}
}

var layouts = []layout{
	{"Header", 101, []field{
		f("CSum", 0, "csum", func(b []byte) btrfs.CSum { return btrfs.Header(b).CSum() }),
		f("FSID", 32, "uuid", func(b []byte) uuid.UUID { return btrfs.Header(b).FSID() }),
		f("ByteNr", 48, "u64", func(b []byte) uint64 { return btrfs.Header(b).ByteNr() }),
		f("Flags", 56, "u64", func(b []byte) uint64 { return btrfs.Header(b).Flags() }),
		f("ChunkTreeUUID", 64, "uuid", func(b []byte) uuid.UUID { return btrfs.Header(b).ChunkTreeUUID() }),
		f("Generation", 80, "u64", func(b []byte) uint64 { return btrfs.Header(b).Generation() }),
		f("Owner", 88, "u64", func(b []byte) uint64 { return btrfs.Header(b).Owner() }),
		f("NrItems", 96, "u32", func(b []byte) uint32 { return btrfs.Header(b).NrItems() }),
		f("Level", 100, "u8", func(b []byte) uint8 { return btrfs.Header(b).Level() }),
	}},
	{"Item", 25, []field{
		f("Key", 0, "key", func(b []byte) btrfs.Key { return btrfs.Item(b).Key() }),
		f("Offset", 17, "u32", func(b []byte) uint32 { return btrfs.Item(b).Offset() }),
		f("Size", 21, "u32", func(b []byte) uint32 { return btrfs.Item(b).Size() }),
	}},
	{"DevExtent", 48, []field{
		f("ChunkTree", 0, "u64", func(b []byte) uint64 { return btrfs.DevExtent(b).ChunkTree() }),
		f("ChunkObjectID", 8, "u64", func(b []byte) uint64 { return btrfs.DevExtent(b).ChunkObjectID() }),
		f("ChunkOffset", 16, "u64", func(b []byte) uint64 { return btrfs.DevExtent(b).ChunkOffset() }),
		f("Length", 24, "u64", func(b []byte) uint64 { return btrfs.DevExtent(b).Length() }),
		f("ChunkTreeUUID", 32, "uuid", func(b []byte) uuid.UUID { return btrfs.DevExtent(b).ChunkTreeUUID() }),
	}},
	{"DevItem", 98, []field{
		f("DevID", 0, "u64", func(b []byte) uint64 { return btrfs.DevItem(b).DevID() }),
		f("TotalBytes", 8, "u64", func(b []byte) uint64 { return btrfs.DevItem(b).TotalBytes() }),
		f("BytesUsed", 16, "u64", func(b []byte) uint64 { return btrfs.DevItem(b).BytesUsed() }),
		f("IOAlign", 24, "u32", func(b []byte) uint32 { return btrfs.DevItem(b).IOAlign() }),
		f("IOWidth", 28, "u32", func(b []byte) uint32 { return btrfs.DevItem(b).IOWidth() }),
		f("SectorSize", 32, "u32", func(b []byte) uint32 { return btrfs.DevItem(b).SectorSize() }),
		f("Type", 36, "u64", func(b []byte) uint64 { return btrfs.DevItem(b).Type() }),
		f("Generation", 44, "u64", func(b []byte) uint64 { return btrfs.DevItem(b).Generation() }),
		f("StartOffset", 52, "u64", func(b []byte) uint64 { return btrfs.DevItem(b).StartOffset() }),
		f("DevGroup", 60, "u32", func(b []byte) uint32 { return btrfs.DevItem(b).DevGroup() }),
		f("SeekSpeed", 64, "u8", func(b []byte) uint8 { return btrfs.DevItem(b).SeekSpeed() }),
		f("Bandwidth", 65, "u8", func(b []byte) uint8 { return btrfs.DevItem(b).Bandwidth() }),
		f("UUID", 66, "uuid", func(b []byte) uuid.UUID { return btrfs.DevItem(b).UUID() }),
		f("FSID", 82, "uuid", func(b []byte) uuid.UUID { return btrfs.DevItem(b).FSID() }),
	}},
	{"Stripe", 32, []field{
		f("DevID", 0, "u64", func(b []byte) uint64 { return btrfs.Stripe(b).DevID() }),
		f("Offset", 8, "u64", func(b []byte) uint64 { return btrfs.Stripe(b).Offset() }),
		f("DevUUID", 16, "uuid", func(b []byte) uuid.UUID { return btrfs.Stripe(b).DevUUID() }),
	}},
	{"Chunk", 48 + 3*32, []field{
		f("Length", 0, "u64", func(b []byte) uint64 { return btrfs.Chunk(b).Length() }),
		f("Owner", 8, "u64", func(b []byte) uint64 { return btrfs.Chunk(b).Owner() }),
		f("StripeLen", 16, "u64", func(b []byte) uint64 { return btrfs.Chunk(b).StripeLen() }),
		f("Type", 24, "u64", func(b []byte) uint64 { return btrfs.Chunk(b).Type() }),
		f("IOAlign", 32, "u32", func(b []byte) uint32 { return btrfs.Chunk(b).IOAlign() }),
		f("IOWidth", 36, "u32", func(b []byte) uint32 { return btrfs.Chunk(b).IOWidth() }),
		f("SectorSize", 40, "u32", func(b []byte) uint32 { return btrfs.Chunk(b).SectorSize() }),
		f("NumStripes", 44, "u16", func(b []byte) uint16 { return btrfs.Chunk(b).NumStripes() }),
		f("SubStripes", 46, "u16", func(b []byte) uint16 { return btrfs.Chunk(b).SubStripes() }),
		f("Stripe(0).DevID", 48, "u64", func(b []byte) uint64 { return btrfs.Chunk(b).Stripe(0).DevID() }),
		f("Stripe(0).Offset", 56, "u64", func(b []byte) uint64 { return btrfs.Chunk(b).Stripe(0).Offset() }),
		f("Stripe(0).DevUUID", 64, "uuid", func(b []byte) uuid.UUID { return btrfs.Chunk(b).Stripe(0).DevUUID() }),
		f("Stripe(1).DevID", 80, "u64", func(b []byte) uint64 { return btrfs.Chunk(b).Stripe(1).DevID() }),
		f("Stripe(2).Offset", 120, "u64", func(b []byte) uint64 { return btrfs.Chunk(b).Stripe(2).Offset() }),
	}},
	{"InodeItem", 160, inodeFields(0, func(b []byte) btrfs.InodeItem { return btrfs.InodeItem(b) })},
	{"BlockGroupItem", 24, []field{
		f("Used", 0, "u64", func(b []byte) uint64 { return btrfs.BlockGroupItem(b).Used() }),
		f("ChunkObjectID", 8, "u64", func(b []byte) uint64 { return btrfs.BlockGroupItem(b).ChunkObjectID() }),
		f("Flags", 16, "u64", func(b []byte) uint64 { return btrfs.BlockGroupItem(b).Flags() }),
	}},
	{"FileExtentItem", 53, []field{
		f("Generation", 0, "u64", func(b []byte) uint64 { return btrfs.FileExtentItem(b).Generation() }),
		f("RAMBytes", 8, "u64", func(b []byte) uint64 { return btrfs.FileExtentItem(b).RAMBytes() }),
		f("Compression", 16, "u8", func(b []byte) uint8 { return btrfs.FileExtentItem(b).Compression() }),
		f("Encryption", 17, "u8", func(b []byte) uint8 { return btrfs.FileExtentItem(b).Encryption() }),
		f("OtherEncoding", 18, "u16", func(b []byte) uint16 { return btrfs.FileExtentItem(b).OtherEncoding() }),
		f("Type", 20, "u8", func(b []byte) uint8 { return btrfs.FileExtentItem(b).Type() }),
		f("DiskByteNr", 21, "u64", func(b []byte) uint64 { return btrfs.FileExtentItem(b).DiskByteNr() }),
		f("DiskNumBytes", 29, "u64", func(b []byte) uint64 { return btrfs.FileExtentItem(b).DiskNumBytes() }),
		f("Offset", 37, "u64", func(b []byte) uint64 { return btrfs.FileExtentItem(b).Offset() }),
		f("NumBytes", 45, "u64", func(b []byte) uint64 { return btrfs.FileExtentItem(b).NumBytes() }),
	}},
	{"CSumItem", 32, []field{
		f("CSum", 0, "csum", func(b []byte) btrfs.CSum { return btrfs.CSumItem(b).CSum() }),
	}},
	{"RootItem", 439, append(inodeFields(0, func(b []byte) btrfs.InodeItem { return btrfs.RootItem(b).Inode() }), []field{
		f("Generation", 160, "u64", func(b []byte) uint64 { return btrfs.RootItem(b).Generation() }),
		f("RootDirID", 168, "u64", func(b []byte) uint64 { return btrfs.RootItem(b).RootDirID() }),
		f("ByteNr", 176, "u64", func(b []byte) uint64 { return btrfs.RootItem(b).ByteNr() }),
		f("ByteLimit", 184, "u64", func(b []byte) uint64 { return btrfs.RootItem(b).ByteLimit() }),
		f("BytesUsed", 192, "u64", func(b []byte) uint64 { return btrfs.RootItem(b).BytesUsed() }),
		f("LastSnapshot", 200, "u64", func(b []byte) uint64 { return btrfs.RootItem(b).LastSnapshot() }),
		f("Flags", 208, "u64", func(b []byte) uint64 { return btrfs.RootItem(b).Flags() }),
		f("Refs", 216, "u32", func(b []byte) uint32 { return btrfs.RootItem(b).Refs() }),
		f("DropProgress", 220, "key", func(b []byte) btrfs.Key { return btrfs.RootItem(b).DropProgress() }),
		f("DropLevel", 237, "u8", func(b []byte) uint8 { return btrfs.RootItem(b).DropLevel() }),
		f("Level", 238, "u8", func(b []byte) uint8 { return btrfs.RootItem(b).Level() }),
		f("GenerationV2", 239, "u64", func(b []byte) uint64 { return btrfs.RootItem(b).GenerationV2() }),
		f("UUID", 247, "uuid", func(b []byte) uuid.UUID { return btrfs.RootItem(b).UUID() }),
		f("ParentUUID", 263, "uuid", func(b []byte) uuid.UUID { return btrfs.RootItem(b).ParentUUID() }),
		f("ReceivedUUID", 279, "uuid", func(b []byte) uuid.UUID { return btrfs.RootItem(b).ReceivedUUID() }),
		f("CTransID", 295, "u64", func(b []byte) uint64 { return btrfs.RootItem(b).CTransID() }),
		f("OTransID", 303, "u64", func(b []byte) uint64 { return btrfs.RootItem(b).OTransID() }),
		f("STransID", 311, "u64", func(b []byte) uint64 { return btrfs.RootItem(b).STransID() }),
		f("RTransID", 319, "u64", func(b []byte) uint64 { return btrfs.RootItem(b).RTransID() }),
		f("Ctime", 327, "time", func(b []byte) time.Time { return btrfs.RootItem(b).Ctime() }),
		f("Otime", 339, "time", func(b []byte) time.Time { return btrfs.RootItem(b).Otime() }),
		f("Stime", 351, "time", func(b []byte) time.Time { return btrfs.RootItem(b).Stime() }),
		f("Rtime", 363, "time", func(b []byte) time.Time { return btrfs.RootItem(b).Rtime() }),
		f("Reserved[0]", 375, "u64", func(b []byte) uint64 { return btrfs.RootItem(b).Reserved()[0] }),
		f("Reserved[3]", 399, "u64", func(b []byte) uint64 { return btrfs.RootItem(b).Reserved()[3] }),
		f("Reserved[7]", 431, "u64", func(b []byte) uint64 { return btrfs.RootItem(b).Reserved()[7] }),
	}...)},
	{"ExtentItem", 24, []field{
		f("Refs", 0, "u64", func(b []byte) uint64 { return btrfs.ExtentItem(b).Refs() }),
		f("Generation", 8, "u64", func(b []byte) uint64 { return btrfs.ExtentItem(b).Generation() }),
		f("Flags", 16, "u64", func(b []byte) uint64 { return btrfs.ExtentItem(b).Flags() }),
	}},
	{"RootRef", 18, []field{
		f("DirID", 0, "u64", func(b []byte) uint64 { return btrfs.RootRef(b).DirID() }),
		f("Sequence", 8, "u64", func(b []byte) uint64 { return btrfs.RootRef(b).Sequence() }),
		f("NameLen", 16, "u16", func(b []byte) uint16 { return btrfs.RootRef(b).NameLen() }),
	}},
	{"InodeRefItem", 10, []field{
		f("Index", 0, "u64", func(b []byte) uint64 { return btrfs.InodeRefItem(b).Index() }),
		f("NameLen", 8, "u16", func(b []byte) uint16 { return btrfs.InodeRefItem(b).NameLen() }),
	}},
	{"DirItem", 30, []field{
		f("Location", 0, "key", func(b []byte) btrfs.Key { return btrfs.DirItem(b).Location() }),
		f("TransID", 17, "u64", func(b []byte) uint64 { return btrfs.DirItem(b).TransID() }),
		f("DataLen", 25, "u16", func(b []byte) uint16 { return btrfs.DirItem(b).DataLen() }),
		f("NameLen", 27, "u16", func(b []byte) uint16 { return btrfs.DirItem(b).NameLen() }),
		f("Type", 29, "u8", func(b []byte) uint8 { return btrfs.DirItem(b).Type() }),
	}},
	{"Slice", 17, []field{
		f("SliceUint16LE", 0, "u16", btrfs.SliceUint16LE),
		f("SliceUint32LE", 0, "u32", btrfs.SliceUint32LE),
		f("SliceUint64LE", 0, "u64", btrfs.SliceUint64LE),
		f("SliceUUID", 0, "uuid", btrfs.SliceUUID),
		f("SliceKey", 0, "key", btrfs.SliceKey),
		f("SliceTimeLE", 0, "time", btrfs.SliceTimeLE),
	}},
}

func inodeFields(base int, in func(b []byte) btrfs.InodeItem) []field {
	return []field{
		f("Inode.Generation", 0, "u64", func(b []byte) uint64 { return in(b).Generation() }),
		f("Inode.TransID", 8, "u64", func(b []byte) uint64 { return in(b).TransID() }),
		f("Inode.Size", 16, "u64", func(b []byte) uint64 { return in(b).Size() }),
		f("Inode.BlockGroup", 32, "u64", func(b []byte) uint64 { return in(b).BlockGroup() }),
		f("Inode.Nlink", 40, "u32", func(b []byte) uint32 { return in(b).Nlink() }),
		f("Inode.UID", 44, "u32", func(b []byte) uint32 { return in(b).UID() }),
		f("Inode.GID", 48, "u32", func(b []byte) uint32 { return in(b).GID() }),
		f("Inode.Mode", 52, "u32", func(b []byte) uint32 { return in(b).Mode() }),
		f("Inode.Rdev", 56, "u64", func(b []byte) uint64 { return in(b).Rdev() }),
		f("Inode.Flags", 64, "u64", func(b []byte) uint64 { return in(b).Flags() }),
		f("Inode.Sequence", 72, "u64", func(b []byte) uint64 { return in(b).Sequence() }),
		f("Inode.Reserved[0]", 80, "u64", func(b []byte) uint64 { return in(b).Reserved()[0] }),
		f("Inode.Reserved[1]", 88, "u64", func(b []byte) uint64 { return in(b).Reserved()[1] }),
		f("Inode.Reserved[2]", 96, "u64", func(b []byte) uint64 { return in(b).Reserved()[2] }),
		f("Inode.Reserved[3]", 104, "u64", func(b []byte) uint64 { return in(b).Reserved()[3] }),
		f("Inode.Atime", 112, "time", func(b []byte) time.Time { return in(b).Atime() }),
		f("Inode.Ctime", 124, "time", func(b []byte) time.Time { return in(b).Ctime() }),
		f("Inode.Mtime", 136, "time", func(b []byte) time.Time { return in(b).Mtime() }),
		f("Inode.Rtime", 148, "time", func(b []byte) time.Time { return in(b).Rtime() }),
	}
}

func kindSize(k string) int {
	return map[string]int{"u8": 1, "u16": 2, "u32": 4, "u64": 8, "uuid": 16, "csum": 32, "key": 17, "time": 12}[k]
}

func decodeField(b []byte, fd field) any {
	o := b[fd.off:]
	// Little-endian, byte by byte.
	num := func(n int) (v uint64) {
		for i := n - 1; i >= 0; i-- {
			v = v<<8 | uint64(o[i])
		}
		return
	}
	switch fd.kind {
	case "u8":
		return uint8(num(1))
	case "u16":
		return uint16(num(2))
	case "u32":
		return uint32(num(4))
	case "u64":
		return num(8)
	case "uuid":
		var u uuid.UUID
		copy(u[:], o)
		return u
	case "csum":
		var c btrfs.CSum
		copy(c[:], o)
		return c
	case "key":
		k := decKey(o)
		return btrfs.Key{ObjectID: uint64(k.ID), Type: k.Type, Offset: uint64(k.Off)}
	}
	return nil
}

type caseC20 struct {
	Struct string
	Data   Hex
	// Sub-structures.
	Name, Value Bytes
}

func genC20(t *rapid.T) any {
	l := pick(t, "struct", layouts...)
	c := &caseC20{Struct: l.name}
	n := l.size + rapid.IntRange(0, 3).Draw(t, "more")*7
	switch rapid.IntRange(0, 3).Draw(t, "fill") {
	case 0: // one non-zero byte
		c.Data = make([]byte, n)
		c.Data[rapid.IntRange(0, n-1).Draw(t, "pos")] = rapid.Byte().Draw(t, "val")
	case 1: // one field all ones
		c.Data = make([]byte, n)
		fd := pick(t, "field", l.fields...)
		for i := 0; i < kindSize(fd.kind); i++ {
			c.Data[fd.off+i] = 0xff
		}
	default:
		c.Data = rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "data")
	}
	nl := pick(t, "nl", 0, 1, 5, 40, 254, 255)
	c.Name = Bytes(rapid.SliceOfN(rapid.Byte(), nl, nl).Draw(t, "name"))
	vl := pick(t, "vl", 0, 1, 7, 300, 2000, 4000)
	c.Value = Bytes(patternBytes(uint64(nl+vl), 0, uint64(vl)))
	return c
}

func checkC20(x *Ctx, v any) error {
	c := v.(*caseC20)
	var l *layout
	for i := range layouts {
		if layouts[i].name == c.Struct {
			l = &layouts[i]
		}
	}
	for _, fd := range l.fields {
		b := append([]byte(nil), c.Data...)
		if fd.kind == "time" {
			// Nanoseconds of a valid time are below 10^9.
			le.PutUint32(b[fd.off+8:], le.Uint32(b[fd.off+8:])%1000000000)
			tm := fd.get(b).(time.Time)
			sec, ns := int64(le.Uint64(b[fd.off:])), le.Uint32(b[fd.off+8:])
			if tm.Unix() != sec || uint32(tm.Nanosecond()) != ns {
				return bad("%s.%s: got %d.%09d, want %d.%09d from %x", l.name, fd.name, tm.Unix(), tm.Nanosecond(), sec, ns, b)
			}
			continue
		}
		if got, want := fd.get(b), decodeField(b, fd); got != want {
			return bad("%s.%s: got %v, want %v from %x", l.name, fd.name, got, want, b)
		}
	}
	x.Label(l.name)
	zero := true
	for _, b := range c.Data {
		zero = zero && b == 0
	}
	x.NonTrivialIf(!zero)
	// Names and values behind the fixed part.
	name, val := string(c.Name), string(c.Value)
	switch c.Struct {
	case "DirItem":
		b := encDirEnts(DirEnt{decKey(c.Data), 7, c.Data[29], c.Name, c.Value})
		d := btrfs.DirItem(b)
		if d.Name() != name || d.Data() != val || int(d.NameLen()) != len(name) || int(d.DataLen()) != len(val) {
			return bad("DirItem: name %q data %q, want %q %q", d.Name(), d.Data(), name, val)
		}
		if d.IsDir() != (c.Data[29] == ftDir) || d.IsSubvolume() != (c.Data[8] == tRootItem) {
			return bad("DirItem type %d location type %d: IsDir %v IsSubvolume %v", c.Data[29], c.Data[8], d.IsDir(), d.IsSubvolume())
		}
		for ty := 0; ty < 256; ty++ {
			b[29], b[8] = byte(ty), byte(ty)
			if d.IsDir() != (ty == ftDir) || d.IsSubvolume() != (ty == tRootItem) {
				return bad("DirItem type/location type %d: IsDir %v IsSubvolume %v", ty, d.IsDir(), d.IsSubvolume())
			}
		}
	case "Chunk":
		// Up to as many stripes as fit into the largest leaf.
		n := []int{3, 255, 256, 257, 300, 1000, 2040}[int(c.Data[0])%7]
		ch := btrfs.Chunk(patternBytes(uint64(c.Data[1])+1, 0, uint64(48+32*n)))
		for _, i := range []int{n - 1, n / 2, 0, int(c.Data[2]) % n} {
			b := ch[48+32*i:]
			if s := ch.Stripe(uint16(i)); s.DevID() != le.Uint64(b) || s.Offset() != le.Uint64(b[8:]) || string(s[16:32]) != string(b[16:32]) {
				return bad("Chunk.Stripe(%d) of %d: device %d offset %d, want %d %d", i, n, s.DevID(), s.Offset(), le.Uint64(b), le.Uint64(b[8:]))
			}
		}
	case "RootRef":
		if r := btrfs.RootRef(encRootRef(1, 2, name)); r.Name() != name {
			return bad("RootRef: name %q, want %q", r.Name(), name)
		}
	case "InodeRefItem":
		if r := btrfs.InodeRefItem(encInodeRef(3, name)); r.Name() != name {
			return bad("InodeRefItem: name %q, want %q", r.Name(), name)
		}
	case "FileExtentItem":
		e := btrfs.FileExtentItem(encExt(Ext{Gen: 1, RAM: U64(len(val)), Inline: []byte(val)}))
		if !e.IsInline() || e.Data() != val {
			return bad("FileExtentItem: inline %v data %q, want %q", e.IsInline(), e.Data(), val)
		}
		for ty := 0; ty < 256; ty++ {
			e[20] = byte(ty)
			if e.IsInline() != (ty == 0) {
				return bad("FileExtentItem type %d: IsInline %v", ty, e.IsInline())
			}
		}
	case "Item":
		b := append(append([]byte(nil), c.Data[:25]...), val...)
		le.PutUint32(b[21:], uint32(len(val)))
		if got := btrfs.Item(b).Data(); string(got) != val {
			return bad("Item.Data: %q, want %q", got, val)
		}
	case "Header":
		if got := btrfs.Header(c.Data).IsLeaf(); got != (c.Data[100] == 0) {
			return bad("Header.IsLeaf: %v with level %d", got, c.Data[100])
		}
	case "ExtentItem":
		for n := 0; n <= 30; n++ {
			if got := btrfs.ExtentItem(make([]byte, n)).IsCompatV0(); got != (n < 24) {
				return bad("ExtentItem of %d bytes: IsCompatV0 %v", n, got)
			}
		}
	case "RootItem":
		b := append([]byte(nil), c.Data...)
		if got := btrfs.RootItem(b).IsGenerationV2(); got != (le.Uint64(b[160:]) == le.Uint64(b[239:])) {
			return bad("RootItem.IsGenerationV2: %v", got)
		}
		copy(b[239:247], b[160:168])
		if !btrfs.RootItem(b).IsGenerationV2() {
			return bad("RootItem.IsGenerationV2: false for equal generations")
		}
	case "Slice":
		// The sequential parser reads the same values one after the other.
		p := btrfs.NewParseBuffer(append([]byte(nil), c.Data...))
		d := c.Data
		a, b, e := p.NextUint8(), p.NextUint16(), p.NextUint32()
		g := p.NextUint64()
		if a != d[0] || b != le.Uint16(d[1:]) || e != le.Uint32(d[3:]) || g != le.Uint64(d[7:]) || p.Offset() != 15 || p.Unread() != len(d)-15 {
			return bad("ParseBuffer: %d %d %d %d at %d, from %x", a, b, e, g, p.Offset(), d)
		}
		p.Rewind()
		if !bytes.Equal(p.Next(4), d[:4]) {
			return bad("ParseBuffer: Rewind/Next")
		}
		p.SetOffset(2)
		le.PutUint32(d[10:], le.Uint32(d[10:])%1000000000)
		q := btrfs.NewParseBuffer(d)
		q.SetOffset(2)
		if tm := q.NextTime(); tm.Unix() != int64(le.Uint64(d[2:])) || uint32(tm.Nanosecond()) != le.Uint32(d[10:]) {
			return bad("ParseBuffer.NextTime: %v from %x", tm, d)
		}
	}
	return nil
}

// ---- C20/leaf: item tables

type leafItem struct {
	Key  Key
	Len  int
	Seed U64
}

type caseLeaf struct {
	BS         int
	Owner, Gen U64
	Items      []leafItem
	Gap        int // bytes left unused between data areas
}

func genLeafItems(t *rapid.T, room int, maxN int) (out []leafItem) {
	n := rapid.IntRange(1, maxN).Draw(t, "nitems")
	for i := 0; i < n; i++ {
		it := leafItem{Key: genKey(t, "lk"), Seed: U64(i), Len: pick(t, "ilen", 0, 1, 8, 24, 53, 160, 439, rapid.IntRange(0, 3000).Draw(t, "il"))}
		if room -= itemLen + it.Len; room < 0 {
			break
		}
		out = append(out, it)
	}
	return
}

func genC20leaf(t *rapid.T) any {
	c := &caseLeaf{BS: pick(t, "bs", 4096, 16384, 65536, 1024), Owner: U64(pick(t, "owner", poolOwners...)), Gen: U64(pick(t, "gen", poolGens...)),
		Gap: pick(t, "gap", 0, 0, 3)}
	c.Items = genLeafItems(t, c.BS-hdrLen-200, 40)
	return c
}

// encLeaf lays out a leaf the way BTRFS does: item headers from the front,
// data from the back.
func encLeaf(bs int, fsid []byte, owner, gen, bytenr uint64, vs []Ver, gap int) []byte {
	b := make([]byte, bs)
	copy(b[32:], fsid)
	le.PutUint64(b[48:], bytenr)
	// Fields that do not matter vary with the block number.
	flags, tree := uint64(1|1<<56), patternBytes(99, 0, 16)
	switch bytenr % 11 {
	case 0:
		flags |= 2 // relocated
	case 1:
		flags = 0
	case 2:
		flags = ^uint64(0)
	case 3:
		le.PutUint64(b[48:], 0)
	case 4:
		tree = make([]byte, 16)
	case 5:
		copy(tree, fsid)
	}
	le.PutUint64(b[56:], flags)
	copy(b[64:], tree)
	le.PutUint64(b[80:], gen)
	le.PutUint64(b[88:], owner)
	le.PutUint32(b[96:], uint32(len(vs)))
	end := bs
	for i, v := range vs {
		end -= len(v.Data)
		if end < hdrLen+itemLen*(i+1) {
			panic("leaf overflow")
		}
		copy(b[end:], v.Data)
		var w wbuf
		w.key(v.Key)
		w.u32(uint32(end - hdrLen))
		w.u32(uint32(len(v.Data)))
		copy(b[hdrLen+itemLen*i:], w)
		if end-gap > hdrLen+itemLen*len(vs)+100 {
			end -= gap
		}
	}
	putCsum(b)
	if bytenr%13 == 0 { // another kind of checksum
		copy(b, patternBytes(bytenr, 0, 32))
	}
	return b
}

func checkC20leaf(x *Ctx, v any) error {
	c := v.(*caseLeaf)
	var vs []Ver
	for _, it := range c.Items {
		vs = append(vs, Ver{uint64(c.Owner), it.Key, uint64(c.Gen), patternBytes(uint64(it.Seed), 0, uint64(it.Len))})
	}
	gap := c.Gap
	l := btrfs.Leaf(encLeaf(c.BS, testFSID[:], uint64(c.Owner), uint64(c.Gen), 0x1000, vs, gap))
	if l.Len() != len(vs) || len(l.Items()) != len(vs) {
		return bad("leaf of %d items: Len %d, Items %d", len(vs), l.Len(), len(l.Items()))
	}
	h := l.Header()
	if h.Owner() != uint64(c.Owner) || h.Generation() != uint64(c.Gen) || h.FSID() != testFSID || !h.IsLeaf() {
		return bad("leaf header: owner %d generation %d", h.Owner(), h.Generation())
	}
	items := l.Items()
	for i, w := range vs {
		if l.Key(i) != rkey(w.Key) || l.Item(i).Key() != rkey(w.Key) || items[i].Key() != rkey(w.Key) {
			return bad("leaf item %d: key %v, want %v", i, l.Key(i), w.Key)
		}
		if !bytes.Equal(l.Data(i), w.Data) || int(l.Item(i).Size()) != len(w.Data) {
			return bad("leaf item %d: data %x, want %x", i, l.Data(i), w.Data)
		}
	}
	x.LabelIf(len(vs) > 10, "more than 10 items")
	x.NonTrivialIf(len(vs) > 1)
	return nil
}

// ---- C20/keys

type caseKeys struct{ Keys []Key }

func genKeys(t *rapid.T) any {
	c := &caseKeys{}
	for i := rapid.IntRange(2, 6).Draw(t, "n"); i > 0; i-- {
		c.Keys = append(c.Keys, genKey(t, "k"))
		if rapid.Bool().Draw(t, "sib") {
			k := c.Keys[0]
			switch rapid.IntRange(0, 3).Draw(t, "which") {
			case 0:
				k.ID = U64(genU(t, "id", poolIDs, rapid.Uint64()))
			case 1:
				k.Off = U64(genU(t, "off", poolOffs, rapid.Uint64()))
			case 2:
				k.Type = uint8(genU(t, "ty", poolTypes, rapid.Uint64Range(0, 255)))
			}
			c.Keys = append(c.Keys, k)
		}
	}
	return c
}

func sign(i int) int {
	switch {
	case i < 0:
		return -1
	case i > 0:
		return 1
	}
	return 0
}

func checkKeys(x *Ctx, v any) error {
	c := v.(*caseKeys)
	var vs []Ver
	for i, a := range c.Keys {
		for _, b := range c.Keys {
			if got, want := btrfs.KeyCompare(rkey(a), rkey(b)), cmpKey(a, b); sign(got) != want {
				return bad("KeyCompare(%v, %v) = %d, want sign %d", a, b, got, want)
			}
		}
		vs = append(vs, Ver{oFS, a, 1, []byte{byte(i)}})
	}
	p := x.Path("m.db")
	buildIndex(p, vs)
	ix := openAt(p, maxU)
	defer ix.Close()
	r, d := ix.Range(oFS, btrfs.Key{}, btrfs.Key{ObjectID: maxU, Type: 255, Offset: maxU})
	got, err := drain(r, d, len(vs)+1)
	if err != nil {
		return err
	}
	for i := 1; i < len(got); i++ {
		if btrfs.KeyCompare(got[i-1].key, got[i].key) >= 0 {
			return bad("index yields %v before %v, KeyCompare disagrees", got[i-1].key, got[i].key)
		}
	}
	x.NonTrivialIf(len(got) > 1)
	x.LabelIf(len(got) < len(vs), "equal keys")
	return nil
}

// ---- C23

type caseC23 struct {
	ID   Hex
	Text Bytes // candidate text
}

const hexLower = "0123456789abcdef"

func genC23(t *rapid.T) any {
	c := &caseC23{}
	switch rapid.IntRange(0, 9).Draw(t, "idkind") {
	case 0:
		c.ID = make([]byte, 16)
	case 1:
		c.ID = bytes.Repeat([]byte{255}, 16)
	case 2, 3:
		c.ID = bytes.Repeat([]byte{pick(t, "fill", byte(0), 255)}, 16)
		c.ID[rapid.IntRange(0, 15).Draw(t, "pos")] = rapid.Byte().Draw(t, "b")
	default:
		c.ID = rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "id")
	}
	switch rapid.IntRange(0, 3).Draw(t, "textkind") {
	case 0:
		c.Text = Bytes(rapid.String().Draw(t, "text"))
	case 1:
		c.Text = Bytes(rapid.SliceOfN(rapid.SampledFrom([]byte("0123456789abcdefABCDEF-g{} \n")), 0, 45).Draw(t, "text"))
	default:
		n := pick(t, "ndig", 32, 32, 32, 32, 31, 33, 30, 34, 0, 16)
		digs := rapid.SliceOfN(rapid.SampledFrom([]byte("0123456789abcdefABCDEF")), n, n).Draw(t, "digs")
		var b []byte
		for i, d := range digs {
			for rapid.IntRange(0, 7).Draw(t, "dash") == 0 {
				b = append(b, '-')
			}
			if rapid.IntRange(0, 199).Draw(t, "spoil") == 0 {
				d = pick(t, "bad", byte('g'), 'x', ' ', 'G', '/', ':', '@', '`', 0, 0xff)
			}
			b = append(b, d)
			_ = i
		}
		c.Text = Bytes(b)
	}
	return c
}

func refParse(s string) (u uuid.UUID, ok bool) {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '-' {
			continue
		}
		d := strings.IndexByte(hexLower, s[i]|0x20)
		if s[i] >= '0' && s[i] <= '9' {
			d = int(s[i] - '0')
		} else if !(s[i] >= 'a' && s[i] <= 'f' || s[i] >= 'A' && s[i] <= 'F') {
			return u, false
		}
		if n >= 32 {
			return u, false
		}
		u[n/2] |= byte(d) << (4 * uint(1-n%2))
		n++
	}
	return u, n == 32
}

func checkC23(x *Ctx, v any) error {
	c := v.(*caseC23)
	var id uuid.UUID
	copy(id[:], c.ID)
	want := ""
	for i, b := range id {
		if i == 4 || i == 6 || i == 8 || i == 10 {
			want += "-"
		}
		want += string(hexLower[b>>4]) + string(hexLower[b&15])
	}
	s := id.String()
	if s != want {
		return bad("String of %x: %q, want %q", id[:], s, want)
	}
	for _, txt := range []string{s, strings.ToUpper(s), strings.ReplaceAll(s, "-", "")} {
		if g, err := uuid.New(txt); err != nil || g != id {
			return bad("New(%q) = %x, %v; want %x", txt, g[:], err, id[:])
		}
	}
	zero, ones := true, true
	for _, b := range id {
		zero, ones = zero && b == 0, ones && b == 255
	}
	if id.IsZero() != zero || id.IsAllFs() != ones {
		return bad("%s: IsZero %v IsAllFs %v", s, id.IsZero(), id.IsAllFs())
	}
	x.LabelIf(zero || ones, "special id")
	// Arbitrary text.
	ref, ok := refParse(string(c.Text))
	u := id
	err := u.Set(string(c.Text))
	switch {
	case ok && (err != nil || u != ref):
		return bad("Set(%q) = %v, id %x; want %x", string(c.Text), err, u[:], ref[:])
	case !ok && err == nil:
		return bad("Set(%q) accepted as %s", string(c.Text), u)
	case !ok && u != id:
		return bad("Set(%q) failed but changed the id from %s to %s", string(c.Text), id, u)
	}
	n, err2 := uuid.New(string(c.Text))
	if ok != (err2 == nil) || ok && n != ref {
		return bad("New(%q) = %s, %v", string(c.Text), n, err2)
	}
	x.LabelIf(ok, "accepted text")
	x.LabelIf(!ok, "rejected text")
	x.NonTrivialIf(len(c.Text) > 0)
	return nil
}

// ---- C24

type caseC24 struct {
	Size   int
	Off    U64
	Len    int
	Kind   string // mem, file, section, eofatend, fault
	FailAt int    // source position at which reads fail (fault)
	Err    int
}

func genC24(t *rapid.T) any {
	c := &caseC24{Size: rapid.IntRange(0, 300).Draw(t, "size"), Len: rapid.IntRange(1, 100).Draw(t, "len"),
		Kind: pick(t, "kind", "mem", "file", "section", "eofatend", "eofatend", "fault"), Err: rapid.IntRange(0, 2).Draw(t, "err")}
	switch rapid.IntRange(0, 5).Draw(t, "offkind") {
	case 0:
		c.Off = U64(max(0, c.Size-c.Len)) // ends with the source
	case 1:
		c.Off = U64(max(0, c.Size-c.Len+1))
	case 2:
		c.Off = U64(pick(t, "bigoff", uint64(c.Size), 1<<62, 1<<63, maxU, maxU-10, 1<<63-1))
	default:
		c.Off = U64(rapid.IntRange(0, c.Size+5).Draw(t, "off"))
	}
	c.FailAt = rapid.IntRange(0, 300).Draw(t, "failat")
	if rapid.IntRange(0, 400).Draw(t, "large") == 200 {
		c.Size, c.Len, c.Off, c.FailAt = c.Size<<14, c.Len<<15-c.Err, c.Off<<14, c.FailAt<<14
	}
	return c
}

var errFault = errors.New("injected read error")

// memSource is a conforming io.ReaderAt.
type memSource struct {
	b        []byte
	eofAtEnd bool
	failAt   int // -1: never
	err      error
}

func (m *memSource) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if off >= int64(len(m.b)) {
		return 0, io.EOF
	}
	n := copy(p, m.b[off:])
	if m.failAt >= 0 && int64(m.failAt) < off+int64(n) {
		k := int64(m.failAt) - off
		if k < 0 {
			k = 0
		}
		for i := k; i < int64(n); i++ {
			p[i] = 0xEE
		}
		return int(k), m.err
	}
	if n < len(p) || m.eofAtEnd && off+int64(n) == int64(len(m.b)) {
		return n, io.EOF
	}
	return n, nil
}

func checkC24(x *Ctx, v any) error {
	c := v.(*caseC24)
	src := patternBytes(5, 0, uint64(c.Size))
	var r io.ReaderAt
	m := &memSource{b: src, failAt: -1}
	r = m
	switch c.Kind {
	case "file":
		p := x.Path("src")
		must(os.WriteFile(p, src, 0o644))
		fh := must1(os.Open(p))
		defer fh.Close()
		r = fh
	case "section":
		r = io.NewSectionReader(bytes.NewReader(append(append([]byte{1, 2, 3}, src...), 4, 5, 6)), 3, int64(len(src)))
	case "eofatend":
		m.eofAtEnd = true
	case "fault":
		m.failAt, m.err = c.FailAt, []error{errFault, io.ErrUnexpectedEOF, os.ErrDeadlineExceeded}[c.Err]
	}
	block := bytes.Repeat([]byte{0xCC}, c.Len)
	guard := append(block, 0xDD)[:c.Len]
	err := ioutil.ReadBlockAt(r, guard, uint64(c.Off))
	whole := uint64(c.Off) <= uint64(c.Size) && uint64(c.Off)+uint64(c.Len) <= uint64(c.Size) && uint64(c.Off) < 1<<63
	if c.Kind == "fault" && whole && uint64(c.FailAt) < uint64(c.Off)+uint64(c.Len) {
		whole = false
	}
	if whole {
		if err != nil {
			return bad("block [%d,+%d) of a %d byte %s source: error %v although the whole block can be read", c.Off, c.Len, c.Size, c.Kind, err)
		}
		if !bytes.Equal(guard, src[c.Off:int(c.Off)+c.Len]) {
			return bad("block [%d,+%d) of a %d byte %s source: wrong content", c.Off, c.Len, c.Size, c.Kind)
		}
		x.Label("success")
	} else {
		if err == nil {
			return bad("block [%d,+%d) of a %d byte %s source (failing at %d): success although it cannot be read whole", c.Off, c.Len, c.Size, c.Kind, c.FailAt)
		}
		x.Label("error")
	}
	ends := uint64(c.Off)+uint64(c.Len) == uint64(c.Size)
	x.LabelIf(ends, "ends with the source")
	x.NonTrivialIf(ends || !whole || c.Off > 0)
	return nil
}

// ---- C28

type caseC28 struct {
	Counts []int // multiplicity of the distinct bytes
	Perm   U64
	Relab  U64
}

func genC28(t *rapid.T) any {
	c := &caseC28{Perm: U64(rapid.Uint64().Draw(t, "perm")), Relab: U64(rapid.Uint64().Draw(t, "relab"))}
	k := pick(t, "k", 0, 1, 2, 3, 4, 8, 16, 255, 256, rapid.IntRange(0, 256).Draw(t, "kr"))
	hi := pick(t, "hi", 1, 2, 3, 10, 200)
	c.Counts = rapid.SliceOfN(rapid.IntRange(1, hi), k, k).Draw(t, "counts")
	if k > 0 && rapid.IntRange(0, 199).Draw(t, "long") == 100 { // counts beyond 16 bits
		c.Counts[rapid.IntRange(0, k-1).Draw(t, "which")] = 65530 + rapid.IntRange(0, 140000).Draw(t, "count")
	}
	return c
}

func refEntropy(counts []int) float64 {
	n := 0
	for _, c := range counts {
		n += c
	}
	// Kahan summation of c/n * log2(n/c).
	var sum, comp float64
	for _, c := range counts {
		t := float64(c) / float64(n) * math.Log2(float64(n)/float64(c))
		y := t - comp
		s := sum + y
		comp = (s - sum) - y
		sum = s
	}
	return sum
}

func shuffle(seed uint64, n int, swap func(i, j int)) {
	s := splitmix(seed)
	for i := n - 1; i > 0; i-- {
		swap(i, s.intn(i+1))
	}
}

func checkC28(x *Ctx, v any) error {
	c := v.(*caseC28)
	build := func(perm, relab uint64) []byte {
		lab := make([]byte, 256)
		for i := range lab {
			lab[i] = byte(i)
		}
		if relab != 0 {
			shuffle(relab, 256, func(i, j int) { lab[i], lab[j] = lab[j], lab[i] })
		}
		var b []byte
		for i, n := range c.Counts {
			b = append(b, bytes.Repeat([]byte{lab[i]}, n)...)
		}
		if perm != 0 {
			shuffle(perm, len(b), func(i, j int) { b[i], b[j] = b[j], b[i] })
		}
		return b
	}
	b := build(0, 0)
	e := coding.ShannonEntropy(b)
	want := refEntropy(c.Counts)
	if math.IsNaN(e) || math.Abs(e-want) > 1e-9 || e < 0 || e > 8+1e-9 {
		return bad("entropy of counts %v is %v, want %v", c.Counts, e, want)
	}
	if len(c.Counts) <= 1 && (e != 0 || math.Signbit(e)) {
		return bad("entropy of a constant string of %d bytes is %v", len(b), e)
	}
	if len(c.Counts) > 1 && e == 0 {
		return bad("entropy of counts %v is 0", c.Counts)
	}
	for i := uint64(0); i < 6; i++ {
		p, r := uint64(c.Perm)+i, uint64(c.Relab)+i
		if i%3 == 1 {
			r = 0
		} else if i%3 == 2 {
			p = 0
		}
		if g := coding.ShannonEntropy(build(p, r)); math.Float64bits(g) != math.Float64bits(e) {
			return bad("entropy of counts %v differs between evaluations: %.20g, then %.20g (permutation %d, relabelling %d)", c.Counts, e, g, p, r)
		}
	}
	x.LabelIf(len(c.Counts) <= 1, "constant or empty")
	x.LabelIf(len(c.Counts) == 256, "all byte values")
	x.NonTrivialIf(len(c.Counts) > 1)
	return nil
}

func init() {
	register(&Sub{Name: "C15/offsets", Quick: 10000, Thorough: 60000, New: func() any { return &caseC15{} }, Gen: genC15, Check: checkC15,
		Rule: "drawn device sizes around the minimum and every superblock copy, block sizes and sample counts; non-trivial: near-minimal device, more samples than blocks, at most as many samples as superblock neighbours, or a device beyond 256 GiB"})
	register(&Sub{Name: "C20/fields", Quick: 100000, Thorough: 800000, New: func() any { return &caseC20{} }, Gen: genC20, Check: checkC20,
		Rule: "drawn structure and byte contents (random, single byte, single field all ones); every accessor against a table of the format; non-trivial: not all zero"})
	register(&Sub{Name: "C20/leaf", Quick: 20000, Thorough: 150000, New: func() any { return &caseLeaf{} }, Gen: genC20leaf, Check: checkC20leaf,
		Rule: "drawn leaves of several block sizes; non-trivial: more than one item"})
	register(&Sub{Name: "C20/keys", Quick: 20000, Thorough: 150000, New: func() any { return &caseKeys{} }, Gen: genKeys, Check: checkKeys,
		Rule: "drawn key sets; KeyCompare against the reference order and the index order; non-trivial: at least two distinct keys"})
	register(&Sub{Name: "C23/text", Quick: 200000, Thorough: 2000000, New: func() any { return &caseC23{} }, Gen: genC23, Check: checkC23,
		Rule: "drawn ids and candidate texts (near-valid, random); non-trivial: non-empty text"})
	register(&Sub{Name: "C24/read", Quick: 100000, Thorough: 800000, New: func() any { return &caseC24{} }, Gen: genC24, Check: checkC24,
		Rule: "drawn sources (memory, file, section, end-of-file with the last block, injected faults), positions and lengths; non-trivial: block ends with the source, cannot be read whole, or does not start at 0"})
	register(&Sub{Name: "C28/entropy", Quick: 50000, Thorough: 400000, New: func() any { return &caseC28{} }, Gen: genC28, Check: checkC28,
		Rule: "drawn byte distributions, each evaluated in several permutations and relabellings; non-trivial: at least two distinct bytes"})
	_ = sort.Ints
	_ = index.KF
}
