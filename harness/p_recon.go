package main

// C01, C16: recon of generated images.

import (
	"encoding/binary"
	"fmt"
	"os"
	"strings"

	"pgregory.net/rapid"
)

// rawKey is the key of an item version in a metadata file.
func rawKey(v Ver) string {
	var b [41]byte
	binary.BigEndian.PutUint64(b[0:], v.Owner)
	b[8] = v.Key.Type
	binary.BigEndian.PutUint64(b[9:], uint64(v.Key.ID))
	binary.BigEndian.PutUint64(b[17:], uint64(v.Key.Off))
	binary.BigEndian.PutUint64(b[25:], v.Gen)
	return string(b[:33])
}

func fromRawKey(k string) string {
	if len(k) != 33 {
		return fmt.Sprintf("record %x", k)
	}
	b := []byte(k)
	return fmt.Sprintf("owner %d %v @ %d", binary.BigEndian.Uint64(b), Key{U64(binary.BigEndian.Uint64(b[9:])), b[8], U64(binary.BigEndian.Uint64(b[17:]))},
		binary.BigEndian.Uint64(b[25:]))
}

func fsidText(b []byte) string {
	h := fmt.Sprintf("%x", b)
	return h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
}

// sameMetadata compares the records of a metadata file with what it has to
// hold: item versions (value: item header with key and size, then payload).
func sameMetadata(got map[string]string, want map[string]Ver) error {
	for k, v := range want {
		g, ok := got[k]
		if !ok {
			return bad("metadata lacks %s (%d bytes)", fromRawKey(k), len(v.Data))
		}
		if len(g) != itemLen+len(v.Data) || g[itemLen:] != string(v.Data) {
			return bad("metadata holds %s with payload %x, want %x", fromRawKey(k), clip([]byte(g)), clip(append(make([]byte, itemLen), v.Data...)))
		}
		if decKey([]byte(g)) != v.Key || le.Uint32([]byte(g[21:])) != uint32(len(v.Data)) {
			return bad("metadata holds %s with item %x", fromRawKey(k), g[:itemLen])
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok && k != string(rawMetaKey[:33]) {
			return bad("metadata holds %s, which is in no leaf of the filesystem", fromRawKey(k))
		}
	}
	return nil
}

func clip(b []byte) []byte {
	if len(b) > 80 {
		return b[:80]
	}
	return b
}

type caseC01 struct {
	W     *World
	Extra []VSpec
	// Many is a number of additional small items.
	Many int
	// Empty is a number of items without payload, as in a free space tree.
	Empty int `json:",omitempty"`
	// Early places a leaf before the first superblock, Shift one that is not
	// block-aligned.
	Early, Shift bool
	IDForm       int
	Swap         bool // -metadata given through the environment
}

// dedupe keeps one version of equal (owner, key, generation).
func dedupe(vs []Ver) []Ver { return dedupeMeta(vs, false) }

// dedupeMeta also keeps items under the key of the index metadata, if asked to.
func dedupeMeta(vs []Ver, meta bool) (out []Ver) {
	have := map[string]bool{}
	for _, v := range vs {
		if isMetaKey(v.Owner, v.Key) && !meta {
			continue
		}
		if k := rawKey(v); !have[k] {
			have[k] = true
			out = append(out, v)
		}
	}
	return
}

func genC01(t *rapid.T) any {
	c := &caseC01{W: genWorld(t, WOpt{MaxNodes: 10, Subvols: 2, Special: true, Xattrs: true, Collide: true, Stale: true})}
	c.Extra = genVers(t, 60, true)
	for i := range c.Extra {
		if rapid.IntRange(0, 9).Draw(t, "longitem") == 0 {
			// Up to an item that fills a leaf on its own.
			room := c.W.BS - hdrLen - itemLen
			c.Extra[i].Len = pick(t, "longlen", rapid.IntRange(0, 3900).Draw(t, "len4k"), room, room-1, room/2,
				rapid.IntRange(0, room).Draw(t, "lenbs"))
		}
	}
	if rapid.IntRange(0, 11).Draw(t, "many?") == 0 {
		c.Many = rapid.IntRange(5000, 25000).Draw(t, "many")
	}
	if rapid.IntRange(0, 3).Draw(t, "empty?") == 2 {
		c.Empty = rapid.IntRange(1, 2000).Draw(t, "empty")
	}
	c.Early = rapid.IntRange(0, 2).Draw(t, "early") == 0
	c.Shift = rapid.IntRange(0, 2).Draw(t, "shift") == 0
	c.IDForm = rapid.IntRange(0, 2).Draw(t, "idform")
	c.Swap = rapid.IntRange(0, 3).Draw(t, "env") == 0
	return c
}

func manyItems(n int) (out []Ver) {
	for i := 0; i < n; i++ {
		out = append(out, Ver{oCsum, Key{U64(i % 7), tExtentCsum, U64(i)}, 500 + uint64(i%3), patternBytes(uint64(i), 0, uint64(i%4))})
	}
	return
}

func emptyItems(n int) (out []Ver) {
	for i := 0; i < n; i++ {
		out = append(out, Ver{10, Key{U64(1<<30 + i*8192), 199, 4096}, 600, []byte{}})
	}
	return
}

func (c *caseC01) image() (*Image, map[string]Ver) {
	w := c.W
	vs := w.versions()
	vs = append(vs, toVers(c.Extra)...)
	vs = append(vs, emptyItems(c.Empty)...)
	vs = append(vs, manyItems(c.Many)...)
	vs = dedupe(vs)
	im := w.image(vs)
	want := map[string]Ver{}
	for _, v := range vs {
		want[rawKey(v)] = v
	}
	lone := func(gen uint64) []byte {
		return encLeaf(w.BS, w.fsid(), oFS, gen, 77, []Ver{{oFS, Key{256, tInodeItem, 0}, gen, encInode(Inode{Mode: 0o40700})}}, 0)
	}
	if c.Early {
		im.Blocks = append(im.Blocks, Block{Phys: 0, Data: lone(9001)})
		if w.BS < super1 {
			im.Blocks = append(im.Blocks, Block{Phys: uint64(super1 - w.BS), Data: lone(9002)})
		}
	}
	if c.Shift {
		im.Blocks = append(im.Blocks, Block{Phys: dataStart + 49<<20 + 2048, Data: lone(9003)})
	}
	return im, want
}

func (w *World) reconArgs(form int) (id string) {
	id = fsidText(w.fsid())
	switch form {
	case 1:
		id = strings.ToUpper(id)
	case 2:
		id = strings.ReplaceAll(id, "-", "")
	}
	return
}

func checkC01(x *Ctx, v any) error {
	c := v.(*caseC01)
	im, want := c.image()
	img, meta := x.Path("disk.img"), x.Path("meta.db")
	im.write(img)
	args := []string{"recon", "--block-size", fmt.Sprint(c.W.BS), "--id", c.W.reconArgs(c.IDForm)}
	o := runOpt{}
	if c.Swap {
		o.env = append(o.env, "BTRFSCUE_METADATA="+meta)
	} else {
		args = append(args, "--metadata", meta)
	}
	if c.W.BS == 16384 && c.Swap { // default block size
		args = append(args[:1], args[3:]...)
	}
	if _, err := x.ok(o, append(args, img)...); err != nil {
		return err
	}
	got, err := rawDump(meta)
	if err != nil {
		return bad("metadata unreadable: %v", err)
	}
	if err := sameMetadata(got, want); err != nil {
		return err
	}
	last := im.Size - im.Size%uint64(c.W.BS) - uint64(c.W.BS)
	for _, b := range im.Blocks {
		x.LabelIf(b.Vers != nil && b.Phys == last, "leaf in last block")
		x.LabelIf(b.Vers != nil && b.Phys == uint64(super1+c.W.BS), "leaf right after superblock")
		x.LabelIf(b.Vers == nil, "decoy blocks")
	}
	x.LabelIf(c.Many > 10000, "more items than a batch")
	x.LabelIf(c.W.Tail%c.W.BS > 0, "partial block at the end")
	x.Label("block size %d", c.W.BS)
	x.NonTrivialIf(len(want) > 10 && len(im.Blocks) > 3)
	return nil
}

// caseLarge is an image beyond 4 GiB, most of it a hole.
type caseLarge struct {
	W   *World
	Len U64   // in blocks of 64 KiB
	At  []U64 // where leaves go, in blocks from the one at Base
	Fro []int // 0: from 4 GiB, 1: from the start, 2: from the end
}

func genLarge(t *rapid.T) any {
	c := &caseLarge{W: genWorld(t, WOpt{MaxNodes: 4, Subvols: 1, Stale: true, NoData: true})}
	c.W.BS = pick(t, "bs", 16384, 65536, 32768, 4096)
	c.Len = U64(rapid.IntRange(1<<16+200, 1<<16+1<<15).Draw(t, "len"))
	if c.W.BS > 4096 && rapid.IntRange(0, 2).Draw(t, "huge") == 1 {
		c.Len *= U64(1 + c.W.BS>>13)
	}
	for i := rapid.IntRange(1, 8).Draw(t, "places"); i > 0; i-- {
		c.Fro = append(c.Fro, rapid.IntRange(0, 2).Draw(t, "from"))
		c.At = append(c.At, U64(rapid.IntRange(0, 160).Draw(t, "at")))
	}
	return c
}

func checkLarge(x *Ctx, v any) error {
	c := v.(*caseLarge)
	vs := dedupe(c.W.versions())
	im := c.W.image(vs)
	bs := uint64(c.W.BS)
	im.Size = uint64(c.Len)<<16 + uint64(c.W.Tail)
	used := map[uint64]bool{}
	for _, b := range im.Blocks {
		used[b.Phys] = true
	}
	far := 0
	for i := range im.Blocks {
		if i >= len(c.At) {
			break
		}
		at := 4<<30 + uint64(c.At[i])*bs - 80*bs
		switch c.Fro[i] {
		case 1:
			at = dataStart + uint64(c.At[i])*bs*397
		case 2:
			at = im.Size - im.Size%bs - (1+uint64(c.At[i]))*bs
		}
		if used[at] || at%bs != 0 || at < dataStart || at+bs > im.Size {
			continue
		}
		used[at] = true
		im.Blocks[i].Phys = at
		if at >= 4<<30 {
			far++
		}
	}
	want := map[string]Ver{}
	for _, v := range vs {
		want[rawKey(v)] = v
	}
	img, meta := x.Path("disk.img"), x.Path("meta.db")
	im.write(img)
	if _, err := x.ok(runOpt{cpuSec: 120}, "recon", "--block-size", fmt.Sprint(bs), "--id", fsidText(c.W.fsid()), "--metadata", meta, img); err != nil {
		return err
	}
	got, err := rawDump(meta)
	if err != nil {
		return bad("metadata unreadable: %v", err)
	}
	if err := sameMetadata(got, want); err != nil {
		return err
	}
	x.NonTrivialIf(far > 0)
	return nil
}

// ---- C16: several images, repeated runs

type caseC16 struct {
	W     *World
	Extra []VSpec
	Many  int
	// Part assigns item versions to images: bit i of Part[v%len] tells whether
	// image i holds version v.
	Part  []int
	N     int
	Order []int // sequence of recon runs
	Lay2  U64
}

func genC16(t *rapid.T) any {
	c := &caseC16{W: genWorld(t, WOpt{MaxNodes: 8, Subvols: 1, Stale: true, Xattrs: true, NoData: true})}
	c.Extra = genVers(t, 30, false)
	c.N = rapid.IntRange(1, 3).Draw(t, "images")
	c.Part = rapid.SliceOfN(rapid.IntRange(1, 1<<c.N-1), 1, 12).Draw(t, "part")
	c.Order = rapid.SliceOfN(rapid.IntRange(0, c.N-1), 1, 5).Draw(t, "order")
	c.Lay2 = U64(rapid.Uint64Range(0, 1<<20).Draw(t, "lay2"))
	if rapid.IntRange(0, 14).Draw(t, "many?") == 0 {
		c.Many = rapid.IntRange(9000, 12000).Draw(t, "many")
	}
	return c
}

func checkC16(x *Ctx, v any) error {
	c := v.(*caseC16)
	vs := dedupe(append(append(c.W.versions(), toVers(c.Extra)...), manyItems(c.Many)...))
	var imgs []string
	parts := make([][]Ver, c.N)
	for i, v := range vs {
		for k := 0; k < c.N; k++ {
			if c.Part[i%len(c.Part)]>>k&1 == 1 {
				parts[k] = append(parts[k], v)
			}
		}
	}
	for k := 0; k < c.N; k++ {
		w := *c.W
		w.Lay = c.Lay2 + U64(k)
		p := x.Path(fmt.Sprintf("disk%d.img", k))
		if len(parts[k]) == 0 {
			w.Decoys = 0
		}
		w.image(parts[k]).write(p)
		imgs = append(imgs, p)
	}
	recon := func(meta string, k int) error {
		_, err := x.ok(runOpt{}, "recon", "--block-size", fmt.Sprint(c.W.BS), "--id", fsidText(c.W.fsid()), "--metadata", meta, imgs[k])
		return err
	}
	meta := x.Path("meta.db")
	want := map[string]Ver{}
	seen := map[int]bool{}
	for n, k := range c.Order {
		if err := recon(meta, k); err != nil {
			return err
		}
		for _, v := range parts[k] {
			want[rawKey(v)] = v
		}
		got, err := rawDump(meta)
		if err != nil {
			return bad("metadata unreadable: %v", err)
		}
		if err := sameMetadata(got, want); err != nil {
			return bad("after recon number %d of %v: %v", n+1, c.Order, err)
		}
		x.LabelIf(seen[k], "image scanned again")
		x.LabelIf(len(seen) > 0 && !seen[k], "second image merged")
		seen[k] = true
	}
	// Another placement of the same leaves gives the same records.
	w := *c.W
	w.Lay = c.Lay2 + 12345
	p2, m2 := x.Path("other.img"), x.Path("other.db")
	k := c.Order[0]
	w.image(parts[k]).write(p2)
	imgs = append(imgs, p2)
	if err := recon(m2, len(imgs)-1); err != nil {
		return err
	}
	want2 := map[string]Ver{}
	for _, v := range parts[k] {
		want2[rawKey(v)] = v
	}
	got, err := rawDump(m2)
	if err != nil {
		return bad("metadata unreadable: %v", err)
	}
	if err := sameMetadata(got, want2); err != nil {
		return bad("other placement: %v", err)
	}
	os.Remove(meta)
	x.NonTrivialIf(len(c.Order) > 1 && len(vs) > 10)
	return nil
}

func init() {
	register(&Sub{Name: "C01/recon", Quick: 1000, Thorough: 6000, NeedBin: true,
		Rule: "generated filesystem image (leaves packed and placed at random, duplicates, decoys, odd sizes) plus random items; recon, then the metadata records are read with bbolt and compared; non-trivial: more than 10 item versions in more than 3 blocks",
		New:  func() any { return &caseC01{} }, Gen: genC01, Check: checkC01})
	register(&Sub{Name: "C01/large", Quick: 32, Thorough: 400, NeedBin: true,
		Rule: "images of 4 to 54 GiB, mostly holes, with leaves around 4 GiB, at the end and in between; non-trivial: a leaf beyond 4 GiB",
		New:  func() any { return &caseLarge{} }, Gen: genLarge, Check: checkLarge})
	register(&Sub{Name: "C16/runs", Quick: 500, Thorough: 3000, NeedBin: true,
		Rule: "1-3 images holding overlapping parts of a filesystem, sequences of up to 5 recon runs into one metadata file, records compared with the union after each run, and with those of another placement; non-trivial: at least two runs and more than 10 item versions",
		New:  func() any { return &caseC16{} }, Gen: genC16, Check: checkC16})
}
