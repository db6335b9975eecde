package main

// C14: identify, C15: identify on any device size, C26: dump-index, C27: paths.

import (
	"fmt"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"blichmann.eu/code/btrfscue/internal/identify"
	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
	"blichmann.eu/code/btrfscue/pkg/uuid"
)

// ---- C14

// idPool makes ids that differ little, have equal entropies, or are special.
func poolID(n int) (u [16]byte) {
	switch n {
	case 0: // zero
	case 1:
		for i := range u {
			u[i] = 0xff
		}
	case 2:
		u[15] = 1
	case 3:
		u[0] = 1
	case 4:
		for i := range u {
			u[i] = 0xff
		}
		u[7] = 0xfe
	case 5:
		u[3] = 1
	case 6:
		for i := range u {
			u[i] = 0xff
		}
		u[0] = 0
	case 7, 8, 9: // permutations of one another
		for i := range u {
			u[i] = byte((i * (2*n - 13)) & 15)
		}
	case 10:
		for i := range u {
			u[i] = 0x41
		}
	case 11:
		for i := range u {
			u[i] = 0x42
		}
	default:
		r := splitmix(n)
		for i := range u {
			u[i] = byte(r.next())
		}
		if n%3 == 0 { // few distinct bytes
			for i := range u {
				u[i] &= 3
			}
		}
	}
	return
}

const idPool = 24

type blkSpec struct {
	ID    int
	Level uint8
	Items int
	Off   int // offset of the first item
	Pos   int // CLI: position
	Swap  int // positions of two bytes of the id that are exchanged, 16*i+j
}

type caseC14 struct {
	BS     int
	Blocks []blkSpec
	// Reps repeats blocks Reps[i] more times.
	Reps []int
	Min  int
	Perm U64
	Tail int
	Mach bool
}

func genC14(t *rapid.T) any {
	c := &caseC14{BS: pick(t, "bs", 4096, 16384, 512, 65536), Min: pick(t, "min", 1, 0, 2, 4, rapid.IntRange(0, 30).Draw(t, "minr")), Mach: rapid.Bool().Draw(t, "machine")}
	n := rapid.IntRange(0, 40).Draw(t, "blocks")
	ids := rapid.IntRange(1, idPool).Draw(t, "ids")
	for i := 0; i < n; i++ {
		b := blkSpec{ID: rapid.IntRange(0, idPool-1).Draw(t, "id") % (ids + 2), Items: pick(t, "items", 1, 5, 0, 1000000000),
			Off: pick(t, "ioff", 16000, 3995, 0, 1<<31)}
		if rapid.Bool().Draw(t, "swap?") {
			b.Swap = rapid.IntRange(0, 255).Draw(t, "swap")
		}
		if rapid.IntRange(0, 4).Draw(t, "node?") == 0 {
			b.Level = pick(t, "level", uint8(1), 2, 7, 255)
		}
		c.Blocks = append(c.Blocks, b)
		c.Reps = append(c.Reps, pick(t, "reps", 0, 0, 1, 2, rapid.IntRange(0, 40).Draw(t, "repsr")))
	}
	c.Perm = U64(rapid.Uint64Range(0, 1000).Draw(t, "perm"))
	c.Tail = rapid.IntRange(0, c.BS-1).Draw(t, "tail")
	return c
}

func (b blkSpec) data(bs int, salt uint64) []byte {
	d := patternBytes(salt, 0, uint64(bs))
	id := poolID(b.ID)
	i, j := b.Swap>>4, b.Swap&15
	id[i], id[j] = id[j], id[i]
	copy(d[32:], id[:])
	le.PutUint32(d[96:], uint32(b.Items))
	d[100] = b.Level
	le.PutUint32(d[101+17:], uint32(b.Off))
	return d
}

type idCount struct {
	id      [16]byte
	n       uint
	entropy float64
}

func idEntropy(id [16]byte) (float64, string) {
	cnt := map[byte]int{}
	for _, b := range id {
		cnt[b]++
	}
	var l []int
	for _, n := range cnt {
		l = append(l, n)
	}
	sort.Ints(l)
	return refEntropy(l), fmt.Sprint(l)
}

// rankError tells what is wrong with a ranking of counts.
func rankError(got []idCount, want map[[16]byte]uint, min uint) error {
	n := 0
	for id, k := range want {
		if k >= min && k > 0 {
			n++
		}
		_ = id
	}
	seen := map[[16]byte]bool{}
	for i, e := range got {
		if seen[e.id] {
			return bad("id %x is listed twice", e.id)
		}
		seen[e.id] = true
		if want[e.id] == 0 {
			return bad("id %x is listed with %d, but it is in no leaf or is a null id", e.id, e.n)
		}
		if want[e.id] != e.n {
			return bad("id %x is listed with count %d, want %d", e.id, e.n, want[e.id])
		}
		if e.n < min {
			return bad("id %x with count %d is below the minimum of %d", e.id, e.n, min)
		}
		ref, dist := idEntropy(e.id)
		if math.Abs(ref-e.entropy) > 1e-6 {
			return bad("id %x is listed with entropy %v, want %v", e.id, e.entropy, ref)
		}
		if i == 0 {
			continue
		}
		p := got[i-1]
		pref, pdist := idEntropy(p.id)
		switch {
		case p.n != e.n:
			if p.n < e.n {
				return bad("entry %d with count %d is after one with %d", i, e.n, p.n)
			}
		case pdist != dist:
			if pref < ref-1e-12 {
				return bad("entry %d with entropy %v is after one with %v and the same count", i, ref, pref)
			}
		default:
			if string(p.id[:]) < string(e.id[:]) {
				return bad("id %x is after %x with the same count and entropy", e.id, p.id)
			}
		}
	}
	if len(got) != n {
		return bad("%d ids listed, want %d", len(got), n)
	}
	return nil
}

func countLeaves(blocks [][]byte) map[[16]byte]uint {
	want := map[[16]byte]uint{}
	for _, b := range blocks {
		var id [16]byte
		copy(id[:], b[32:])
		if b[100] == 0 && id != poolID(0) && id != poolID(1) {
			want[id]++
		}
	}
	return want
}

func (c *caseC14) blocks() (out [][]byte) {
	for i, b := range c.Blocks {
		for k := 0; k <= c.Reps[i]; k++ {
			out = append(out, b.data(c.BS, uint64(i*100+k)))
		}
	}
	shuffle(uint64(c.Perm), len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return
}

func checkC14(x *Ctx, v any) error {
	c := v.(*caseC14)
	blocks := c.blocks()
	want := countLeaves(blocks)
	var first []identify.FSEntry
	for round := uint64(0); round < 2; round++ {
		var coll identify.FSIDCollecter
		for i, b := range blocks {
			coll.CollectBlock(b)
			if i == len(blocks)/2 && round == 1 {
				coll.Entries(uint(c.Min)) // asking in between changes nothing
			}
		}
		got := coll.Entries(uint(c.Min))
		var l []idCount
		for _, e := range got {
			l = append(l, idCount{[16]byte(e.FSID), e.Count, e.Entropy})
		}
		if err := rankError(l, want, uint(c.Min)); err != nil {
			return err
		}
		if round == 0 {
			first = got
			shuffle(uint64(c.Perm)+1, len(blocks), func(i, j int) { blocks[i], blocks[j] = blocks[j], blocks[i] })
			continue
		}
		for i, e := range got {
			if f := first[i]; f.FSID != e.FSID || f.Count != e.Count || f.Entropy != e.Entropy {
				return bad("other order of blocks: entry %d is %x %d, was %x %d", i, e.FSID, e.Count, f.FSID, f.Count)
			}
		}
	}
	x.LabelIf(len(first) > 1, "several ids")
	ties := false
	for i := 1; i < len(first); i++ {
		ties = ties || first[i].Count == first[i-1].Count
	}
	x.LabelIf(ties, "equal counts")
	x.NonTrivialIf(len(want) >= 2 && len(blocks) > 4)
	return nil
}

// parseIdentify reads the table printed by identify.
func parseIdentify(out string, machine bool) (l []idCount, err error) {
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	if !machine {
		if f := strings.Fields(lines[0]); strings.Join(f, " ") != "fsid count entropy block size" {
			return nil, bad("no header: %q", lines[0])
		}
		lines = lines[1:]
	}
	for _, s := range lines {
		if s == "" && len(lines) == 1 {
			break
		}
		f := strings.Fields(s)
		if len(f) != 4 {
			return nil, bad("line %q", s)
		}
		u, ok := refParse(f[0])
		if !ok || len(f[0]) != 36 || f[0] != strings.ToLower(f[0]) {
			return nil, bad("id in line %q", s)
		}
		n, err1 := strconv.ParseUint(f[1], 10, 64)
		e, err2 := strconv.ParseFloat(f[2], 64)
		if err1 != nil || err2 != nil {
			return nil, bad("line %q", s)
		}
		l = append(l, idCount{[16]byte(u), uint(n), e})
	}
	return l, nil
}

func genC14cli(t *rapid.T) any {
	c := genC14(t).(*caseC14)
	if c.BS == 512 {
		c.BS = 8192
		c.Tail = c.Tail % c.BS
	}
	return c
}

func checkC14cli(x *Ctx, v any) error {
	c := v.(*caseC14)
	blocks := c.blocks()
	size := minDevSize(uint64(c.BS)) + uint64(c.Tail)
	n := int(size / uint64(c.BS))
	img := x.Path("disk.img")
	f := must1(os.Create(img))
	must(f.Truncate(int64(size)))
	r := splitmix(c.Perm)
	used := map[int]bool{}
	for i, b := range blocks {
		p := r.intn(n)
		switch {
		case i == 0:
			p = 0
		case i == 1:
			p = n - 1
		case i == 2:
			p = super1 / c.BS
		case i%4 == 0:
			p = super1/c.BS + r.intn(110)
		}
		for used[p] {
			p = (p + 1) % n
		}
		used[p] = true
		must1(f.WriteAt(b, int64(p)*int64(c.BS)))
	}
	if c.Tail >= 101 { // a block that is cut off does not count
		must1(f.WriteAt(blkSpec{ID: 20}.data(c.BS, 1)[:c.Tail], int64(n)*int64(c.BS)))
	}
	must(f.Close())
	args := []string{"identify", "--block-size", fmt.Sprint(c.BS), "--min-blocks", fmt.Sprint(n + int(c.Perm)), "--min-occurrence", fmt.Sprint(c.Min), img}
	if c.Mach {
		args = append(args, "--machine")
	}
	res, err := x.ok(runOpt{}, args...)
	if err != nil {
		return err
	}
	want := countLeaves(blocks)
	got, err := parseIdentify(string(res.Out), c.Mach)
	if err != nil {
		return err
	}
	if err := rankError(got, want, uint(c.Min)); err != nil {
		return bad("%v\n%s", err, res.Out)
	}
	x.NonTrivialIf(len(want) >= 2 && len(blocks) > 4)
	return nil
}

// ---- C15 on devices

type caseC15cli struct {
	BS, Extra  U64
	Min, Max   U64
	Fraction   string
	Occurrence int
	Data       bool
	Fill       bool `json:",omitempty"` // every block counts
}

func genC15cli(t *rapid.T) any {
	c := &caseC15cli{BS: U64(genBS(t)), Min: U64(pick(t, "min", 1000, 0, 1, 100, 5000, rapid.Uint64Range(0, 20000).Draw(t, "minr"))),
		Max: U64(pick(t, "max", 1000, 0, 1, 5000, 20000)), Fraction: pick(t, "fraction", "0.0001", "0", "1", "0.5"), Occurrence: 4,
		Data: rapid.Bool().Draw(t, "data")}
	c.Extra = U64(genDevExtra(t, uint64(c.BS), false))
	if c.BS > 1<<16 {
		c.Min, c.Max = min(c.Min, 1200), min(c.Max, 1200)
	}
	if c.Fill = c.BS >= 4096 && rapid.IntRange(0, 2).Draw(t, "fill") == 1; c.Fill {
		c.Extra, c.Data = c.Extra%(1<<26), false
		n := (minDevSize(uint64(c.BS)) + uint64(c.Extra)) / uint64(c.BS)
		c.Fraction = pick(t, "part", c.Fraction, fmt.Sprintf("%.4f", rapid.Float64Range(0, 1.1).Draw(t, "partr")))
		c.Min = U64(pick(t, "fmin", c.Min, 0, U64(rapid.Uint64Range(0, n+10).Draw(t, "fminr"))))
		c.Max = U64(pick(t, "fmax", c.Max, 1000000, U64(rapid.Uint64Range(0, n+10).Draw(t, "fmaxr"))))
	}
	return c
}

// requested is how many blocks of a device with n are to be sampled, at least
// and at most.
func (c *caseC15cli) requested(n uint64) (lo, hi uint64) {
	var f float64
	must1(fmt.Sscan(c.Fraction, &f))
	lo = uint64(max(0, f*float64(n)-1))
	hi = uint64(f*float64(n)) + 1
	clamp := func(k uint64) uint64 { return min(max(k, uint64(c.Min)), max(uint64(c.Min), uint64(c.Max)), n) }
	lo, hi = clamp(lo), clamp(hi)
	if c.Min > c.Max { // contradictory
		lo = min(lo, uint64(c.Max))
	}
	return
}

func checkC15cli(x *Ctx, v any) error {
	c := v.(*caseC15cli)
	img := x.Path("disk.img")
	f := must1(os.Create(img))
	defer f.Close()
	size := minDevSize(uint64(c.BS)) + uint64(c.Extra)
	if err := f.Truncate(int64(size)); err != nil {
		return infra("%v", err)
	}
	if c.Data {
		// The first and the last block are leaves.
		for _, p := range []uint64{0, size - size%uint64(c.BS) - uint64(c.BS)} {
			must1(f.WriteAt(blkSpec{ID: 20}.data(max(int(c.BS), 200), 1)[:c.BS], int64(p)))
		}
	}
	if c.Fill {
		b := blkSpec{ID: 20}.data(200, 1)
		for p := uint64(0); p+uint64(c.BS) <= size; p += uint64(c.BS) {
			must1(f.WriteAt(b, int64(p)))
		}
	}
	res, err := x.ok(runOpt{}, "identify", "--block-size", fmt.Sprint(c.BS), "--min-blocks", fmt.Sprint(c.Min),
		"--max-blocks", fmt.Sprint(c.Max), "--sample-fraction", c.Fraction, "--min-occurrence", "1", img)
	if err != nil {
		return err
	}
	got, err := parseIdentify(string(res.Out), false)
	if err != nil {
		return err
	}
	want := poolID(20)
	if c.Fill {
		n := uint64(0)
		for _, e := range got {
			if n += uint64(e.n); e.id != want {
				return bad("identify lists %x", e.id)
			}
		}
		if lo, hi := c.requested(size / uint64(c.BS)); n < lo || n > hi {
			return bad("%d blocks of %d sampled, want %d to %d", n, size/uint64(c.BS), lo, hi)
		}
		x.Label("number of samples")
	}
	for _, e := range got {
		if c.Fill {
			break
		}
		if !c.Data || e.id != want || e.n > 2 {
			return bad("identify lists %x %d times", e.id, e.n)
		}
	}
	x.LabelIf(size%uint64(c.BS) != 0, "partial block at the end")
	x.NonTrivialIf(c.Min > 0)
	return nil
}

// ---- C26

var refObjects = map[int64]string{1: "ROOT_TREE", 2: "EXTENT_TREE", 3: "CHUNK_TREE", 4: "DEV_TREE", 5: "FS_TREE",
	6: "ROOT_TREE_DIR", 7: "CSUM_TREE", 8: "QUOTA_TREE", 9: "UUID", 10: "FREES_SPACE_TREE", 0: "DEV_STATS", -4: "BALANCE",
	-5: "ORPHAN", -6: "TREE_LOG", -7: "TREE_LOG_FIXUP", -8: "TREE_RELOC", -9: "DATA_RELOC_TREE", -10: "EXTENT_CSUM",
	-11: "FREE_SPACE", -12: "FREE_INO", -255: "MULTIPLE", 256: "FIRST_FREE", -256: "LAST_FREE"}

var refTypes = map[uint8]string{1: "INODE_ITEM", 12: "INODE_REF", 13: "INODE_EXTREF", 24: "XATTR_ITEM", 48: "ORPHAN_ITEM",
	60: "DIR_LOG_ITEM", 72: "DIR_LOG_INDEX", 84: "DIR_ITEM", 96: "DIR_INDEX", 108: "EXTENT_DATA", 128: "EXTENT_CSUM",
	132: "ROOT_ITEM", 144: "ROOT_BACKREF", 156: "ROOT_REF", 168: "EXTENT_ITEM", 169: "METADATA_ITEM", 176: "TREE_BLOCK_REF",
	178: "EXTENT_DATA_REF", 180: "EXTENT_REF_V0", 182: "SHARED_BLOCK_REF", 184: "SHARED_DATA_REF", 192: "BLOCK_GROUP_ITEM",
	198: "FREE_SPACE_INFO", 199: "FREE_SPACE_EXTENT", 200: "FREE_SPACE_BITMAP", 204: "DEV_EXTENT", 216: "DEV_ITEM", 228: "CHUNK_ITEM",
	240: "QGROUP_STATUS", 242: "QGROUP_INFO", 246: "QGROUP_RELATION", 248: "TEMPORARY_ITEM",
	249: "PERSISTENT_ITEM", 250: "DEV_REPLACE", 251: "UUID_SUBVOL", 252: "UUID_RECEIVED_SUBVOL", 253: "STRING_ITEM"}

// keyTexts are the acceptable forms of a key.
func keyTexts(k Key) (out []string) {
	objs := []string{strconv.FormatUint(uint64(k.ID), 10)}
	if s, ok := refObjects[int64(k.ID)]; ok {
		objs = []string{s}
		if s == "FREES_SPACE_TREE" { // sic
			objs = append(objs, "FREE_SPACE_TREE")
		}
	}
	types := []string{strconv.Itoa(int(k.Type))}
	if s, ok := refTypes[k.Type]; ok {
		types = []string{s}
	} else if k.Type == 244 {
		types = append(types, "QGROUP_LIMIT")
	}
	for _, o := range objs {
		for _, t := range types {
			out = append(out, fmt.Sprintf("key (%s %s %d)", o, t, int64(k.Off)))
		}
	}
	return
}

type caseC26 struct {
	W     *World `json:",omitempty"`
	Vers  []VSpec
	Fill  int
	Sweep int // 1: all types, 2: all special objects
}

func genC26(t *rapid.T) any {
	c := &caseC26{Vers: genVers(t, 40, true), Fill: genFiller(t), Sweep: rapid.IntRange(0, 8).Draw(t, "sweep")}
	if rapid.IntRange(0, 3).Draw(t, "world?") == 0 {
		c.W = genWorld(t, WOpt{MaxNodes: 6, Subvols: 2, Xattrs: true, Stale: true, NoData: true})
	}
	for i := range c.Vers {
		if rapid.IntRange(0, 5).Draw(t, "oddtype") == 0 {
			c.Vers[i].Key.Type = rapid.Byte().Draw(t, "ty")
		}
		if rapid.IntRange(0, 8).Draw(t, "oddobj") == 0 {
			c.Vers[i].Key.ID = U64(rapid.Int64Range(-300, 300).Draw(t, "obj"))
		}
	}
	return c
}

func (c *caseC26) vers() []Ver {
	vs := toVers(c.Vers)
	if c.W != nil {
		vs = append(vs, c.W.versions()...)
	}
	vs = append(vs, toVers(fillers(c.Fill))...)
	switch c.Sweep {
	case 1:
		for i := 0; i < 256; i++ {
			vs = append(vs, Ver{oFS, Key{300, uint8(i), U64(i)}, 7, nil})
		}
	case 2:
		for i := -300; i < 300; i++ {
			vs = append(vs, Ver{oFS, Key{U64(i), 1, U64(-i)}, 7, []byte{1}})
		}
	}
	var out []Ver
	for _, v := range vs {
		if !isMetaKey(v.Owner, v.Key) {
			out = append(out, v)
		}
	}
	return out
}

func checkC26(x *Ctx, v any) error {
	c := v.(*caseC26)
	vs := c.vers()
	meta := x.Path("meta.db")
	buildIndex(meta, vs)
	r, err := x.ok(runOpt{}, "dump-index", "--metadata", meta)
	if err != nil {
		return err
	}
	ref := newRefIx(vs)
	lines := strings.Split(string(r.Out), "\n")
	if lines[len(lines)-1] != "" {
		return bad("last line is not complete: %q", lines[len(lines)-1])
	}
	lines = lines[:len(lines)-1]
	next := func() string {
		if len(lines) == 0 {
			return "(end of output)"
		}
		s := lines[0]
		lines = lines[1:]
		return s
	}
	owners := 0
	for i, it := range ref {
		if i == 0 || ref[i-1].Owner != it.Owner {
			owners++
			if s := next(); s != fmt.Sprintf("owner %d", it.Owner) {
				return bad("line %q, want owner %d", s, it.Owner)
			}
		}
		s, ok := next(), false
		for _, k := range keyTexts(it.Key) {
			ok = ok || s == fmt.Sprintf("%s @ %d", k, it.Gen)
		}
		if !ok {
			return bad("line %q, want %q @ %d", s, keyTexts(it.Key), it.Gen)
		}
	}
	if len(lines) > 0 {
		return bad("extra line %q", lines[0])
	}
	x.LabelIf(len(ref) == 0, "empty")
	x.LabelIf(owners > 2, "several owners")
	x.LabelIf(len(ref) > 100, "many items")
	x.NonTrivialIf(len(ref) > 5 && owners > 1)
	return nil
}

// ---- C27

type pathSpec struct {
	// Steps choose an entry (modulo their number) of the directory reached,
	// -1 to leave the tree with Name.
	Steps []int
	Name  Bytes
	Slash bool
	Down  int `json:",omitempty"` // levels down from there, odd: and an entry
}

type caseC27 struct {
	W     *World
	Paths []pathSpec
	// Move files entries under another hash: item number modulo.
	Move []int
	Gen  U64
	CLI  bool
}

func genC27(t *rapid.T) any {
	c := &caseC27{W: genWorld(t, WOpt{MaxNodes: 16, Subvols: 3, Special: true, Collide: true, NoData: true, Fill: true})}
	for i, n := 0, rapid.IntRange(1, 12).Draw(t, "paths"); i < n; i++ {
		p := pathSpec{Steps: rapid.SliceOfN(rapid.IntRange(-1, 20), 1, 6).Draw(t, "steps"), Slash: rapid.Bool().Draw(t, "slash"), Down: max(0, rapid.IntRange(-2, 4).Draw(t, "down"))}
		if p.Down > 1 {
			p.Down = pick(t, "downs", 30, 31, 600, 601)
		}
		for _, s := range p.Steps {
			if s < 0 && p.Name == "" {
				p.Name = Bytes(genName(t, false))
			}
		}
		c.Paths = append(c.Paths, p)
	}
	if f := c.W.Fill; f != nil && f.Deep {
		c.Paths[0] = pathSpec{Down: 600 + f.N%3}
	}
	if rapid.IntRange(0, 2).Draw(t, "move?") == 0 {
		c.Move = rapid.SliceOfN(rapid.IntRange(0, 50), 1, 6).Draw(t, "move")
	}
	return c
}

// moved files some directory items under other hashes.
func (c *caseC27) vers() []Ver {
	vs := c.W.versions()
	type slot struct {
		o uint64
		k Key
	}
	used := map[slot]bool{}
	var dirs []int
	for i, v := range vs {
		used[slot{v.Owner, v.Key}] = true
		if v.Key.Type == tDirItem {
			dirs = append(dirs, i)
		}
	}
	for n, m := range c.Move {
		if len(dirs) == 0 {
			break
		}
		v := &vs[dirs[m%len(dirs)]]
		k := v.Key
		k.Off ^= U64(1 << (n * 5))
		if !used[slot{v.Owner, k}] {
			v.Key = k
			used[slot{v.Owner, k}] = true
		}
	}
	return vs
}

// walk follows the components of a path step by step.
func (v *View) walk(comps []string) (e *DirEnt) {
	owner, dir := uint64(oFS), uint64(firstFree)
	for _, n := range comps {
		e = nil
		for _, d := range v.dir(owner, dir) {
			if string(d.Name) == n {
				e = &d
				break
			}
		}
		if e == nil {
			return nil
		}
		owner, dir = enter(owner, *e)
	}
	return
}

func (v *View) path(p pathSpec) (comps []string) {
	owner, dir := uint64(oFS), uint64(firstFree)
	for _, s := range p.Steps {
		es := v.dir(owner, dir)
		if s >= 0 && len(es) == 0 && len(comps) > 0 && s%4 > 0 {
			break
		}
		if s < 0 || len(es) == 0 {
			n := string(p.Name)
			if n == "" {
				n = "nothing"
			}
			comps = append(comps, n)
			continue
		}
		e := es[s%len(es)]
		comps = append(comps, string(e.Name))
		owner, dir = enter(owner, e)
	}
	// Down the newest directories.
	for i := 0; i < p.Down; i++ {
		var to *DirEnt
		for _, e := range v.dir(owner, dir) {
			if e.Type == ftDir && (to == nil || e.Loc.ID > to.Loc.ID) {
				to = &e
			}
		}
		if to == nil {
			break
		}
		comps = append(comps, string(to.Name))
		owner, dir = enter(owner, *to)
	}
	if es := v.dir(owner, dir); p.Down%2 == 1 && len(es) > 0 {
		comps = append(comps, string(es[p.Down%len(es)].Name))
	}
	return
}

func checkC27(x *Ctx, v any) error {
	c := v.(*caseC27)
	vs := c.vers()
	view := newView(vs, "")
	meta := x.Path("meta.db")
	buildIndex(meta, vs)
	ix := openAt(meta, maxU)
	defer ix.Close()
	hashed := func(n string) error {
		if h := index.NameHash(n); h != nameHash(n) {
			return bad("NameHash(%q) is %#x, want %#x", n, h, nameHash(n))
		}
		return nil
	}
	found, deep := 0, false
	for _, p := range c.Paths {
		comps := view.path(p)
		s := strings.Join(comps, "/")
		if p.Slash {
			s = "/" + s
		}
		for _, n := range comps {
			if err := hashed(n); err != nil {
				return err
			}
		}
		want := view.walk(comps)
		got := ix.FindDirItemForPath(oFS, s)
		switch {
		case want == nil && got != nil:
			return bad("path %q leads to %q at %v, but there is no such path", s, got.Name(), got.Location())
		case want == nil:
		case got == nil:
			return bad("path %q is not found, want %v", s, want.Loc)
		default:
			if err := sameEnt(got, *want); err != nil {
				return bad("path %q: %v", s, err)
			}
			found++
			deep = deep || len(comps) > 1
			x.LabelIf(len(comps) > 20, "more than 20 directories deep")
			if len(comps) > 1 {
				sub := view.walk(comps[:len(comps)-1])
				x.LabelIf(sub != nil && sub.Loc.Type == tRootItem, "directly within a subvolume")
			}
		}
	}
	for _, it := range vs {
		if it.Key.Type == tDirItem {
			es, _ := decDirEnts(it.Data)
			x.LabelIf(len(es) > 1, "names with equal hashes")
		}
	}
	x.LabelIf(len(c.Move) > 0, "entries filed under other hashes")
	x.NonTrivialIf(found > 0 && deep)
	return nil
}

func sameEnt(got btrfs.DirItem, want DirEnt) error {
	k := got.Location()
	if got.Name() != string(want.Name) || k.ObjectID != uint64(want.Loc.ID) || k.Type != want.Loc.Type || k.Offset != uint64(want.Loc.Off) ||
		got.Type() != want.Type || got.TransID() != uint64(want.TransID) {
		return bad("entry %q %v type %d, want %q %v type %d", got.Name(), got.Location(), got.Type(), want.Name, want.Loc, want.Type)
	}
	return nil
}

type caseHash struct{ Names []Bytes }

func genHash(t *rapid.T) any {
	c := &caseHash{}
	for i, n := 0, rapid.IntRange(1, 20).Draw(t, "n"); i < n; i++ {
		b := rapid.SliceOfN(rapid.Byte(), 0, 300).Draw(t, "name")
		if rapid.IntRange(0, 3).Draw(t, "tail?") == 2 {
			f := pick(t, "tail", "\x00", "\x00\x00\x00\x00", " ", "/", "\xff", "\n", ".")
			b = append(b, f...)
			if rapid.Bool().Draw(t, "head?") {
				b = append([]byte(f), b...)
			}
		}
		c.Names = append(c.Names, Bytes(b))
	}
	return c
}

func checkHash(x *Ctx, v any) error {
	c := v.(*caseHash)
	for _, n := range c.Names {
		if h := index.NameHash(string(n)); h != nameHash(string(n)) {
			return bad("NameHash(%q) is %#x, want %#x", n, h, nameHash(string(n)))
		}
		if n != "" && strings.Trim(string(n), "\x00") != "" {
			o := collide(string(n), uint64(len(n)))
			if index.NameHash(o) != index.NameHash(string(n)) {
				return bad("NameHash tells %q and %q apart, which have the same hash", n, o)
			}
		}
		x.NonTrivialIf(len(n) > 4)
	}
	return nil
}

var _ = uuid.UUID{}

func init() {
	register(&Sub{Name: "C14/collector", Quick: 8000, Thorough: 80000,
		Rule: "generated multisets of blocks (few ids incl. null, near-null and permuted ones; nodes and leaves), fed in two random orders; ranking compared with an independent count; non-trivial: at least two ids in more than 4 blocks",
		New:  func() any { return &caseC14{} }, Gen: genC14, Check: checkC14})
	register(&Sub{Name: "C14/cli", Quick: 300, Thorough: 2500, NeedBin: true,
		Rule: "the same blocks at random positions of a sparse image (first and last block included, cut-off block at the end), identify sampling all blocks, table parsed; non-trivial: as C14/collector",
		New:  func() any { return &caseC14{} }, Gen: genC14cli, Check: checkC14cli})
	register(&Sub{Name: "C15/cli", Quick: 500, Thorough: 2000, NeedBin: true,
		Rule: "identify on sparse images of generated sizes, block sizes and sampling options must succeed and list nothing that is not there; non-trivial: at least one sample",
		New:  func() any { return &caseC15cli{} }, Gen: genC15cli, Check: checkC15cli})
	register(&Sub{Name: "C26/dump", Quick: 2500, Thorough: 12000, NeedBin: true,
		Rule: "generated metadata (random versions, filesystems, all key types, all special objects); output of dump-index compared line by line with a sorted reference; non-trivial: more than 5 versions of more than one owner",
		New:  func() any { return &caseC26{} }, Gen: genC26, Check: checkC26})
	register(&Sub{Name: "C27/paths", Quick: 8000, Thorough: 40000,
		Rule: "generated trees with subvolumes, names with equal hashes and entries filed under other hashes; path lookups compared with a step-by-step walk of the reference; non-trivial: a path of two or more components is found",
		New:  func() any { return &caseC27{} }, Gen: genC27, Check: checkC27})
	register(&Sub{Name: "C27/hash", Quick: 10000, Thorough: 100000,
		Rule: "NameHash compared with a bitwise CRC, and on constructed collisions; non-trivial: a name longer than 4 bytes",
		New:  func() any { return &caseHash{} }, Gen: genHash, Check: checkHash})
}
