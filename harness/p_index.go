package main

// C02, C03, C18, C19, C25, C27: the metadata index, in process.

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"syscall"
	"time"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
	"blichmann.eu/code/btrfscue/pkg/uuid"
	"go.etcd.io/bbolt"
	"pgregory.net/rapid"
)

// VSpec is a drawn item version; its payload is derived from Seed and Len
// unless Data is given.
type VSpec struct {
	Owner U64
	Key   Key
	Gen   U64
	Seed  U64
	Len   int
	Zero  bool `json:",omitempty"` // all zeros
	Data  Hex  `json:",omitempty"`
}

func (v VSpec) payload() []byte {
	if v.Data != nil {
		return v.Data
	}
	if v.Zero {
		return make([]byte, v.Len)
	}
	return patternBytes(uint64(v.Seed)+1, 0, uint64(v.Len))
}

func (v VSpec) ver() Ver { return Ver{uint64(v.Owner), v.Key, uint64(v.Gen), v.payload()} }

func toVers(vs []VSpec) (out []Ver) {
	for _, v := range vs {
		out = append(out, v.ver())
	}
	return
}

func rkey(k Key) btrfs.Key {
	return btrfs.Key{ObjectID: uint64(k.ID), Type: k.Type, Offset: uint64(k.Off)}
}

func mkHeader(owner, gen uint64, fsid uuid.UUID) btrfs.Header {
	h := make([]byte, hdrLen)
	copy(h[32:], fsid[:])
	le.PutUint64(h[80:], gen)
	le.PutUint64(h[88:], owner)
	return h
}

func mkItem(k Key, off, size uint32) btrfs.Item {
	var w wbuf
	w.key(k)
	w.u32(off)
	w.u32(size)
	return btrfs.Item(w)
}

var testFSID = uuid.UUID{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}

func insertVer(ix *index.Index, v Ver) error {
	return ix.InsertItem(rkey(v.Key), mkHeader(v.Owner, v.Gen, testFSID),
		mkItem(v.Key, 1000, uint32(len(v.Data))), v.Data)
}

// buildIndex writes the versions to a new metadata file.
func buildIndex(path string, vs []Ver) {
	ix := must1(index.Open(path, 0o644, &index.Options{BlockSize: 4096, FSID: testFSID, Generation: maxU}))
	for _, v := range vs {
		must(insertVer(ix, v))
	}
	if err := ix.Commit(); err != nil {
		must(err)
	}
	ix.Close()
}

func openAt(path string, gen uint64) *index.Index {
	return must1(index.Open(path, 0o644, &index.Options{ReadOnly: true, Generation: gen}))
}

// ---- generators

func pick[T any](t *rapid.T, name string, vs ...T) T {
	return vs[rapid.IntRange(0, len(vs)-1).Draw(t, name)]
}

func genU(t *rapid.T, name string, common []uint64, rare *rapid.Generator[uint64]) uint64 {
	if rapid.IntRange(0, 9).Draw(t, name+"?") < 8 {
		return pick(t, name, common...)
	}
	return rare.Draw(t, name)
}

var (
	poolOwners = []uint64{oFS, oRoot, oChunk, oExtent, 4, 6, 256, 257, 258, maxU - 5, 1 << 32, 0, 1 << 63,
		7, 8, 9, 10, 11, 12, 13, 255, 259, 1 << 48, maxU - 3, maxU - 4, maxU - 6, maxU - 7, maxU - 8, maxU - 9, maxU - 10, maxU - 11, maxU - 254}
	poolTypes = []uint64{tDirItem, tInodeItem, tExtentData, tXAttr, tDirIndex, tInodeRef, tRootItem, tChunk, tDevItem, tExtentItem, 0, 85, 83, 109, 255,
		13, 48, 60, 72, tExtentCsum, tRootBackRef, tRootRef, 169, 176, 178, 180, 182, 184, 192, 198, 199, 200, 204, 230, 240, 242, 244, 246, 248, 249, 250, 251, 252, 253}
	poolIDs  = []uint64{256, 257, 258, 259, 1, 0, 255, 300, lastFree, lastFree - 1, maxU, 1 << 40}
	poolOffs = []uint64{0, 1, 2, 4096, 8192, 0xffffffff, maxU, maxU - 1, 1 << 33}
	poolGens = []uint64{1, 2, 3, 4, 5, 7, 9, 100, 0, maxU, maxU - 1, 1 << 63, 1<<63 - 1, 1 << 32, 255, 256}
)

func isMetaKey(owner uint64, k Key) bool {
	return owner == maxU && k.Type == 255 && uint64(k.ID) == lastFree && uint64(k.Off) == maxU
}

func genKey(t *rapid.T, name string) Key {
	return Key{U64(genU(t, name+".id", poolIDs, rapid.Uint64())), uint8(genU(t, name+".t", poolTypes, rapid.Uint64Range(0, 255))),
		U64(genU(t, name+".off", poolOffs, rapid.Uint64()))}
}

// genVers draws a set of item versions with dense neighbourhoods.
func genVers(t *rapid.T, maxKeys int, rareOwner bool) []VSpec {
	no := rapid.IntRange(1, 3).Draw(t, "owners")
	owners := make([]uint64, no)
	for i := range owners {
		owners[i] = pick(t, "owner", poolOwners...)
		if rapid.IntRange(0, 9).Draw(t, "so") == 4 {
			owners[i] = rapid.Uint64Range(260, 1<<20).Draw(t, "subvol")
		}
		if rareOwner && rapid.IntRange(0, 19).Draw(t, "ro") == 0 {
			owners[i] = maxU
		}
	}
	var types, ids, offs []uint64
	for i := rapid.IntRange(1, 3).Draw(t, "nt"); i > 0; i-- {
		types = append(types, genU(t, "type", poolTypes, rapid.Uint64Range(0, 255)))
	}
	for i := rapid.IntRange(1, 4).Draw(t, "ni"); i > 0; i-- {
		ids = append(ids, genU(t, "id", poolIDs, rapid.Uint64()))
	}
	for i := rapid.IntRange(1, 5).Draw(t, "nf"); i > 0; i-- {
		offs = append(offs, genU(t, "off", poolOffs, rapid.Uint64()))
	}
	var gens []uint64
	for i := rapid.IntRange(2, 5).Draw(t, "ng"); i > 0; i-- {
		gens = append(gens, genU(t, "gen", poolGens, rapid.Uint64()))
	}
	var vs []VSpec
	n := rapid.IntRange(0, maxKeys).Draw(t, "n")
	for i := 0; i < n; i++ {
		if len(vs) > 0 && rapid.IntRange(0, 3).Draw(t, "again") > 1 {
			// Another version of an item there is.
			v := vs[rapid.IntRange(0, len(vs)-1).Draw(t, "ag")]
			v.Gen, v.Seed, v.Len = U64(pick(t, "g", gens...)), U64(i), genLen(t)
			v.Zero = rapid.IntRange(0, 7).Draw(t, "zero") == 5
			vs = append(vs, v)
			continue
		}
		v := VSpec{Owner: U64(pick(t, "o", owners...)),
			Key: Key{U64(pick(t, "i", ids...)), uint8(pick(t, "t", types...)), U64(pick(t, "f", offs...))},
			Gen: U64(pick(t, "g", gens...)), Seed: U64(i), Len: genLen(t), Zero: rapid.IntRange(0, 7).Draw(t, "zero") == 5}
		if isMetaKey(uint64(v.Owner), v.Key) {
			continue
		}
		vs = append(vs, v)
	}
	return vs
}

// genLen prefers lengths at which typed payloads are complete.
func genLen(t *rapid.T) int {
	return pick(t, "len", 160, 0, 53, 200, 25, rapid.IntRange(0, 60).Draw(t, "lenr"))
}

// fillers are n regular items that make the database deep enough to have
// inner pages.
func fillers(n int) (out []VSpec) {
	for i := 0; i < n; i++ {
		out = append(out, VSpec{Owner: oFS, Key: Key{U64(250 + i/9), []uint8{tDirItem, tExtentData, tInodeItem}[i%3], U64(i % 9 / 3 * 4096)},
			Gen: U64(1 + i%4), Seed: U64(i), Len: 20 + i%200})
	}
	return
}

func genFiller(t *rapid.T) int {
	if rapid.IntRange(0, 9).Draw(t, "filler?") > 0 {
		return 0
	}
	return rapid.IntRange(20, 600).Draw(t, "filler")
}

// ---- C02

type caseC02 struct {
	Filler  int
	Vers    []VSpec
	Gen     U64
	Queries []VSpec // owner and key only
}

func genC02(t *rapid.T) any {
	c := &caseC02{Vers: genVers(t, 24, true), Filler: genFiller(t)}
	all := append(fillers(c.Filler), c.Vers...)
	c.Gen = U64(genU(t, "qgen", poolGens, rapid.Uint64()))
	if len(c.Vers) > 0 && rapid.Bool().Draw(t, "qg") {
		c.Gen = U64(uint64(pick(t, "qgv", c.Vers...).Gen) + pick(t, "d", uint64(0), maxU, uint64(1)))
	}
	for i := rapid.IntRange(1, 8).Draw(t, "nq"); i > 0; i-- {
		q := VSpec{Owner: U64(genU(t, "qo", poolOwners, rapid.Uint64())), Key: genKey(t, "q")}
		if len(all) > 0 && rapid.IntRange(0, 3).Draw(t, "near") > 0 {
			v := pick(t, "qv", all...)
			q.Owner, q.Key = v.Owner, v.Key
			switch rapid.IntRange(0, 6).Draw(t, "mut") {
			case 0:
				q.Key.Off += U64(pick(t, "do", uint64(1), maxU))
			case 1:
				q.Key.ID += U64(pick(t, "di", uint64(1), maxU))
			case 2:
				q.Key.Type += pick(t, "dt", uint8(1), uint8(255))
			case 3:
				q.Owner += U64(pick(t, "dw", uint64(1), maxU))
			}
		}
		if isMetaKey(uint64(q.Owner), q.Key) {
			continue
		}
		c.Queries = append(c.Queries, q)
	}
	return c
}

func checkC02(x *Ctx, v any) error {
	c := v.(*caseC02)
	vs := toVers(append(fillers(c.Filler), c.Vers...))
	x.LabelIf(c.Filler > 0, "large index")
	p := x.Path("m.db")
	buildIndex(p, vs)
	ref := newRefIx(vs)
	ix := openAt(p, uint64(c.Gen))
	defer ix.Close()
	for _, q := range c.Queries {
		o, k := uint64(q.Owner), q.Key
		want := ref.find(o, k, uint64(c.Gen))
		got := ix.FindItem(o, rkey(k))
		if err := sameItem(fmt.Sprintf("FindItem(%d, %v) at generation %d", o, k, c.Gen), got, want); err != nil {
			return err
		}
		// Typed queries.
		typed := func(name string, tk Key, got []byte, minLen int) error {
			w := ref.find(o, tk, uint64(c.Gen))
			if name == "FindExtentItem" {
				w = ref.find(oExtent, tk, uint64(c.Gen))
			}
			if w != nil && got == nil && len(w.Data) < minLen {
				return nil // too short to be of its type
			}
			if w == nil != (got == nil) && !(w != nil && len(w.Data) == 0 && len(got) == 0) {
				return bad("%s(%d, %v): found=%v, want found=%v", name, o, tk, got != nil, w != nil)
			}
			if w != nil && !bytes.Equal(got, w.Data) {
				return bad("%s(%d, %v): got %x, want %x", name, o, tk, got, w.Data)
			}
			return nil
		}
		if err := typed("FindInodeItem", Key{k.ID, tInodeItem, 0}, ix.FindInodeItem(o, uint64(k.ID)), 160); err != nil {
			return err
		}
		if err := typed("FindFileExtentItem", Key{k.ID, tExtentData, 0}, ix.FindFileExtentItem(o, uint64(k.ID)), 53); err != nil {
			return err
		}
		if err := typed("FindExtentItem", Key{k.ID, tExtentItem, k.Off}, ix.FindExtentItem(uint64(k.ID), uint64(k.Off)), 24); err != nil {
			return err
		}
		x.LabelIf(want == nil, "absent")
		if want != nil {
			n := 0
			newer := 0
			for _, v := range ref {
				if v.Owner == o && v.Key == k {
					n++
					if v.Gen > uint64(c.Gen) {
						newer++
					}
				}
			}
			x.LabelIf(n > 1, "several versions")
			x.LabelIf(newer == n, "all newer")
			x.LabelIf(newer > 0 && newer < n, "between versions")
			x.NonTrivialIf(n > 1)
		}
	}
	return nil
}

func sameItem(what string, got btrfs.Item, want *Ver) error {
	if want == nil {
		if got != nil {
			return bad("%s: got %x, want nothing", what, []byte(got))
		}
		return nil
	}
	if got == nil {
		return bad("%s: nothing found, want version %d", what, want.Gen)
	}
	if got.Key() != rkey(want.Key) || !bytes.Equal(got.Data(), want.Data) {
		return bad("%s: got key %v data %x, want key %v generation %d data %x", what, got.Key(), got.Data(), want.Key,
			want.Gen, want.Data)
	}
	return nil
}

// ---- C03

type caseC03 struct {
	Filler  int
	Vers    []VSpec
	Gen     U64
	Queries []rangeQ
}

type rangeQ struct {
	Kind        string // range all subvolumes dir xattr extents chunks devitems
	Owner       U64
	First, Last Key
}

func genC03(t *rapid.T) any {
	c := &caseC03{Vers: genVers(t, 30, true), Filler: genFiller(t)}
	fill := fillers(c.Filler)
	c.Gen = U64(genU(t, "qgen", poolGens, rapid.Uint64()))
	if rapid.Bool().Draw(t, "latest") {
		c.Gen = U64(maxU)
	}
	// Items for the canned listings.
	canned := [][2]uint64{{oRoot, tRootItem}, {oChunk, tChunk}, {oChunk, tDevItem}, {oFS, tDirItem}, {oFS, tXAttr}, {oFS, tExtentData}}
	if rapid.Bool().Draw(t, "canned") {
		wi := rapid.IntRange(0, len(canned)-1).Draw(t, "which")
		w := canned[wi]
		oneID := wi != 0 && rapid.IntRange(0, 3).Draw(t, "oneid") > 0
		var the uint64 = []uint64{0, 256, 1, 257, 256, 258}[wi]
		c.Queries = append(c.Queries, rangeQ{Kind: []string{"subvolumes", "chunks", "devitems", "dir", "xattr", "extents"}[wi],
			Owner: U64(w[0]), First: Key{ID: U64(the)}})
		for i := rapid.IntRange(1, 10).Draw(t, "nc"); i > 0; i-- {
			id := genU(t, "cid", []uint64{256, 257, 258, 260, 1, 2, 5, 255, lastFree, lastFree + 1, maxU - 8}, rapid.Uint64Range(256, 1<<20))
			if oneID {
				id = the
			}
			c.Vers = append(c.Vers, VSpec{Owner: U64(w[0]), Key: Key{U64(id), uint8(w[1]), U64(genU(t, "coff", poolOffs, rapid.Uint64()))},
				Gen: U64(pick(t, "cg", poolGens...)), Seed: U64(i + 1000), Len: rapid.IntRange(0, 40).Draw(t, "clen")})
		}
	}
	for i := rapid.IntRange(1, 6).Draw(t, "nq"); i > 0; i-- {
		q := rangeQ{Kind: pick(t, "kind", "range", "range", "all", "subvolumes", "dir", "xattr", "extents", "chunks", "devitems")}
		near := func(n_ string) (U64, Key) {
			if n := len(c.Vers) + len(fill); n > 0 && rapid.IntRange(0, 3).Draw(t, n_+"near") > 0 {
				v := pick(t, n_+"v", append(fill[:len(fill):len(fill)], c.Vers...)...)
				k := v.Key
				switch rapid.IntRange(0, 5).Draw(t, n_+"mut") {
				case 0:
					k.Off += U64(pick(t, n_+"do", uint64(1), maxU))
				case 1:
					k.ID += U64(pick(t, n_+"di", uint64(1), maxU))
				case 2:
					k.Off = 0
				}
				return v.Owner, k
			}
			return U64(pick(t, n_+"o", poolOwners...)), genKey(t, n_+"k")
		}
		q.Owner, q.First = near("f")
		_, q.Last = near("l")
		if cmpKey(q.Last, q.First) < 0 && rapid.IntRange(0, 7).Draw(t, "swap") > 0 {
			q.First, q.Last = q.Last, q.First
		}
		c.Queries = append(c.Queries, q)
	}
	return c
}

type yielded struct {
	owner uint64
	key   btrfs.Key
	gen   uint64
	data  []byte
	item  btrfs.Item
}

func drain(r index.Range, v []byte, limit int) (out []yielded, err error) {
	for ; r.HasNext(); v = r.Next() {
		if len(out) >= limit {
			return out, bad("scan does not end (%d items so far)", len(out))
		}
		out = append(out, yielded{r.Owner(), r.Key(), r.Generation(), append([]byte(nil), v...), r.Item()})
	}
	return
}

func sameScan(what string, got []yielded, want []*Ver) error {
	ws := func() string {
		s := ""
		for _, w := range want {
			s += fmt.Sprintf(" %v@%d", w.Key, w.Gen)
		}
		return s
	}
	for i, g := range got {
		if i >= len(want) {
			return bad("%s: unexpected item %v@%d of owner %d after the last of%s", what, g.key, g.gen, g.owner, ws())
		}
		w := want[i]
		if g.owner != w.Owner || g.key != rkey(w.Key) || g.gen != w.Gen {
			return bad("%s: item %d is owner %d %v@%d, want owner %d %v@%d of%s", what, i, g.owner, g.key, g.gen, w.Owner, w.Key, w.Gen, ws())
		}
		if !bytes.Equal(g.data, w.Data) || !bytes.Equal(g.item.Data(), w.Data) {
			return bad("%s: item %v@%d has data %x / %x, want %x", what, w.Key, w.Gen, g.data, g.item.Data(), w.Data)
		}
	}
	if len(got) < len(want) {
		return bad("%s: %d items, want %d:%s", what, len(got), len(want), ws())
	}
	return nil
}

func checkC03(x *Ctx, v any) error {
	c := v.(*caseC03)
	vs := toVers(append(fillers(c.Filler), c.Vers...))
	x.LabelIf(c.Filler > 0, "large index")
	p := x.Path("m.db")
	buildIndex(p, vs)
	ref := newRefIx(vs)
	ix := openAt(p, uint64(c.Gen))
	defer ix.Close()
	limit := len(vs) + 5
	g := uint64(c.Gen)
	for _, q := range c.Queries {
		o := uint64(q.Owner)
		if o == maxU && q.Kind == "range" && q.Last.Type == 255 {
			continue // would include the index's own record
		}
		var r index.Range
		var d []byte
		var want []*Ver
		id := uint64(q.First.ID)
		switch q.Kind {
		case "range":
			r, d = ix.Range(o, rkey(q.First), rkey(q.Last))
			want = ref.rng(o, q.First, q.Last, g)
		case "all":
			if o == maxU && q.First.Type == 255 {
				continue
			}
			r, d = ix.RangeAll(o, q.First.Type, id)
			want = ref.all(o, q.First.Type, id, g)
		case "subvolumes":
			r, d = ix.Subvolumes()
			want = ref.rng(oRoot, Key{firstFree, tRootItem, 0}, Key{U64(lastFree), tRootItem, U64(maxU)}, g)
		case "dir":
			r, d = ix.DirItems(o, id)
			want = ref.all(o, tDirItem, id, g)
		case "xattr":
			r, d = ix.XAttrItems(o, id)
			want = ref.all(o, tXAttr, id, g)
		case "extents":
			r, d = ix.FileExtentItems(o, id)
			want = ref.all(o, tExtentData, id, g)
		case "chunks":
			r, d = ix.Chunks()
			want = ref.all(oChunk, tChunk, 256, g)
		case "devitems":
			r, d = ix.DevItems()
			want = ref.all(oChunk, tDevItem, 1, g)
		}
		what := fmt.Sprintf("%s owner %d %v..%v at generation %d", q.Kind, o, q.First, q.Last, g)
		got, err := drain(r, d, limit)
		if err != nil {
			return bad("%s: %v", what, err)
		}
		if err := sameScan(what, got, want); err != nil {
			return err
		}
		x.LabelIf(len(want) == 0, "empty range")
		x.LabelIf(len(want) > 1, "several items")
		mixed := false
		for _, w := range want {
			mixed = mixed || w.Gen != want[0].Gen
		}
		x.LabelIf(mixed, "mixed generations")
		x.LabelIf(q.Kind != "range" && len(want) > 1, "listing "+q.Kind)
		x.NonTrivialIf(mixed)
		x.LabelIf(q.Kind == "range" && len(want) > 0 && want[0].Key != q.First, "gap at start")
	}
	return nil
}

// ---- C25: stateful history

type ixOp struct {
	Op   string // insert many commit reopen reopenRO query raw
	V    *VSpec `json:",omitempty"`
	N    int    `json:",omitempty"`
	Seed U64    `json:",omitempty"`
}

type caseC25 struct{ Ops []ixOp }

func genC25(t *rapid.T) any {
	c := &caseC25{}
	pool := genVers(t, 14, false)
	bulk := rapid.IntRange(0, 19).Draw(t, "bulk") == 0
	for i := rapid.IntRange(1, 25).Draw(t, "nops"); i > 0; i-- {
		kinds := []string{"insert", "insert", "insert", "commit", "reopen", "reopenRO", "query", "raw"}
		if bulk {
			kinds = append(kinds, "many")
		}
		op := ixOp{Op: pick(t, "op", kinds...)}
		switch op.Op {
		case "insert":
			if len(pool) == 0 {
				op.Op = "query"
				break
			}
			v := pick(t, "v", pool...)
			v.Seed = U64(rapid.IntRange(0, 1000).Draw(t, "seed"))
			v.Len = rapid.IntRange(0, 60).Draw(t, "len")
			if rapid.IntRange(0, 15).Draw(t, "big?") == 7 {
				v.Len = rapid.IntRange(1000, 65000).Draw(t, "biglen") // overflow pages
			}
			op.V = &v
		case "many":
			op.N = pick(t, "n", 1000, 9999, 10000, 10001, 10002, 20003)
			op.Seed = U64(rapid.IntRange(0, 5).Draw(t, "mseed"))
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func manyVer(seed uint64, i int) Ver {
	return Ver{oFS, Key{U64(1000 + i), tInodeItem, 0}, 1 + seed, patternBytes(seed*31+uint64(i), 0, uint64(i%5))}
}

func checkC25(x *Ctx, v any) error {
	c := v.(*caseC25)
	p := x.Path("m.db")
	opts := func() *index.Options {
		return &index.Options{BlockSize: 4096, FSID: testFSID, Generation: maxU}
	}
	ix, err := index.Open(p, 0o644, opts())
	if err != nil {
		return bad("open new: %v", err)
	}
	ro := false
	closed := false
	defer func() {
		if !closed {
			ix.Close()
		}
	}()
	var model []Ver
	nreopen, ncommit, ndup := 0, 0, 0
	seen := map[string]bool{}
	query := func(when string) error {
		ref := newRefIx(model)
		// Full point-lookup and scan agreement; for large models sample.
		step := 1
		if len(ref) > 200 {
			step = len(ref) / 100
		}
		for i := 0; i < len(ref); i += step {
			want := ref.find2(i)
			if err := sameItem(fmt.Sprintf("%s: FindItem(%d, %v)", when, want.Owner, want.Key), ix.FindItem(want.Owner, rkey(want.Key)), want); err != nil {
				return err
			}
		}
		owners := map[uint64]bool{oFS: true}
		for _, v := range model {
			owners[v.Owner] = true
		}
		var os []uint64
		for o := range owners {
			os = append(os, o)
		}
		sort.Slice(os, func(i, j int) bool { return os[i] < os[j] })
		for _, o := range os {
			first, last := Key{0, 0, 0}, Key{U64(maxU), 254, U64(maxU)}
			r, d := ix.Range(o, rkey(first), rkey(last))
			got, err := drain(r, d, len(model)+5)
			if err != nil {
				return bad("%s: %v", when, err)
			}
			if err := sameScan(fmt.Sprintf("%s: scan of owner %d", when, o), got, ref.rng(o, first, last, maxU)); err != nil {
				return err
			}
		}
		m := ix.Metadata()
		if m.BlockSize() != 4096 || m.FSID() != testFSID || m.Version() != index.MetadataVersion || m.Generation() != maxU {
			return bad("%s: metadata record changed: %x", when, []byte(m))
		}
		return nil
	}
	for i, op := range c.Ops {
		when := fmt.Sprintf("after op %d (%s)", i, op.Op)
		switch op.Op {
		case "insert", "many":
			if ro {
				continue
			}
			var vs []Ver
			if op.Op == "insert" {
				vs = []Ver{op.V.ver()}
			} else {
				for k := 0; k < op.N; k++ {
					vs = append(vs, manyVer(uint64(op.Seed), k))
				}
				x.Label("bulk insert")
			}
			for _, v := range vs {
				if err := insertVer(ix, v); err != nil {
					return bad("%s: insert: %v", when, err)
				}
				id := fmt.Sprint(v.Owner, v.Key, v.Gen)
				if seen[id] {
					ndup++
				}
				seen[id] = true
			}
			model = append(model, vs...)
		case "commit":
			if ro {
				continue
			}
			if err := ix.Commit(); err != nil {
				return bad("%s: %v", when, err)
			}
			ncommit++
		case "raw":
			if ro {
				continue
			}
			n := 0
			if err := ix.RawTx(func(db *bbolt.DB, tx *bbolt.Tx, b *bbolt.Bucket) error {
				return b.ForEach(func(k, v []byte) error { n++; return nil })
			}); err != nil {
				return bad("%s: %v", when, err)
			}
			if want := len(newRefIx(model)) + 1; n != want {
				return bad("%s: %d records, want %d", when, n, want)
			}
			x.Label("raw transaction")
		case "reopen", "reopenRO":
			ix.Close()
			closed = true
			ro = op.Op == "reopenRO"
			var err error
			if ro {
				ix, err = index.OpenReadOnly(p)
			} else {
				ix, err = index.Open(p, 0o644, opts())
			}
			if err != nil {
				return bad("%s: %v", when, err)
			}
			closed = false
			nreopen++
		}
		if op.Op != "many" || len(c.Ops) < 4 || i == len(c.Ops)-1 {
			if err := query(when); err != nil {
				return err
			}
		}
	}
	ix.Close()
	closed = true
	if ix, err = index.OpenReadOnly(p); err != nil {
		return bad("final reopen: %v", err)
	}
	closed = false
	if err := query("after final reopen"); err != nil {
		return err
	}
	x.LabelIf(nreopen > 0, "reopen")
	x.LabelIf(ncommit > 0, "commit")
	x.LabelIf(ndup > 0, "replaced version")
	x.NonTrivialIf(len(model) > 1 && (nreopen > 0 || ncommit > 0))
	return nil
}

// find2 is the visible version (latest) of the item that r[i] belongs to.
func (r RefIx) find2(i int) *Ver {
	for i > 0 && r[i-1].Owner == r[i].Owner && r[i-1].Key == r[i].Key {
		i--
	}
	return r.visible(i, r.group(i), maxU)
}

// ---- C18: opening

type openOp struct {
	Op        string // openRW openRO insert record garbage missing
	BlockSize int    `json:",omitempty"`
	FSID      U64    `json:",omitempty"` // small number
	Gen       U64    `json:",omitempty"`
	Version   U64    `json:",omitempty"`
	AllowOld  bool   `json:",omitempty"`
}

type caseC18 struct {
	Initial string // missing, fresh, garbage, empty, noindex
	Seed    U64
	Ops     []openOp
}

func mkFSID(n U64) uuid.UUID {
	var u uuid.UUID
	switch n {
	case 998: // all zeros, all ones
		return u
	case 999:
		return uuid.UUID(bytes.Repeat([]byte{255}, 16))
	}
	solid(uint64(n)+77, 0, u[:])
	// Ids that differ in a single byte are the interesting ones.
	if n >= 10 && n < 26 {
		u = mkFSID(0)
		u[n-10] ^= 1
	}
	return u
}

func genC18(t *rapid.T) any {
	c := &caseC18{Initial: pick(t, "initial", "missing", "missing", "missing", "empty", "garbage", "noindex", "norecord"),
		Seed: U64(rapid.Uint64Range(0, 1<<20).Draw(t, "seed"))}
	for i := rapid.IntRange(1, 10).Draw(t, "n"); i > 0; i-- {
		op := openOp{Op: pick(t, "op", "openRW", "openRW", "openRW", "openRO", "openROopt", "record")}
		op.BlockSize = pick(t, "bs", 4096, 16384, 4096, 65536, 16384+1<<16, 0, 1)
		op.FSID = U64(pick(t, "fsid", 0, 0, 1, 10, 17, 25, 998, 999))
		op.Gen = U64(pick(t, "gen", maxU, 1, 0, 77))
		switch op.Op {
		case "record":
			op.Version = U64(pick(t, "ver", uint64(20190809), 20190809, 20161109, 20190808, 20190810, 0, maxU, 20190809+1<<32))
		case "openRW":
			op.AllowOld = rapid.IntRange(0, 9).Draw(t, "old") == 0
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func metaRecord(ver uint64, bs uint32, fsid uuid.UUID, gen uint64) []byte {
	var w wbuf
	w.u64(ver)
	w.u32(bs)
	w.raw(fsid[:])
	w.u64(gen)
	return w
}

var rawMetaKey = bytes.Join([][]byte{bytes.Repeat([]byte{255}, 9), {255, 255, 255, 255, 255, 255, 255, 0}, bytes.Repeat([]byte{255}, 16)}, nil)

// rawDump reads all records of a metadata file with bbolt directly.
func rawDump(path string) (map[string]string, error) {
	st, err := os.Stat(path)
	if err != nil || st.Size() == 0 {
		return nil, err
	}
	db, err := bbolt.Open(path, 0o644, &bbolt.Options{ReadOnly: true, Timeout: 5 * time.Second})
	if err != nil {
		return nil, err
	}
	defer db.Close()
	m := map[string]string{}
	err = db.View(func(tx *bbolt.Tx) error {
		b := tx.Bucket([]byte("index"))
		if b == nil {
			m["no bucket"] = ""
			return nil
		}
		return b.ForEach(func(k, v []byte) error { m[string(k)] = string(v); return nil })
	})
	return m, err
}

func lockFree(path string) (bool, error) {
	f, err := os.Open(path)
	if os.IsNotExist(err) {
		return true, nil
	} else if err != nil {
		return false, err
	}
	defer f.Close()
	err = syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB)
	if err == syscall.EWOULDBLOCK {
		return false, nil
	}
	return true, err
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func checkC18(x *Ctx, v any) error {
	c := v.(*caseC18)
	p := x.Path("m.db")
	const curVersion = 20190809
	type rec struct {
		ver  uint64
		bs   uint32
		fsid uuid.UUID
		gen  uint64
	}
	var cur *rec // nil: no record
	state := c.Initial
	switch c.Initial {
	case "empty":
		must(os.WriteFile(p, nil, 0o644))
	case "garbage":
		must(os.WriteFile(p, patternBytes(uint64(c.Seed), 0, 1+uint64(c.Seed)%40000), 0o644))
	case "noindex", "norecord":
		db := must1(bbolt.Open(p, 0o644, nil))
		must(db.Update(func(tx *bbolt.Tx) error {
			n := "other"
			if c.Initial == "norecord" {
				n = "index"
			}
			_, err := tx.CreateBucket([]byte(n))
			return err
		}))
		must(db.Close())
	}
	item := VSpec{Owner: oFS, Key: Key{256, tInodeItem, 0}, Gen: 1, Len: 20}.ver()
	refused := 0
	for i, op := range c.Ops {
		when := fmt.Sprintf("op %d %+v on %+v (initially %s)", i, op, cur, c.Initial)
		if op.Op == "record" {
			if cur == nil {
				continue
			}
			cur = &rec{uint64(op.Version), uint32(op.BlockSize), mkFSID(op.FSID), uint64(op.Gen)}
			db := must1(bbolt.Open(p, 0o644, nil))
			must(db.Update(func(tx *bbolt.Tx) error {
				return tx.Bucket([]byte("index")).Put(rawMetaKey, metaRecord(cur.ver, cur.bs, cur.fsid, cur.gen))
			}))
			must(db.Close())
			continue
		}
		if free, err := lockFree(p); err != nil || !free {
			return bad("%s: the metadata file is still locked by an earlier open", when)
		}
		raw0, rawErr0 := os.ReadFile(p)
		before, _ := rawDump(p)
		var ix *index.Index
		var err error
		wantOK := false
		rw := false
		bs, fsid := uint32(op.BlockSize), mkFSID(op.FSID)
		switch op.Op {
		case "openRW":
			rw = true
			ix, err = index.Open(p, 0o644, &index.Options{BlockSize: uint(op.BlockSize), FSID: fsid, Generation: uint64(op.Gen), AllowOldVersion: op.AllowOld})
			switch {
			case state == "garbage":
				wantOK = false
			case cur == nil:
				wantOK = true
			case cur.ver > curVersion:
			case cur.ver < curVersion && !op.AllowOld:
			case op.AllowOld:
				wantOK = true
			default:
				wantOK = cur.bs == bs && cur.fsid == fsid
			}
		case "openRO", "openROopt":
			gen := maxU
			if op.Op == "openRO" {
				ix, err = index.OpenReadOnly(p)
			} else {
				if state == "missing" {
					continue // opening a missing file for reading is left to OpenReadOnly
				}
				gen = uint64(op.Gen)
				ix, err = index.Open(p, 0o644, &index.Options{ReadOnly: true, Generation: gen})
			}
			wantOK = cur != nil && cur.ver == curVersion
			if err == nil && ix.Generation != gen {
				ix.Close()
				return bad("%s: opened at generation %d, want %d", when, ix.Generation, gen)
			}
		}
		if wantOK != (err == nil) {
			if err == nil {
				ix.Close()
			}
			return bad("%s: error %v, want success=%v", when, err, wantOK)
		}
		if err != nil {
			refused++
			x.Label("refused " + op.Op)
			if free, e := lockFree(p); e != nil || !free {
				return bad("%s: failed open leaves the metadata file locked, later opens block (%v)", when, e)
			}
			// Contents unchanged, and a missing file stays missing.
			if state == "missing" {
				if _, e := os.Stat(p); e == nil {
					return bad("%s: failed open created the file", when)
				}
			} else if state == "garbage" || state == "empty" || !rw {
				raw1, rawErr1 := os.ReadFile(p)
				if (rawErr0 == nil) != (rawErr1 == nil) || !bytes.Equal(raw0, raw1) {
					return bad("%s: failed open changed the file", when)
				}
			} else {
				after, e := rawDump(p)
				if e != nil || !sameMap(before, after) {
					return bad("%s: failed open changed the contents (%v)", when, e)
				}
			}
			continue
		}
		x.Label("opened " + op.Op)
		if cur == nil {
			cur = &rec{curVersion, bs, fsid, uint64(op.Gen)}
			state = "valid"
			x.Label("created")
		}
		m := ix.Metadata()
		if m.Version() != cur.ver || m.BlockSize() != cur.bs || m.FSID() != cur.fsid || m.Generation() != cur.gen {
			ix.Close()
			return bad("%s: record reads version %d block size %d fsid %s generation %d", when, m.Version(), m.BlockSize(), m.FSID(), m.Generation())
		}
		if rw {
			if err := insertVer(ix, item); err != nil {
				ix.Close()
				return bad("%s: insert: %v", when, err)
			}
		}
		ix.Close()
		after, e := rawDump(p)
		if e != nil || after[string(rawMetaKey)] != string(metaRecord(cur.ver, cur.bs, cur.fsid, cur.gen)) {
			return bad("%s: stored record is %x (%v)", when, after[string(rawMetaKey)], e)
		}
	}
	x.NonTrivialIf(refused > 0 && cur != nil)
	return nil
}

// ---- C19

type caseC19 struct {
	Chunks  []chunkVer
	Queries []U64 // index<<40 | distance, resolved below
	Extra   []VSpec
	// Gen is the generation to open at; nil: the newest.
	Gen *U64 `json:",omitempty"`
}

type chunkVer struct {
	Logical U64
	Rec     ChunkRec
	Gen     U64
	Order   int
}

func genC19(t *rapid.T) any {
	c := &caseC19{}
	var pos uint64 = pick(t, "start", uint64(0), 1<<20, 1<<22, 13631488, 1<<40)
	n := rapid.IntRange(1, 9).Draw(t, "n")
	for i := 0; i < n; i++ {
		pos += pick(t, "gap", uint64(0), 0, 4096, 1<<20, 1<<30, 1<<36)
		length := pick(t, "len", uint64(4096), 65536, 1<<20, 8<<20, 1<<30)
		nv := rapid.IntRange(1, 3).Draw(t, "nv")
		for j := 0; j < nv; j++ {
			cv := chunkVer{Logical: U64(pos), Gen: U64(genU(t, "gen", poolGens, rapid.Uint64())), Order: rapid.IntRange(0, 99).Draw(t, "order")}
			cv.Rec.Length = U64(length)
			cv.Rec.Type = U64(pick(t, "ct", 1, 2, 4, 36))
			for k := rapid.IntRange(1, 3).Draw(t, "stripes"); k > 0; k-- {
				cv.Rec.Stripes = append(cv.Rec.Stripes, Stripe{U64(rapid.Uint64Range(1, 5).Draw(t, "dev")), U64(pick(t, "so", uint64(0), 1<<20, 1<<30) + 4096*rapid.Uint64Range(0, 1<<20).Draw(t, "soff"))})
			}
			c.Chunks = append(c.Chunks, cv)
		}
		pos += length
	}
	// Removed chunks whose addresses were given to others.
	if rapid.IntRange(0, 2).Draw(t, "was?") == 1 {
		for i := rapid.IntRange(1, 4).Draw(t, "was"); i > 0; i-- {
			o := pick(t, "wasof", c.Chunks...)
			o.Gen = U64(genU(t, "gen", poolGens, rapid.Uint64()))
			o.Logical += U64(pick(t, "wasat", uint64(4096), 512, uint64(o.Rec.Length)/2, 1<<64-4096, uint64(o.Rec.Length), 1<<20))
			o.Rec.Length = U64(pick(t, "waslen", uint64(4096), 8192, 1<<20, 1<<30, 1<<36))
			o.Rec.Stripes = []Stripe{{U64(rapid.Uint64Range(1, 5).Draw(t, "dev")), U64(4096 * rapid.Uint64Range(0, 1<<20).Draw(t, "soff"))}}
			if uint64(o.Logical) < 1<<62 {
				c.Chunks = append(c.Chunks, o)
			}
		}
	}
	for i := rapid.IntRange(1, 12).Draw(t, "nq"); i > 0; i-- {
		ch := pick(t, "qc", c.Chunks...)
		l := uint64(ch.Rec.Length)
		d := pick(t, "qd", 0, l-1, l/2, 1, rapid.Uint64Range(0, l-1).Draw(t, "qr"), l, 1<<64-1, l+rapid.Uint64Range(0, 1<<40).Draw(t, "qo"), 1<<64-1-rapid.Uint64Range(0, 1<<40).Draw(t, "qu"))
		c.Queries = append(c.Queries, ch.Logical+U64(d))
	}
	for i := rapid.IntRange(0, 4).Draw(t, "extra"); i > 0; i-- {
		c.Extra = append(c.Extra, VSpec{Owner: oChunk, Key: Key{U64(pick(t, "eid", 1, 255, 257)), uint8(pick(t, "et", tDevItem, tChunk, tChunk-1, tChunk+1)), U64(rapid.Uint64().Draw(t, "eo"))}, Gen: 3, Len: 80, Seed: U64(i)})
	}
	if rapid.IntRange(0, 3).Draw(t, "gen?") == 2 {
		g := pick(t, "qgv", c.Chunks...).Gen
		c.Gen = &g
	}
	return c
}

func checkC19(x *Ctx, v any) error {
	c := v.(*caseC19)
	chunks := append([]chunkVer(nil), c.Chunks...)
	sort.SliceStable(chunks, func(i, j int) bool { return chunks[i].Order < chunks[j].Order })
	vs := toVers(c.Extra)
	for _, ch := range chunks {
		vs = append(vs, Ver{oChunk, Key{256, tChunk, ch.Logical}, uint64(ch.Gen), encChunk(ch.Rec)})
	}
	p := x.Path("m.db")
	buildIndex(p, vs)
	// The newest record of each chunk counts; the last inserted of equals.
	newest := map[U64]chunkVer{}
	for _, ch := range chunks {
		if c.Gen != nil && ch.Gen > *c.Gen {
			continue
		}
		if o, ok := newest[ch.Logical]; !ok || ch.Gen >= o.Gen {
			newest[ch.Logical] = ch
		}
	}
	gen := maxU
	if c.Gen != nil {
		gen = uint64(*c.Gen)
		x.Label("at a generation")
	}
	ix := openAt(p, gen)
	defer ix.Close()
	devnull := muteStdout()
	defer devnull()
	for round := 0; round < 2; round++ {
		for i := range c.Queries {
			q := c.Queries[i]
			if round == 1 {
				q = c.Queries[len(c.Queries)-1-i]
			}
			// Of several chunks, the newest counts.
			var at []chunkVer
			for _, ch := range newest {
				if q >= ch.Logical && q-ch.Logical < ch.Rec.Length {
					at = append(at, ch)
				}
			}
			sort.Slice(at, func(i, j int) bool { return at[i].Gen > at[j].Gen })
			open := len(at) > 1 && at[0].Gen == at[1].Gen
			for _, ch := range chunks { // of which there are newer records only, or which got shorter
				_, ok := newest[ch.Logical]
				open = open || (!ok || len(at) == 0) && q >= ch.Logical && q-ch.Logical < ch.Rec.Length
			}
			if open {
				x.Label("left open")
				continue
			}
			x.LabelIf(len(at) > 1, "overlapping chunks")
			if len(at) == 0 {
				if dev, off := ix.Physical(uint64(q)); dev != 0 {
					return bad("Physical(%d) = device %d offset %d, although no chunk has that address", q, dev, off)
				}
				x.Label("outside of all chunks")
			}
			for i, ch := range at {
				if i == 0 {
					dev, off := ix.Physical(uint64(q))
					s := ch.Rec.Stripes[0]
					if dev != uint64(s.Dev) || off != uint64(s.Off+q-ch.Logical) {
						return bad("Physical(%d) = device %d offset %d, want device %d offset %d (chunk %d+%d, generation %d)", q, dev, off,
							s.Dev, s.Off+q-ch.Logical, ch.Logical, ch.Rec.Length, ch.Gen)
					}
					x.LabelIf(q == ch.Logical, "first byte")
					x.LabelIf(q-ch.Logical == ch.Rec.Length-1, "last byte")
				}
			}
		}
	}
	x.LabelIf(len(newest) > 1, "several chunks")
	x.LabelIf(len(newest) < len(c.Chunks), "stale chunk records")
	x.NonTrivialIf(len(newest) > 1)
	return nil
}

// muteStdout silences debug output of the code under test.
func muteStdout() func() {
	old := os.Stdout
	f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return func() {}
	}
	os.Stdout = f
	return func() { os.Stdout = old; f.Close() }
}

func init() {
	register(&Sub{Name: "C02/point", Quick: 40000, Thorough: 400000, New: func() any { return &caseC02{} }, Gen: genC02, Check: checkC02,
		Rule: "drawn sets of item versions with dense neighbouring keys, queried at drawn generations by FindItem and the typed Find* functions; non-trivial: a queried item has at least two versions"})
	register(&Sub{Name: "C03/scan", Quick: 40000, Thorough: 400000, New: func() any { return &caseC03{} }, Gen: genC03, Check: checkC03,
		Rule: "drawn sets of item versions scanned by drawn ranges and by every canned listing; non-trivial: the expected items of a scan have different generations"})
	register(&Sub{Name: "C25/history", Quick: 15000, Thorough: 150000, New: func() any { return &caseC25{} }, Gen: genC25, Check: checkC25,
		Rule: "drawn operation histories (insert, bulk insert beyond the batch limit, commit, raw transaction, reopen, query) against a reference index, compared in full after every step; non-trivial: several items and a commit or reopen"})
	register(&Sub{Name: "C18/open", Quick: 20000, Thorough: 200000, New: func() any { return &caseC18{} }, Gen: genC18, Check: checkC18,
		Rule: "drawn sequences of opens with matching and mismatching parameters over metadata of drawn versions, missing, empty, foreign and garbage files; non-trivial: at least one refused open on existing metadata"})
	register(&Sub{Name: "C19/physical", Quick: 40000, Thorough: 400000, New: func() any { return &caseC19{} }, Gen: genC19, Check: checkC19,
		Rule: "drawn chunk sets with stale records, disjoint or overlapping with older ones, queried at first, last and inner addresses in drawn order, twice; non-trivial: more than one chunk"})
}
