package main

// C37: data whose place on the device is unknown is reported, never guessed.

import (
	"os"

	"pgregory.net/rapid"
)

type caseUnmapped struct {
	W    *World
	Lost int // set of lost chunk records
	// Moved extents lead out of all chunks.
	Moved []unmappedExt
	Ops   []fsOp `json:",omitempty"`
	NoIno U64    `json:",omitempty"` // which inodes are lost
}

type unmappedExt struct {
	Sel   int // which of all extents
	Chunk int
	Where int
	By    U64
}

func genUnmapped(t *rapid.T) any {
	c := &caseUnmapped{W: genWorld(t, WOpt{MaxNodes: 10, Subvols: 1, FarPhys: true, Stale: true, Over: true})}
	c.W.Was = nil
	c.NoIno = genNoIno(t)
	c.Lost = rapid.IntRange(0, 1<<len(c.W.Chunks)-1).Draw(t, "lost")
	n := rapid.IntRange(0, 3).Draw(t, "moved")
	if c.Lost == 0 {
		n++
	}
	for ; n > 0; n-- {
		c.Moved = append(c.Moved, unmappedExt{rapid.IntRange(0, 40).Draw(t, "sel"), rapid.IntRange(0, 4).Draw(t, "chunk"), rapid.IntRange(0, 4).Draw(t, "where"),
			U64(pick(t, "by", uint64(0), 1, sector, 1<<20, 1<<32, 1<<44) + rapid.Uint64Range(0, 100).Draw(t, "byn")*sector)})
	}
	return c
}

func genUnmappedMount(t *rapid.T) any {
	c := genUnmapped(t).(*caseUnmapped)
	c.Ops = genOps(t, 3, 25, "lookup", "readdirplus", "data", "data", "data", "attr")
	return c
}

// apply returns what is left of the items, and the ranges of files that are not
// at a known place.
func (c *caseUnmapped) apply(vs []Ver, v *View) ([]Ver, ranges) {
	var out []Ver
	lost := map[U64]bool{}
	for i, ch := range c.W.Chunks {
		if c.Lost>>i&1 == 1 {
			lost[ch.Logical] = true
		}
	}
	for _, x := range vs {
		if !(x.Owner == oChunk && x.Key.Type == tChunk && lost[x.Key.Off]) {
			out = append(out, x)
		}
	}
	// mapped tells whether some record, of whatever age, covers an address.
	mapped := func(logical uint64) bool {
		for _, x := range out {
			if x.Owner == oChunk && x.Key.Type == tChunk && x.Key.ID == firstFree && logical-uint64(x.Key.Off) < le.Uint64(x.Data) && logical >= uint64(x.Key.Off) {
				return true
			}
		}
		return false
	}
	type slot struct {
		k  dirKey
		at uint64
	}
	var slots []slot
	moved := map[slot]bool{}
	for _, n := range v.tree() {
		if n.E.Type != ftReg {
			continue
		}
		k := dirKey{n.Owner, uint64(n.E.Loc.ID)}
		offs, exts := v.extents(k[0], k[1])
		for i, e := range exts {
			if e.Type == 1 && e.DiskByte != 0 {
				slots = append(slots, slot{k, offs[i]})
			}
		}
	}
	for _, m := range c.Moved {
		if len(slots) == 0 {
			break
		}
		s := slots[m.Sel%len(slots)]
		ch := c.W.Chunks[m.Chunk%len(c.W.Chunks)]
		to := uint64(ch.Logical+ch.Len) + uint64(m.By)
		switch m.Where {
		case 1: // below
			to = uint64(ch.Logical) - sector - uint64(m.By)
		case 2:
			to = 1 + uint64(m.By)/2
		case 3:
			to = maxU - uint64(m.By)
		}
		if to == 0 || mapped(to) {
			continue
		}
		best := -1
		for i, x := range out {
			if x.Owner == s.k[0] && x.Key == (Key{U64(s.k[1]), tExtentData, U64(s.at)}) && (best < 0 || x.Gen >= out[best].Gen) {
				best = i
			}
		}
		d := append([]byte(nil), out[best].Data...)
		le.PutUint64(d[21:], to)
		out[best].Data = d
		moved[s] = true
	}
	gone := ranges{}
	for _, n := range v.tree() {
		if n.E.Type != ftReg {
			continue
		}
		k := dirKey{n.Owner, uint64(n.E.Loc.ID)}
		if gone[k] != nil {
			continue // another name of it
		}
		offs, exts := v.extents(k[0], k[1])
		size := v.content(k[0], k[1]).Size
		for _, s := range v.layout(k[0], k[1]) {
			e := exts[s.i]
			if s.off < size && e.Type == 1 && e.DiskByte != 0 && (moved[slot{k, offs[s.i]}] || !mapped(uint64(e.DiskByte))) {
				gone[k] = append(gone[k], [2]uint64{s.off, s.end})
			}
		}
	}
	return out, gone
}

func checkUnmappedRecover(x *Ctx, v any) error {
	c := v.(*caseUnmapped)
	b := newRecBox(x)
	vs := withoutInodes(c.W.versions(), c.NoIno)
	full := x.Path("full.img")
	c.W.writeDataImage(full)
	ref := newView(vs, full)
	defer ref.close()
	if newTreeCheck(ref, b.box).ambiguous() || maxDepthLen(ref) > 3500 {
		x.Label("left out")
		return nil
	}
	left, gone := c.apply(vs, ref)
	c.labels(x)
	return recoverPartly(x, b, c.W, ref, left, gone, "unmapped")
}

func (c *caseUnmapped) labels(x *Ctx) {
	x.LabelIf(c.Lost == 1<<len(c.W.Chunks)-1, "all chunk records lost")
	x.LabelIf(c.Lost > 0, "chunk records lost")
	x.LabelIf(c.NoIno > 0, "lost inodes")
	x.LabelIf(len(c.Moved) > 0, "addresses outside of the chunks")
}

func checkUnmappedMount(x *Ctx, v any) error {
	c := v.(*caseUnmapped)
	b := newRecBox(x)
	b.img, b.meta = b.box+"/disk.img", b.box+"/meta.db"
	vs := withoutInodes(c.W.versions(), c.NoIno)
	full := x.Path("full.img")
	c.W.writeDataImage(full)
	ref := newView(vs, full)
	defer ref.close()
	left, gone := c.apply(vs, ref)
	must(b.prepare(c.W, left, false))
	b.own(b.img)
	b.own(b.meta)
	fs, err := b.mount(x.Bin, false)
	if err != nil {
		return err
	}
	defer fs.kill()
	cl := newClient(fs, ref, must1(os.ReadFile(b.meta)))
	cl.enc = gone
	for _, op := range c.Ops {
		if err := cl.do(op); err != nil {
			return err
		}
	}
	if err := cl.sweep(true); err != nil {
		return err
	}
	if err := fs.stop(); err != nil {
		return err
	}
	c.labels(x)
	x.LabelIf(cl.stats.failed > 0 && cl.stats.reads > cl.stats.failed, "some reads failed, others did not")
	x.NonTrivialIf(cl.stats.failed > 0)
	return nil
}

func init() {
	register(&Sub{Name: "C37/recover", Quick: 1500, Thorough: 9000, NeedBin: true,
		Rule: "chunk records of a generated filesystem are lost, or extents lead to addresses outside of all chunks; files with such extents have to be named on stderr, with the right size, zeros there and the right bytes elsewhere, all others are compared in full; non-trivial: a file with such an extent",
		New:  func() any { return &caseUnmapped{} }, Gen: genUnmapped, Check: checkUnmappedRecover})
	register(&Sub{Name: "C37/mount", Quick: 1500, Thorough: 9000, NeedBin: true,
		Rule: "the same through the mounted view: reads that touch such an extent fail, all others are right; non-trivial: a read failed",
		New:  func() any { return &caseUnmapped{} }, Gen: genUnmappedMount, Check: checkUnmappedMount})
}
