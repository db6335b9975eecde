package main

// C12/copies: metadata is stored twice; where one copy of a leaf is damaged, the
// other one counts, in whatever order they are found.

import (
	"fmt"

	"pgregory.net/rapid"
)

type copyDamage struct {
	Kind int
	A, B U64
}

type caseCopies struct {
	W      *World
	Extra  []VSpec
	Dmg    []copyDamage // leaf i has copies damaged by Dmg[i%len]; Kind 0: none
	Bad    []int        // damaged copies of leaf i: 1, 2 or none
	Images int          // the copies are on one image or on two of the same device
	Order  []int        // runs of recon
	Lay2   U64
}

func genCopies(t *rapid.T) any {
	c := &caseCopies{W: genWorld(t, WOpt{MaxNodes: 10, Subvols: 1, Stale: true, Xattrs: true, NoData: true})}
	c.W.Decoys = 0
	if rapid.IntRange(0, 2).Draw(t, "extra?") == 1 {
		c.Extra = genVers(t, 40, false)
	}
	for i, n := 0, rapid.IntRange(1, 8).Draw(t, "damage"); i < n; i++ {
		c.Dmg = append(c.Dmg, copyDamage{rapid.IntRange(0, 9).Draw(t, "kind"),
			U64(rapid.Uint64Range(0, 1<<20).Draw(t, "a")), U64(rapid.Uint64Range(0, 1<<20).Draw(t, "b"))})
	}
	c.Bad = rapid.SliceOfN(rapid.IntRange(0, 2), 1, 9).Draw(t, "bad")
	c.Images = 1
	c.Order = []int{0}
	switch rapid.IntRange(0, 3).Draw(t, "images") {
	case 1:
		c.Images, c.Order = 2, []int{0, 1}
	case 2:
		c.Order = []int{0, 0}
	case 3:
		c.Images, c.Order = 2, rapid.SliceOfN(rapid.IntRange(0, 1), 2, 4).Draw(t, "order")
	}
	c.Lay2 = U64(rapid.Uint64Range(0, 1<<20).Draw(t, "lay2"))
	return c
}

// hurt damages a leaf, and tells whether its keys and data positions are as
// they were.
func (d copyDamage) hurt(b []byte, items int) (out []byte, keys bool) {
	out = append([]byte(nil), b...)
	r := splitmix(uint64(d.B))
	table := hdrLen + items*itemLen
	k := int(d.A) % items
	it := hdrLen + k*itemLen
	switch d.Kind {
	case 1: // bits of what the items hold, or of the free space
		for i, n := 0, 1+r.intn(3); i < n; i++ {
			out[table+r.intn(len(out)-table)] ^= byte(1 + r.intn(255))
		}
		return out, true
	case 2: // bits of one item
		off, size := int(le.Uint32(b[it+17:])), int(le.Uint32(b[it+21:]))
		if size == 0 {
			off, size = table-hdrLen, len(out)-table
		}
		out[hdrLen+off+r.intn(size)] ^= byte(1 + r.intn(255))
		return out, true
	case 3: // all of the data is gone
		clear(out[table:])
		return out, true
	case 4: // sectors are gone
		from := 512 * (int(d.A) % (len(out) / 512))
		clear(out[from:])
		return out, from >= table
	case 5: // sectors hold something else
		from := 512 * (int(d.A) % (len(out) / 512))
		n := min(512*(1+r.intn(4)), len(out)-from)
		pattern(uint64(d.B), 0, out[from:from+n])
		return out, from >= table
	case 6: // item table
		out[it+r.intn(itemLen)] ^= byte(1 + r.intn(255))
		return out, false
	case 7: // number of items
		le.PutUint32(out[96:], uint32(r.next()%uint64(2*items+2)))
		return out, false
	case 8: // header
		out[r.intn(hdrLen)] ^= byte(1 + r.intn(255))
		return out, false
	case 9: // nothing is left
		clear(out)
		return out, true
	}
	return out, true
}

func checkCopies(x *Ctx, v any) error {
	c := v.(*caseCopies)
	vs := dedupe(append(c.W.versions(), toVers(c.Extra)...))
	r := splitmix(uint64(c.Lay2))
	blocks := packLeaves(vs, c.W.BS, c.W.fsid(), &r, false)
	parts := make([][]Block, c.Images)
	exact, hit, content := true, 0, 0
	for i, b := range blocks {
		bad := c.Bad[i%len(c.Bad)]
		d := c.Dmg[i%len(c.Dmg)]
		putCsum(b.Data) // of the kind that can be verified
		for n := 1; n <= 2; n++ {
			cp := b
			if n == bad {
				var same bool
				cp.Data, same = d.hurt(b.Data, len(b.Vers))
				exact = exact && same
				if d.Kind > 0 {
					hit++
				}
				if d.Kind >= 1 && d.Kind <= 5 && same {
					content++
				}
			}
			k := (n - 1) % c.Images
			parts[k] = append(parts[k], cp)
		}
	}
	meta := x.Path("meta.db")
	var imgs []string
	for k, p := range parts {
		im := &Image{W: c.W, Size: max(minDevSize(uint64(c.W.BS)), dataStart+6*8<<20) + uint64(c.W.Tail)}
		place(p, uint64(c.W.BS), dataStart, im.Size, &r, false)
		im.Blocks = p
		imgs = append(imgs, x.Path(fmt.Sprintf("disk%d.img", k)))
		im.write(imgs[k])
	}
	seen := map[int]bool{}
	for _, k := range c.Order {
		if _, err := x.ok(runOpt{}, "recon", "--block-size", fmt.Sprint(c.W.BS), "--id", fsidText(c.W.fsid()), "--metadata", meta, imgs[k]); err != nil {
			return err
		}
		seen[k] = true
	}
	if len(seen) < c.Images {
		x.Label("one half only")
		return nil
	}
	got, err := rawDump(meta)
	if err != nil {
		return bad("metadata unreadable: %v", err)
	}
	want := map[string]Ver{}
	for _, v := range vs {
		want[rawKey(v)] = v
	}
	if !exact { // what the damaged items hold may be there as well
		for k := range got {
			if _, ok := want[k]; !ok {
				delete(got, k)
			}
		}
	}
	if err := sameMetadata(got, want); err != nil {
		return bad("one copy of each leaf is undamaged: %v", err)
	}
	x.LabelIf(exact && hit > 0, "only contents damaged")
	x.LabelIf(!exact, "keys or header damaged")
	x.LabelIf(c.Images > 1, "two images")
	x.NonTrivialIf(content > 0 && len(vs) > 10)
	return nil
}

func init() {
	register(&Sub{Name: "C12/copies", Quick: 3000, Thorough: 20000, NeedBin: true,
		Rule: "every leaf of a generated filesystem is stored twice, one of the copies of most is damaged (flipped bits, lost or foreign sectors, item table, header), in any order, on one image or on two of the same device; every item must be in the metadata as in the undamaged copy; non-trivial: a copy with damaged contents and intact keys, and more than 10 item versions",
		New:  func() any { return &caseCopies{} }, Gen: genCopies, Check: checkCopies})
}
