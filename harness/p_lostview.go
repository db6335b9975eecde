package main

// C12/view: the mounted view of a filesystem of which items are lost.

import (
	"os"

	"pgregory.net/rapid"
)

type lostItem struct {
	Kind int // 0: the inode of a directory, 1: any inode, 2: any item
	Sel  int
	All  bool `json:",omitempty"` // older copies as well
}

type caseLostView struct {
	W    *World
	Lost []lostItem
	Ops  []fsOp
}

func genLostView(t *rapid.T) any {
	c := &caseLostView{}
	c.W = genWorld(t, WOpt{MaxNodes: 16, Subvols: 2, Special: true, Xattrs: true, Collide: true, Stale: rapid.IntRange(0, 3).Draw(t, "stale?") == 2})
	for i, n := 0, rapid.IntRange(1, 12).Draw(t, "lost"); i < n; i++ {
		c.Lost = append(c.Lost, lostItem{rapid.IntRange(0, 2).Draw(t, "kind"), rapid.IntRange(0, 300).Draw(t, "sel"),
			rapid.IntRange(0, 3).Draw(t, "all") > 0})
	}
	c.Ops = genOps(t, 0, 20, "lookup", "lookup", "lookup", "missing", "readdir", "readdirplus", "attr", "xattr", "data", "forget")
	return c
}

func (c *caseLostView) apply(vs []Ver, v *View) []Ver {
	isFile := func(o uint64) bool { return o == oFS || o >= firstFree && o < 1<<48 }
	gone := map[int]bool{}
	for _, l := range c.Lost {
		var can []int
		for i, k := range vs {
			if !isFile(k.Owner) {
				continue
			}
			switch l.Kind {
			case 0:
				if k.Key.Type == tInodeItem && len(v.dir(k.Owner, uint64(k.Key.ID))) > 0 {
					can = append(can, i)
				}
			case 1:
				if k.Key.Type == tInodeItem {
					can = append(can, i)
				}
			default:
				can = append(can, i)
			}
		}
		if len(can) == 0 {
			continue
		}
		k := vs[can[l.Sel%len(can)]]
		gone[can[l.Sel%len(can)]] = true
		for i, o := range vs {
			if l.All && o.Owner == k.Owner && o.Key == k.Key {
				gone[i] = true
			}
		}
	}
	var left []Ver
	for i, k := range vs {
		if !gone[i] {
			left = append(left, k)
		}
	}
	return left
}

func checkLostView(x *Ctx, v any) error {
	c := v.(*caseLostView)
	b := newRecBox(x)
	b.img, b.meta = b.box+"/disk.img", b.box+"/meta.db"
	vs := c.W.versions()
	left := c.apply(vs, newView(vs, ""))
	must(b.prepare(c.W, left, false))
	b.own(b.img)
	b.own(b.meta)
	ref := newView(left, b.img)
	defer ref.close()
	fs, err := b.mount(x.Bin, false)
	if err != nil {
		return err
	}
	defer fs.kill()
	cl := newClient(fs, ref, must1(os.ReadFile(b.meta)))
	for _, op := range c.Ops {
		if err := cl.do(op); err != nil {
			return err
		}
	}
	if err := cl.sweep(true); err != nil {
		return err
	}
	if err := fs.stop(); err != nil {
		return err
	}
	lostDirs := 0
	for _, n := range cl.nodes {
		if _, ok := ref.inode(n.owner, n.ino); n.what == mTree && n.typ == ftDir && !ok && len(ref.dir(n.owner, n.ino)) > 0 {
			lostDirs++
		}
	}
	x.LabelIf(lostDirs > 0, "a directory without its inode")
	x.LabelIf(len(cl.nodes) > 8, "more than 8 nodes seen")
	x.NonTrivialIf(cl.stats.lost > 0 && cl.stats.lookups > 2)
	return nil
}

func init() {
	register(&Sub{Name: "C12/view", Quick: 2000, Thorough: 12000, NeedBin: true,
		Rule: "inodes and other items of a generated filesystem are lost; in the mounted view all directories that are still named have to be there with all that is known of them, files without an inode have the type of their directory entry and the size of their extents, and the rest is as in the reference; non-trivial: a node without its inode was seen, and more than 2 lookups",
		New:  func() any { return &caseLostView{} }, Gen: genLostView, Check: checkLostView})
}
