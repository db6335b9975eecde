package main

// C06/kept: with --clobber, what is in the place of a symbolic link only gives
// way to the link.

import (
	"os"
	"path/filepath"
	"syscall"

	"pgregory.net/rapid"
)

type caseKept struct {
	W    *World
	Fate []int // of the links: what is wrong with the target
	Pre  []int // what is in their place
}

func genKept(t *rapid.T) any {
	return &caseKept{W: genWorld(t, WOpt{MaxNodes: 14, Subvols: 1, Links: true}),
		Fate: rapid.SliceOfN(rapid.IntRange(0, 7), 1, 6).Draw(t, "fate"),
		Pre:  rapid.SliceOfN(rapid.IntRange(0, 4), 1, 6).Draw(t, "pre")}
}

func checkKept(x *Ctx, v any) error {
	c := v.(*caseKept)
	vs := c.W.versions()
	b := newRecBox(x)
	full := x.Path("full.img")
	c.W.writeDataImage(full)
	ref := newView(vs, full)
	defer ref.close()
	if newTreeCheck(ref, b.box).ambiguous() || maxDepthLen(ref) > 3500 {
		x.Label("left out")
		return nil
	}
	dest := b.mkdir(b.box + "/dest")
	fate := map[dirKey]int{} // of an inode
	type link struct {
		rel, target string
		pre, fate   int
	}
	var links []link
	for _, n := range ref.tree() {
		if n.E.Type != ftLink {
			continue
		}
		k := dirKey{n.Owner, uint64(n.E.Loc.ID)}
		if _, ok := fate[k]; !ok {
			fate[k] = c.Fate[len(fate)%len(c.Fate)]
		}
		ct := ref.content(k[0], k[1])
		links = append(links, link{n.Rel, string(ct.read(0, ct.Size)), c.Pre[len(links)%len(c.Pre)], fate[k]})
	}
	var left []Ver
	for _, e := range vs {
		f := fate[dirKey{e.Owner, uint64(e.Key.ID)}]
		if e.Key.Type == tExtentData && f > 0 && len(e.Data) >= 21 {
			d := append([]byte(nil), e.Data...)
			switch f {
			case 1, 2: // lost
				continue
			case 3:
				d[16] = 1
			case 4:
				d[17] = 1
			case 5: // empty
				d = d[:21]
				d[20] = 0
				le.PutUint64(d[8:], 0)
			case 6: // not a path
				d = append(d[:21:21], "to\x00nowhere"...)
				d[20] = 0
				le.PutUint64(d[8:], 10)
			case 7: // stored where the filesystem has nothing
				d = append(d[:21:21], make([]byte, 32)...)
				d[16], d[20] = 0, 1
				le.PutUint64(d[21:], 1<<61)
				le.PutUint64(d[29:], 4096)
				le.PutUint64(d[45:], 4096)
			}
			e.Data = d
		}
		left = append(left, e)
	}
	must(b.prepare(c.W, left, false))
	for i, l := range links {
		b.mkdir(filepath.Dir(dest + l.rel))
		switch l.pre {
		case 1:
			b.file(dest+l.rel, patternBytes(uint64(i), 3, 1000), 0o644)
		case 2:
			must(os.Symlink("from before", dest+l.rel))
			b.own(dest + l.rel)
		case 3:
			must(syscall.Mkfifo(dest+l.rel, 0o600))
			b.own(dest + l.rel)
		case 4:
			b.file(dest+l.rel, nil, 0o400)
		}
	}
	before := treeSum(b.box)
	r, err := b.recover(dest, true)
	if err == nil && r.Code != 0 {
		err = bad("recover failed with status %d: %s", r.Code, head(r.Err))
	}
	if err != nil {
		return err
	}
	after := treeSum(b.box)
	kept, made := 0, 0
	for _, l := range links {
		if l.fate == 0 {
			if to, err := os.Readlink(dest + l.rel); err != nil || to != l.target {
				return bad("symbolic link %q: %v, leads to %q, want %q", l.rel, err, to, l.target)
			}
			made++
			continue
		}
		if a, b := before["/dest"+l.rel], after["/dest"+l.rel]; a != b {
			return bad("the target of symbolic link %q cannot be restored (%d), in its place was %q, now: %q", l.rel, l.fate, a, b)
		}
		if l.pre > 0 {
			kept++
		}
	}
	x.LabelIf(made > 0, "replaced")
	x.LabelIf(kept > 0, "kept")
	x.NonTrivialIf(kept > 0)
	return nil
}
