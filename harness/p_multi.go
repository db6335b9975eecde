package main

// C36: the remains of several filesystems on one device are told apart.

import (
	"fmt"
	"os"
	"strings"

	"pgregory.net/rapid"
)

type caseMulti struct {
	Worlds []*World
	IDs    []int // distinct
	Lost   []int // percentage of the leaves of each that others have taken
	Lay    U64
	Min    int // --min-occurrence
	Order  U64
	Again  bool // recon of all of them once more, into the same files
	Mount  bool
	Dense  bool // all leaves in a row
}

func genMulti(t *rapid.T) any {
	c := &caseMulti{Lay: U64(rapid.Uint64Range(0, 1<<20).Draw(t, "lay")), Order: U64(rapid.Uint64Range(0, 100).Draw(t, "order")),
		Again: rapid.IntRange(0, 3).Draw(t, "again") == 2, Mount: rapid.IntRange(0, 7).Draw(t, "mount") == 5}
	n := pick(t, "filesystems", 2, 3, 2, 4, 1)
	ids := rapid.Permutation([]int{1, 10, 11, 12, 13, 17, 25, 40, 77}).Draw(t, "ids")
	bs := 0
	for i := 0; i < n; i++ {
		if i > 0 && rapid.IntRange(0, 4).Draw(t, "clone") == 2 {
			// The same at an earlier or later time.
			w := *c.Worlds[i-1]
			w.Stale, w.Over = nil, nil
			w.Gens += 3
			w.Subs = append([]WSub(nil), w.Subs...)
			s := &w.Subs[rapid.IntRange(0, len(w.Subs)-1).Draw(t, "clonesub")]
			s.Nodes = append([]WNode(nil), s.Nodes...)
			for j := range s.Nodes {
				if nd := &s.Nodes[j]; nd.Type == ftReg && rapid.Bool().Draw(t, "differs") {
					nd.Inode.Size += U64(j + 1)
				}
			}
			c.Worlds = append(c.Worlds, &w)
		} else {
			c.Worlds = append(c.Worlds, genWorld(t, WOpt{MaxNodes: 7, Subvols: 1, Collide: true, Stale: true, Over: true}))
		}
		c.IDs = append(c.IDs, ids[i])
		c.Lost = append(c.Lost, max(0, rapid.IntRange(-80, 60).Draw(t, "lost")))
		bs = max(bs, c.Worlds[i].BS)
	}
	for i, w := range c.Worlds {
		w.BS, w.FS, w.Tail = bs, ids[i], c.Worlds[0].Tail
	}
	c.Dense = rapid.Bool().Draw(t, "dense")
	c.Min = pick(t, "min", 1, 1, 2, 4)
	return c
}

func checkMulti(x *Ctx, v any) error {
	c := v.(*caseMulti)
	box := newRecBox(x)
	bs := uint64(c.Worlds[0].BS)
	size := max(minDevSize(bs), dataStart+6*8<<20) + uint64(c.Worlds[0].Tail)
	r := splitmix(c.Lay)
	var all []Block
	lost := make([]int, len(c.Worlds))
	left := make([][]Ver, len(c.Worlds))
	img := box.box + "/disk.img"
	f := must1(os.Create(img))
	defer f.Close()
	must(f.Truncate(int64(size)))
	for i, w := range c.Worlds {
		w.writeData(f)
		for _, b := range w.image(w.versions()).Blocks {
			if b.Vers != nil && r.intn(100) < c.Lost[i] {
				lost[i]++
				continue
			}
			left[i] = append(left[i], b.Vers...)
			all = append(all, b)
		}
	}
	shuffle(uint64(c.Lay), len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	place(all, bs, dataStart, size, &r, c.Dense)
	for i, s := range []uint64{super1, super2} {
		// The copies of the superblock need not be of the same filesystem.
		if s+4096 <= size {
			must1(f.WriteAt(c.Worlds[(i+int(c.Order))%len(c.Worlds)].superblock(s), int64(s)))
		}
	}
	for _, b := range all {
		must1(f.WriteAt(b.Data, int64(b.Phys)))
	}
	// identify lists them all.
	var whole [][]byte
	data := must1(os.ReadFile(img))
	for at := uint64(0); at+bs <= size; at += bs {
		whole = append(whole, data[at:at+bs])
	}
	res, err := x.ok(runOpt{}, "identify", "--machine", "--block-size", fmt.Sprint(bs), "--min-blocks", "10000000", "--min-occurrence", fmt.Sprint(c.Min), img)
	if err != nil {
		return err
	}
	list, err := parseIdentify(string(res.Out), true)
	if err != nil {
		return err
	}
	if err := rankError(list, countLeaves(whole), uint(c.Min)); err != nil {
		return bad("%v\n%s", err, res.Out)
	}
	data, whole = nil, nil
	// recon and recover with the ids as printed.
	run := func(i int, text string) error {
		b := *box
		b.img, b.meta = img, x.Path(fmt.Sprintf("meta%d.db", i))
		for k := 0; k == 0 || k == 1 && c.Again; k++ {
			if _, err := x.ok(runOpt{}, "recon", "--block-size", fmt.Sprint(bs), "--id", text, "--metadata", b.meta, img); err != nil {
				return err
			}
		}
		want := map[string]Ver{}
		for _, v := range left[i] {
			want[rawKey(v)] = v
		}
		got, err := rawDump(b.meta)
		if err != nil {
			return bad("metadata unreadable: %v", err)
		}
		if err := sameMetadata(got, want); err != nil {
			return err
		}
		if lost[i] > 0 {
			return nil
		}
		view := newView(left[i], img)
		defer view.close()
		dest := b.mkdir(fmt.Sprintf("%s/dest%d", b.box, i))
		tc := newTreeCheck(view, dest)
		if tc.ambiguous() || maxDepthLen(view) > 3500 {
			x.Label("left out")
			return nil
		}
		r, err := b.recover(dest, false)
		if err == nil && r.Code != 0 {
			err = bad("recover failed with status %d: %s", r.Code, head(r.Err))
		}
		if err == nil {
			err = tc.check()
		}
		if err != nil {
			return err
		}
		if c.Mount {
			b.own(b.img)
			b.own(b.meta)
			fs, err := b.mount(x.Bin, false)
			if err != nil {
				return err
			}
			defer fs.kill()
			if err := newClient(fs, view, must1(os.ReadFile(b.meta))).sweep(true); err != nil {
				return err
			}
			x.Label("mounted")
			return fs.stop()
		}
		return nil
	}
	for k := range c.Worlds {
		i := (k + int(c.Order)) % len(c.Worlds)
		text := fsidText(c.Worlds[i].fsid())
		for _, word := range strings.Fields(string(res.Out)) { // as printed
			if u, ok := refParse(word); ok && string(u[:]) == string(c.Worlds[i].fsid()) {
				text = word
			}
		}
		if err := run(i, text); err != nil {
			return bad2(err, "filesystem %d (%s), %d leaves lost", i, text, lost[i])
		}
	}
	whole1, hurt := 0, 0
	for _, n := range lost {
		if n == 0 {
			whole1++
		} else {
			hurt++
		}
	}
	x.Label("%d filesystems", len(c.Worlds))
	x.LabelIf(hurt > 0 && whole1 > 0, "some with losses, some whole")
	x.NonTrivialIf(len(c.Worlds) > 1 && whole1 > 0 && len(all) > 10)
	return nil
}

func init() {
	register(&Sub{Name: "C36/together", Quick: 700, Thorough: 6000, NeedBin: true,
		Rule: "leaves, data and superblocks of 1-4 filesystems with the same object ids and similar filesystem ids on one image, some leaves of some overwritten; identify has to list all, recon and recover (sometimes the mounted view) with the id of each have to show that one alone; non-trivial: at least two filesystems, one of them whole",
		New:  func() any { return &caseMulti{} }, Gen: genMulti, Check: checkMulti})
}
