package main

// C33: several commands working on one metadata file at the same time.

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
)

type caseConc struct {
	W     *World
	Extra []VSpec
	Many  int
	Part  []int // as in caseC16; image 0 is scanned first, alone, if Base
	N     int
	Base  bool
	Reads []int // delays of readers in ms
	Delay []int // delays of writers in ms
	Twice bool  // an image is scanned by two commands at once
	Kill  int   // the first writer is killed after that time in ms; 0: not
	Lay2  U64
}

func genConc(t *rapid.T) any {
	c := &caseConc{W: genWorld(t, WOpt{MaxNodes: 6, Subvols: 1, Stale: true, NoData: true})}
	c.Extra = genVers(t, 30, false)
	c.N = rapid.IntRange(2, 4).Draw(t, "images")
	c.Part = rapid.SliceOfN(rapid.IntRange(1, 1<<c.N-1), 3, 12).Draw(t, "part")
	c.Lay2 = U64(rapid.Uint64Range(0, 1<<20).Draw(t, "lay2"))
	c.Base = rapid.IntRange(0, 3).Draw(t, "base") > 0
	c.Reads = rapid.SliceOfN(rapid.IntRange(0, 60), 0, 4).Draw(t, "reads")
	c.Delay = rapid.SliceOfN(rapid.IntRange(0, 30), 1, 4).Draw(t, "delay")
	c.Twice = rapid.IntRange(0, 3).Draw(t, "twice") == 0
	switch rapid.IntRange(0, 5).Draw(t, "many?") {
	case 2, 3:
		c.Many = rapid.IntRange(500, 5000).Draw(t, "some")
	case 4:
		c.Many = rapid.IntRange(9000, 30000).Draw(t, "many")
	}
	if rapid.IntRange(0, 3).Draw(t, "kill?") == 1 && c.Base {
		c.Kill = rapid.IntRange(1, 80).Draw(t, "kill")
	}
	return c
}

func checkConc(x *Ctx, v any) (err error) {
	c := v.(*caseConc)
	vs := dedupe(append(append(c.W.versions(), toVers(c.Extra)...), manyItems(c.Many)...))
	parts := make([][]Ver, c.N)
	for i, v := range vs {
		for k := 0; k < c.N; k++ {
			if c.Part[i%len(c.Part)]>>k&1 == 1 {
				parts[k] = append(parts[k], v)
			}
		}
	}
	var imgs []string
	for k := 0; k < c.N; k++ {
		w := *c.W
		w.Lay = c.Lay2 + U64(k)
		if len(parts[k]) == 0 {
			w.Decoys = 0
		}
		p := x.Path(fmt.Sprintf("disk%d.img", k))
		w.image(parts[k]).write(p)
		imgs = append(imgs, p)
	}
	meta := x.Path("meta.db")
	args := func(k int) []string {
		return []string{"recon", "--block-size", fmt.Sprint(c.W.BS), "--id", fsidText(c.W.fsid()), "--metadata", meta, imgs[k]}
	}
	writers := []int{}
	if c.Base {
		if _, err := x.ok(runOpt{}, args(0)...); err != nil {
			return err
		}
	} else {
		writers = append(writers, 0)
	}
	for k := 1; k < c.N; k++ {
		writers = append(writers, k)
	}
	if c.Twice {
		writers = append(writers, writers[len(writers)-1])
	}
	var wg sync.WaitGroup
	type end struct {
		r     *Res
		err   error
		from  time.Time
		to    time.Time
		infra any
	}
	spawn := func(delay, kill int, args []string) *end {
		e := &end{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					e.infra = p
				}
			}()
			time.Sleep(time.Duration(delay) * time.Millisecond)
			e.from = time.Now()
			e.r = run(x.Bin, runOpt{stuckOK: true, killAt: time.Duration(kill) * time.Millisecond}, append([]string{"-p=false"}, args...)...)
			e.to = time.Now()
		}()
		return e
	}
	var ws, rs []*end
	for i, k := range writers {
		kill := 0
		if i == 0 {
			kill = c.Kill
		}
		ws = append(ws, spawn(c.Delay[i%len(c.Delay)], kill, args(k)))
	}
	for _, d := range c.Reads {
		rs = append(rs, spawn(d, 0, []string{"dump-index", "--metadata", meta}))
	}
	wg.Wait()
	overlap := false
	for i, e := range append(append([]*end{}, ws...), rs...) {
		if e.infra != nil {
			panic(e.infra)
		}
		for _, f := range ws {
			overlap = overlap || e != f && e.from.Before(f.to) && f.from.Before(e.to)
		}
		if i == 0 && c.Kill > 0 && e.r.Code == -1 && !e.r.Stuck {
			continue
		}
		if err := e.r.crashed(); err != nil {
			return bad("a command running at the same time as others %v", err)
		}
	}
	killed := c.Kill > 0 && ws[0].r.Code == -1
	for i, e := range ws {
		if e.r.Code != 0 && !(i == 0 && killed) {
			return bad("recon %d, running at the same time as others, failed with status %d: %s", i, e.r.Code, head(e.r.Err))
		}
	}
	// must: what is in the metadata; may: what can be, by the killed command.
	have := func(ks ...int) map[string]Ver {
		m := map[string]Ver{}
		for _, k := range ks {
			for _, v := range parts[k] {
				m[rawKey(v)] = v
			}
		}
		return m
	}
	var all []int
	if c.Base {
		all = append(all, 0)
	}
	for i, k := range writers {
		if i > 0 || !killed {
			all = append(all, k)
		}
	}
	got, err := rawDump(meta)
	if err != nil {
		return bad("metadata unreadable: %v", err)
	}
	want := have(all...)
	if killed {
		for _, v := range parts[writers[0]] {
			if _, ok := got[rawKey(v)]; ok {
				want[rawKey(v)] = v
			}
		}
	}
	if err := sameMetadata(got, want); err != nil {
		return bad("after recon runs at the same time: %v", err)
	}
	// Each reader saw the result of some of the runs.
	for _, e := range rs {
		if e.r.Code != 0 {
			if !c.Base {
				continue // maybe too early
			}
			return bad("dump-index, running at the same time as recon, failed with status %d: %s", e.r.Code, head(e.r.Err))
		}
		set := map[string]bool{}
		owner, n := "", 0
		for _, l := range lines(e.r.Out) {
			if strings.HasPrefix(l, "owner ") {
				owner = l[6:]
				continue
			}
			set[owner+" "+l] = true
			n++
		}
		has := func(v Ver) bool {
			for _, k := range keyTexts(v.Key) {
				if set[fmt.Sprintf("%d %s @ %d", v.Owner, k, v.Gen)] {
					return true
				}
			}
			return false
		}
		seen := map[string]Ver{}
		runs := 0
		for i, k := range append([]int{0}, writers...) {
			full := true
			for _, v := range parts[k] {
				full = full && has(v)
			}
			switch {
			case full:
				runs++
				for _, v := range parts[k] {
					seen[rawKey(v)] = v
				}
			case i == 0 && c.Base:
				return bad("dump-index, running at the same time as recon, lacks items that were there before")
			case i == 1 && killed:
				for _, v := range parts[k] {
					if has(v) {
						seen[rawKey(v)] = v
					}
				}
			}
		}
		if len(seen) != n {
			return bad("dump-index, running at the same time as recon, shows %d items; those of whole runs are %d", n, len(seen))
		}
		x.LabelIf(runs <= len(writers) && c.Base, "reader before the last writer")
	}
	if killed {
		if _, err := x.ok(runOpt{}, args(writers[0])...); err != nil {
			return err
		}
		if got, err = rawDump(meta); err != nil {
			return bad("metadata unreadable: %v", err)
		}
		if err := sameMetadata(got, have(append(all, writers[0])...)); err != nil {
			return bad("after a killed recon and another one: %v", err)
		}
		x.Label("a command killed")
	}
	os.Remove(meta)
	x.LabelIf(len(rs) > 0, "readers")
	x.LabelIf(len(writers) > 2, "more than two writers")
	x.LabelIf(!c.Base, "no metadata at first")
	x.NonTrivialIf(overlap && len(vs) > 10)
	return nil
}

func init() {
	register(&Sub{Name: "C33/concurrent", Quick: 400, Thorough: 4000, NeedBin: true,
		Rule: "1-5 recon runs of several images and up to 4 dump-index runs started at the same time on one metadata file, one of them sometimes killed; the final records are the union, each reader's output is the union of whole runs; non-trivial: the runs overlapped in time",
		New:  func() any { return &caseConc{} }, Gen: genConc, Check: checkConc})
}
