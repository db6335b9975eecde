package main

// C35: a recovery that was interrupted can be done again.

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// cutRun is a run of recover that gets killed, and what is lost with it.
type cutRun struct {
	Clobber bool
	Call    string
	When    int // before which of these calls; -1: the run ends by itself
	Tears   []tear
}

// tear is a file whose last writes did not get to the disk.
type tear struct {
	At   int
	Part int // of 16 that is left
	Zero bool
}

type caseC35 struct {
	W     *World
	Runs  []cutRun
	Final bool // --clobber
	Own   int  // other files in the destination
}

func genC35(t *rapid.T) any {
	c := &caseC35{W: genWorld(t, WOpt{MaxNodes: 14, Subvols: 2, Special: true, Collide: true, Big: true, Stale: true, Over: true})}
	for i := rapid.IntRange(1, 3).Draw(t, "runs"); i > 0; i-- {
		r := cutRun{Clobber: rapid.Bool().Draw(t, "clobber"),
			Call: pick(t, "call", "pwrite64", "ftruncate", "openat", "symlinkat", "mkdirat", "unlinkat", "close", "newfstatat", "pread64"),
			When: rapid.IntRange(0, 14).Draw(t, "when")}
		if rapid.IntRange(0, 7).Draw(t, "ends") == 4 {
			r.When = -1
		}
		for j := rapid.IntRange(0, 2).Draw(t, "tears"); j > 0; j-- {
			r.Tears = append(r.Tears, tear{rapid.IntRange(0, 20).Draw(t, "at"), rapid.IntRange(0, 15).Draw(t, "part"), rapid.Bool().Draw(t, "zero")})
		}
		c.Runs = append(c.Runs, r)
	}
	c.Final = rapid.IntRange(0, 3).Draw(t, "final") != 2
	c.Own = rapid.IntRange(0, 3).Draw(t, "own")
	return c
}

func checkC35(x *Ctx, v any) error {
	c := v.(*caseC35)
	b := newRecBox(x)
	vs := c.W.versions()
	must(b.prepare(c.W, vs, false))
	view := newView(vs, b.img)
	defer view.close()
	dest := b.mkdir(b.box + "/dest")
	out := b.mkdir(b.box + "/outside")
	b.file(out+"/canary", []byte("do not touch"), 0o644)
	tc := newTreeCheck(view, dest)
	if tc.ambiguous() || maxDepthLen(view) > 3500 {
		x.Label("left out")
		return nil
	}
	inTree := map[string]bool{}
	var leaves []string
	for _, n := range view.tree() {
		inTree[n.Rel] = true
		if !isDirEnt(n.E) {
			leaves = append(leaves, n.Rel)
		}
	}
	tc.keep = map[string]string{}
	own := []string{"/own", "/own.tmp", "/.own~"}[:c.Own]
	for i, rel := range own {
		if inTree[rel] {
			return nil
		}
		b.file(dest+rel, []byte(fmt.Sprint("own file ", i)), 0o600)
		tc.keep[rel] = ""
	}
	outside := func(m map[string]string) map[string]string {
		o := map[string]string{}
		for p, s := range m {
			if !strings.HasPrefix(p, "/dest") {
				o[p] = s
			}
		}
		for _, rel := range own {
			o["/dest"+rel] = m["/dest"+rel]
		}
		return o
	}
	start := outside(treeSum(b.box))
	killed, torn, part := 0, 0, false
	for i, cr := range c.Runs {
		o := runOpt{uid: nobody, dir: b.box, wall: 90 * 1e9, stuckOK: true}
		if cr.When >= 0 {
			o.wrap = []string{"strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=" + cr.Call,
				"-e", fmt.Sprintf("inject=%s:signal=SIGKILL:when=%d", cr.Call, cr.When+1), "-e", "signal=none"}
		}
		args := []string{"-p=false", "recover", "--metadata", b.meta}
		if cr.Clobber {
			args = append(args, "--clobber")
		}
		r := run(x.Bin, o, append(args, b.img, dest)...)
		if cr.When < 0 || r.Signal == 0 && r.Code != 137 {
			if strings.Contains(r.Err, "strace: ") {
				return infra("%s", head(r.Err))
			}
			if err := r.crashed(); err != nil {
				return err
			}
		} else {
			killed++
		}
		if d := diffTree(start, outside(treeSum(b.box))); d != "" {
			return bad("run %d (%+v) changed something else:\n%s", i+1, cr, d)
		}
		var there []string
		missing := 0
		for _, rel := range leaves {
			if st, err := os.Lstat(dest + rel); err == nil && st.Mode().IsRegular() {
				there = append(there, rel)
			} else {
				missing++
			}
		}
		part = part || missing > 0 && len(there) > 0
		sort.Strings(there)
		for _, t := range cr.Tears {
			if len(there) == 0 {
				break
			}
			p := dest + there[t.At%len(there)]
			size := must1(os.Stat(p)).Size()
			must(os.Truncate(p, size*int64(t.Part)/16))
			if t.Zero {
				must(os.Truncate(p, size))
			}
			torn++
		}
	}
	before := treeSum(b.box)
	if !c.Final {
		for p, s := range before {
			if rel := strings.TrimPrefix(p, "/dest"); strings.HasPrefix(p, "/dest/") && !strings.HasPrefix(s, "dir") {
				tc.keep[rel] = s
			}
		}
	}
	r, err := b.recover(dest, c.Final)
	if err == nil && r.Code != 0 {
		err = bad("recover failed with status %d: %s", r.Code, head(r.Err))
	}
	if err != nil {
		return err
	}
	after := treeSum(b.box)
	if d := diffTree(start, outside(after)); d != "" {
		return bad("the last run changed something else:\n%s", d)
	}
	for rel := range tc.keep {
		if a, b := before["/dest"+rel], after["/dest"+rel]; a != b {
			return bad("%q was there after the interruption: %q, now: %q (clobber: %v)", rel, a, b, c.Final)
		}
	}
	if err := tc.check(); err != nil {
		return bad("after %d interrupted runs, clobber %v: %v\n%s", killed, c.Final, err, head(r.Err))
	}
	x.LabelIf(killed > 0, "killed")
	x.LabelIf(part, "part of the files there")
	x.LabelIf(torn > 0, "torn files")
	x.Label("clobber: %v", c.Final)
	x.NonTrivialIf((killed > 0 || torn > 0) && tc.files > 0)
	return nil
}

func init() {
	register(&Sub{Name: "C35/again", Quick: 1500, Thorough: 9000, NeedBin: true,
		Rule: "1-3 runs of recover, each killed (strace) before a generated system call and with the tails of some files lost, then one that ends, mostly with --clobber; then all of the tree is compared, and other files in and around the destination; non-trivial: a run was killed or a file torn, and there are files",
		New:  func() any { return &caseC35{} }, Gen: genC35, Check: checkC35})
}
