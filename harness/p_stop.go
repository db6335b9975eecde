package main

// C38: the mounted view stays until it is asked to go.

import (
	"os"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

type caseStop struct {
	W       *World
	NoDev   bool        `json:",omitempty"`
	Clients [][]fsOp    // run until the end
	Signals []stopAfter // at least one
	Busy    int         // attempts to unmount that fail
	Refuse  bool        `json:",omitempty"` // cannot be mounted
	Gone    bool        `json:",omitempty"` // unmounted by someone else instead
}

type stopAfter struct {
	Term bool
	MS   int // milliseconds since the one before
}

func genStop(t *rapid.T) any {
	c := &caseStop{W: genWorld(t, WOpt{MaxNodes: 8, Subvols: 1, Xattrs: true})}
	c.NoDev = rapid.IntRange(0, 4).Draw(t, "nodev") == 2
	for i := rapid.IntRange(0, 3).Draw(t, "clients"); i > 0; i-- {
		c.Clients = append(c.Clients, genOps(t, 1, 12, "lookup", "missing", "readdir", "readdirplus", "attr", "xattr", "data", "data"))
	}
	for i := rapid.IntRange(1, 3).Draw(t, "signals"); i > 0; i-- {
		c.Signals = append(c.Signals, stopAfter{rapid.Bool().Draw(t, "term"), pick(t, "ms", 0, 1, 5, 20, 60)})
	}
	c.Busy = pick(t, "busy", 0, 0, 0, 1, 3, 1000)
	c.Refuse = rapid.IntRange(0, 12).Draw(t, "refuse") == 7
	c.Gone = rapid.IntRange(0, 9).Draw(t, "gone") == 4
	return c
}

func checkStop(x *Ctx, v any) error {
	c := v.(*caseStop)
	b := newRecBox(x)
	b.img, b.meta = b.box+"/disk.img", b.box+"/meta.db"
	vs := c.W.versions()
	must(b.prepare(c.W, vs, false))
	b.own(b.img)
	b.own(b.meta)
	before := treeSum(b.box)
	// It is not known from outside since when it waits for signals, so one that
	// just kills it may have come too early.
	for _, wait := range []time.Duration{20 * time.Millisecond, time.Second, 6 * time.Second} {
		if again, err := c.once(x, b, vs, wait); err != nil {
			return err
		} else if !again {
			break
		} else if wait > 3*time.Second {
			return bad("the command was killed by the signal instead of unmounting")
		}
		x.Label("again")
	}
	if d := diffTree(before, treeSum(b.box)); d != "" {
		return bad("files changed: %s", d)
	}
	x.NonTrivialIf(!c.Refuse)
	return nil
}

func (c *caseStop) once(x *Ctx, b *recBox, vs []Ver, wait time.Duration) (again bool, err error) {
	args := []string{"--metadata", b.meta}
	if !c.NoDev {
		args = append(args, b.img)
	}
	fs, res, err := x.mountFS(x.Bin, runOpt{uid: nobody, dir: b.box, stuckOK: true, refuse: c.Refuse}, args...)
	if err != nil {
		return false, err
	}
	if c.Refuse {
		if fs != nil {
			fs.kill()
			return false, infra("mounted nevertheless")
		}
		if res.Code == 0 || !strings.Contains(res.Err, "btrfscue") {
			return false, bad("the mount failed, but the command ends with status %d\n%s", res.Code, head(res.Err))
		}
		x.Label("cannot be mounted")
		return false, nil
	}
	if fs == nil {
		return false, bad("btrfscue mount failed with status %d: %s", res.Code, head(res.Err))
	}
	defer fs.kill()
	meta := must1(os.ReadFile(b.meta))
	fs.mu.Lock()
	fs.busy = c.Busy
	fs.mu.Unlock()

	errs := make(chan error, len(c.Clients)+1)
	var wg sync.WaitGroup
	for i := range c.Clients {
		ops := c.Clients[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					if e, ok := r.(*errInfra); ok {
						errs <- e
						return
					}
					panic(r)
				}
			}()
			ref := newView(vs, b.img)
			ref.noDev = c.NoDev
			defer ref.close()
			cl := newClient(fs, ref, meta)
			for n := 0; n < 2000; n++ {
				if err := cl.do(ops[n%len(ops)]); err != nil {
					if !strings.Contains(err.Error(), endedOnRequest) {
						errs <- err
					}
					return
				}
			}
		}()
	}
	time.Sleep(wait)
	select {
	case <-fs.exited:
		return false, bad("the command ended although nobody asked it to, status %d\n%s", fs.result().Code, head(fs.errw.String()))
	default:
	}
	fs.ending.Store(true)
	var sent int
	signals := c.Signals
	if c.Gone {
		time.Sleep(time.Duration(signals[0].MS) * time.Millisecond)
		signals = nil
		fs.disconnect()
	}
	for _, s := range signals {
		time.Sleep(time.Duration(s.MS) * time.Millisecond)
		sig := syscall.SIGINT
		if s.Term {
			sig = syscall.SIGTERM
		}
		select {
		case <-fs.exited:
		default:
			syscall.Kill(fs.cmd.Process.Pid, sig)
			sent++
		}
	}
	wall, stop := patient(60 * time.Second)
	defer stop()
	select {
	case <-fs.exited:
	case <-wall:
		if blocked(fs.cmd.Process.Pid) {
			return false, bad("the command does not end (unmounted by someone else: %v)\n%s", c.Gone, head(fs.errw.String()))
		}
		return false, infra("no end in time")
	}
	fs.disconnect()
	wg.Wait()
	select {
	case err := <-errs:
		return false, err
	default:
	}
	r := fs.result()
	if r.Signal == syscall.SIGINT || r.Signal == syscall.SIGTERM {
		return true, nil
	}
	if err := r.crashed(); err != nil {
		return false, err
	}
	fs.mu.Lock()
	tried := fs.unmounts
	fs.mu.Unlock()
	for _, a := range tried {
		if !strings.HasSuffix(a, fs.dir+"/mnt") {
			return false, bad("unmounts %q instead of %q", a, fs.dir+"/mnt")
		}
	}
	switch done := len(tried) > c.Busy; {
	case c.Gone && len(tried) > 0:
		return false, bad("it is unmounted already, but the command unmounts %q", tried)
	case c.Gone && r.Code != 0:
		return false, bad("unmounted by someone else, but the command ends with status %d\n%s", r.Code, head(r.Err))
	case c.Gone:
		x.Label("unmounted by someone else")
	case len(tried) == 0:
		return false, bad("the command ended with status %d without unmounting\n%s", r.Code, head(r.Err))
	case done && r.Code != 0:
		return false, bad("status %d although everything worked\n%s", r.Code, head(r.Err))
	case !done && (r.Code == 0 || !strings.Contains(r.Err, "btrfscue: ")):
		return false, bad("it could not be unmounted (%d attempts), but the command ends with status %d\n%s", len(tried), r.Code, head(r.Err))
	case !done:
		x.Label("cannot be unmounted")
	case c.Busy > 0:
		x.Label("busy for a while")
	}
	x.Label("%d clients", len(c.Clients))
	x.LabelIf(sent > 1, "several signals")
	return false, nil
}

func init() {
	register(&Sub{Name: "C38/stop", Quick: 700, Thorough: 8000, NeedBin: true,
		Rule: "up to 3 clients read the view while 1-3 signals (interrupt, terminate) come at generated times; attempts to unmount fail for a while or always, sometimes so does the mount; non-trivial: it was mounted",
		New:  func() any { return &caseStop{} }, Gen: genStop, Check: checkStop})
}
