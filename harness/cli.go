package main

// Running the btrfscue command as a black box.

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

const nobody = 65534

type Res struct {
	Code   int // exit status, -1 if killed by a signal
	Signal syscall.Signal
	Out    []byte
	Err    string
	CPU    time.Duration
	RSSKB  int64
	Capped bool // output was cut
	Stuck  bool // blocked for good
}

type runOpt struct {
	uid     int // 0: as is
	cpuSec  uint64
	asMB    uint64
	dir     string
	env     []string
	wall    time.Duration
	argv0   string
	wrap    []string // command prefix
	killAt  time.Duration
	maxOut  int
	noLimit bool
	raw     []string // mountFS: all arguments
	refuse  bool     // mountFS: fusermount fails
	stuckOK bool     // being blocked at the wall clock limit is a finding
}

// blocked tells whether a process (one that run started) waits without using
// any CPU time.
func blocked(pid int) bool {
	last := ""
	for i := 0; i < 4; i++ {
		tasks, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/stat", pid))
		cur := ""
		for _, t := range tasks {
			b, err := os.ReadFile(t)
			if err != nil {
				return false
			}
			f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
			if len(f) < 13 || f[0] != "S" {
				return false
			}
			cur += t + "/" + f[11] + "/" + f[12] + " "
		}
		if cur == "" || i > 0 && cur != last {
			return false
		}
		last = cur
		time.Sleep(2 * time.Second)
	}
	return true
}

// patient is like time.After, but a program that stood still for a while, for
// whatever reason, gets more time.
func patient(d time.Duration) (<-chan struct{}, func()) {
	ch, end := make(chan struct{}), make(chan struct{})
	go func() {
		t := time.NewTicker(d / 20)
		defer t.Stop()
		for i := 0; i < 20; i++ {
			select {
			case <-t.C:
			case <-end:
				return
			}
		}
		close(ch)
	}()
	return ch, func() { close(end) }
}

type capWriter struct {
	mu     sync.Mutex
	b      bytes.Buffer
	max    int
	capped bool
}

func (w *capWriter) String() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.b.String()
}

func (w *capWriter) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.b.Len()+len(p) > w.max {
		w.capped = true
		return len(p), nil
	}
	return w.b.Write(p)
}

func setLimit(pid int, res int, v uint64) {
	l := [2]uint64{v, v}
	syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), uintptr(res), uintptr(unsafe.Pointer(&l)), 0, 0, 0)
}

// run executes the command to its end. A run over its wall clock limit is a
// harness error (the machine may be busy); one over its CPU limit is not.
func run(bin string, o runOpt, args ...string) *Res {
	if o.cpuSec == 0 {
		o.cpuSec = 20
	}
	if o.asMB == 0 {
		o.asMB = 3000
	}
	if o.wall == 0 {
		o.wall = 200 * time.Second
	}
	if o.maxOut == 0 {
		o.maxOut = 8 << 20
	}
	argv := append(append([]string{}, o.wrap...), bin)
	argv = append(argv, args...)
	cmd := exec.Command(argv[0], argv[1:]...)
	out, errw := &capWriter{max: o.maxOut}, &capWriter{max: 1 << 20}
	cmd.Stdout, cmd.Stderr = out, errw
	cmd.Dir = o.dir
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "TZ=UTC", "HOME=/nonexistent"}, o.env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if o.uid != 0 && os.Getuid() == 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(o.uid), Gid: uint32(o.uid)}
	}
	must(cmd.Start())
	if !o.noLimit {
		setLimit(cmd.Process.Pid, 0 /* CPU */, o.cpuSec)
		setLimit(cmd.Process.Pid, 9 /* AS */, o.asMB<<20)
		setLimit(cmd.Process.Pid, 4 /* CORE */, 0)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var kill <-chan time.Time
	if o.killAt > 0 {
		kill = time.After(o.killAt)
	}
	wall, stop := patient(o.wall)
	defer stop()
	var err error
	for fin := false; !fin; {
		select {
		case err = <-done:
			fin = true
		case <-kill:
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		case <-wall:
			stuck := o.stuckOK && blocked(cmd.Process.Pid)
			select {
			case err = <-done:
				fin = true
				continue
			default:
			}
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			err = <-done
			if !stuck {
				panic(&errInfra{fmt.Sprintf("%v: wall clock limit\n%s\n%s", argv, tail(errw.b.String()), tail(out.b.String()))})
			}
			return &Res{Code: -1, Stuck: true, Out: out.b.Bytes(), Err: errw.b.String()}
		}
	}
	r := &Res{Out: out.b.Bytes(), Err: errw.b.String(), Capped: out.capped || errw.capped}
	ps := cmd.ProcessState
	if ps == nil {
		panic(&errInfra{fmt.Sprintf("%v: %v", argv, err)})
	}
	ws := ps.Sys().(syscall.WaitStatus)
	r.Code = ws.ExitStatus()
	if ws.Signaled() {
		r.Code, r.Signal = -1, ws.Signal()
	}
	ru := ps.SysUsage().(*syscall.Rusage)
	r.CPU = time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
	r.RSSKB = ru.Maxrss
	return r
}

func tail(s string) string {
	if len(s) > 1500 {
		return "..." + s[len(s)-1500:]
	}
	return s
}

func head(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

// crashed tells how a command crashed, ran away, or used too much memory; nil
// if it ended in an orderly way.
func (r *Res) crashed() error {
	switch {
	case r.Stuck:
		return bad("blocked without end\n%s", head(r.Err))
	case strings.Contains(r.Err, "SIGXCPU") || r.Signal == syscall.SIGXCPU || r.Signal == syscall.SIGKILL && r.CPU > 10*time.Second:
		return bad("ran on for %v of CPU time", r.CPU)
	case r.Signal == syscall.SIGKILL:
		return infra("killed from outside")
	case r.Signal != 0:
		return bad("killed by signal %v\n%s", r.Signal, head(r.Err))
	case r.Code == 2 && (strings.Contains(r.Err, "panic:") || strings.Contains(r.Err, "fatal error:") || strings.Contains(r.Err, "goroutine ")):
		return bad("crashed: %s", head(r.Err))
	case r.Capped:
		return bad("endless output: %s", head(string(r.Out)+r.Err))
	case r.RSSKB > 600<<10 && selfRSSKB() < 200<<10:
		return bad("used %d MB of memory", r.RSSKB>>10)
	}
	return nil
}

// btr runs btrfscue and reports crashes as violations.
func (x *Ctx) btr(o runOpt, args ...string) (*Res, error) {
	r := run(x.Bin, o, append([]string{"-p=false"}, args...)...)
	if err := r.crashed(); err != nil {
		return r, bad("btrfscue %v: %v", args, err)
	}
	return r, nil
}

// ok demands success.
func (x *Ctx) ok(o runOpt, args ...string) (*Res, error) {
	r, err := x.btr(o, args...)
	if err == nil && r.Code != 0 {
		err = bad("btrfscue %v failed with status %d: %s", args, r.Code, head(r.Err))
	}
	return r, err
}

// fileSum hashes a (sparse) file's size and content; holes and zeros are the
// same.
func fileSum(path string) [32]byte {
	f := must1(os.Open(path))
	defer f.Close()
	st := must1(f.Stat())
	h := sha256.New()
	fmt.Fprintln(h, st.Size())
	buf := make([]byte, 64<<10)
	zero := make([]byte, 64<<10)
	for pos := int64(0); pos < st.Size(); {
		d, err := f.Seek(pos, seekData)
		if err != nil {
			break
		}
		e := must1(f.Seek(d, seekHole))
		d -= d % int64(len(buf))
		for d < e {
			n, err := f.ReadAt(buf, d)
			if err != nil && err != io.EOF {
				must(err)
			}
			if !bytes.Equal(buf[:n], zero[:n]) {
				fmt.Fprintln(h, d)
				h.Write(buf[:n])
			}
			d += int64(len(buf))
		}
		pos = max(d, e)
	}
	var s [32]byte
	h.Sum(s[:0])
	return s
}

// tree describes everything below dir: path -> kind and contents.
func treeSum(dir string) map[string]string {
	m := map[string]string{}
	must(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel := strings.TrimPrefix(p, dir)
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			m[rel] = "link " + must1(os.Readlink(p))
		case fi.IsDir():
			m[rel] = fmt.Sprintf("dir %o", fi.Mode().Perm())
		case fi.Mode().IsRegular():
			s := fileSum(p)
			m[rel] = fmt.Sprintf("file %o %d %x", fi.Mode().Perm(), fi.Size(), s[:8])
		default:
			m[rel] = fi.Mode().String()
		}
		return nil
	}))
	return m
}

func diffTree(a, b map[string]string) string {
	var ks []string
	for k := range a {
		if b[k] != a[k] {
			ks = append(ks, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	s := ""
	for i, k := range ks {
		if i == 8 {
			break
		}
		s += fmt.Sprintf("%q: %q -> %q\n", k, a[k], b[k])
	}
	return s
}
