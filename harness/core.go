// Command harness decides the properties of btrfscue listed in
// /verif/properties.jsonl by property-based testing.
//
//	harness run -sub C02/point -shard 0 -checks 1000 -seed 1 -out DIR -bin BIN
//	harness replay -bin BIN -scratch DIR FILE
//
// Every case is a JSON-serialisable value drawn by rapid, so that a failing
// (shrunk) case is its own replay file.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Sub is one generated check of a property.
type Sub struct {
	Name     string // "C02/point"
	Quick    int    // number of cases over all shards
	Thorough int
	Rule     string // how cases are made and what is non-trivial
	New      func() any
	Gen      func(t *rapid.T) any
	Check    func(c *Ctx, v any) error
	NeedBin  bool // needs the btrfscue binary
	NeedRace bool // needs the race-instrumented binary
	// Regress are fixed cases that run first in every run.
	Regress func() []any
}

var subs = map[string]*Sub{}
var subOrder []string

func register(s *Sub) {
	if subs[s.Name] != nil {
		panic("duplicate " + s.Name)
	}
	subs[s.Name] = s
	subOrder = append(subOrder, s.Name)
}

// errInfra marks failures of the harness itself (never a violation).
type errInfra struct{ msg string }

func (e *errInfra) Error() string { return e.msg }

func infra(format string, a ...any) error { return &errInfra{fmt.Sprintf(format, a...)} }

func must(err error) {
	if err != nil {
		panic(&errInfra{err.Error()})
	}
}

func must1[T any](v T, err error) T {
	must(err)
	return v
}

// Ctx is the environment of one case.
type Ctx struct {
	Bin, RaceBin string
	Scratch      string // empty directory of this case
	sub          string
	labels       map[string]bool
	nontrivial   bool
	seq          int
}

func (c *Ctx) Label(format string, a ...any) { c.labels[fmt.Sprintf(format, a...)] = true }
func (c *Ctx) LabelIf(b bool, l string) {
	if b {
		c.labels[l] = true
	}
}
func (c *Ctx) NonTrivial() { c.nontrivial = true }
func (c *Ctx) NonTrivialIf(b bool) {
	if b {
		c.nontrivial = true
	}
}
func (c *Ctx) Path(name string) string { return filepath.Join(c.Scratch, name) }

func bad(format string, a ...any) error { return fmt.Errorf(format, a...) }

// Stats is what one shard reports.
type Stats struct {
	Sub         string
	Evaluations int
	Nontrivial  int
	Skipped     int // not run for lack of time
	Hashes      []uint64
	Labels      map[string]int
	Samples     []json.RawMessage
	Failed      bool
	Message     string
	CaseFile    string
	Infra       string
	WallS       float64
}

type runTB struct {
	failed bool
	log    []string
}

type tbStop struct{}

func (r *runTB) Helper()                   {}
func (r *runTB) Name() string              { return "harness" }
func (r *runTB) Logf(f string, a ...any)   { r.log = append(r.log, fmt.Sprintf(f, a...)) }
func (r *runTB) Log(a ...any)              { r.log = append(r.log, fmt.Sprint(a...)) }
func (r *runTB) Skipf(f string, a ...any)  { r.Logf(f, a...); panic(tbStop{}) }
func (r *runTB) Skip(a ...any)             { r.Log(a...); panic(tbStop{}) }
func (r *runTB) SkipNow()                  { panic(tbStop{}) }
func (r *runTB) Errorf(f string, a ...any) { r.Logf(f, a...); r.failed = true }
func (r *runTB) Error(a ...any)            { r.Log(a...); r.failed = true }
func (r *runTB) Fatalf(f string, a ...any) { r.Logf(f, a...); r.failed = true; panic(tbStop{}) }
func (r *runTB) Fatal(a ...any)            { r.Log(a...); r.failed = true; panic(tbStop{}) }
func (r *runTB) FailNow()                  { r.failed = true; panic(tbStop{}) }
func (r *runTB) Fail()                     { r.failed = true }
func (r *runTB) Failed() bool              { return r.failed }

// Watchdog state: CPU time (of this process only) at the start of the case.
var (
	caseStartCPU atomic.Int64
	caseActive   atomic.Bool
	hangCPULimit = 60 * time.Second
	rssLimitKB   = int64(6 << 20)
	journalPath  string
)

func selfCPU() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		if !caseActive.Load() {
			continue
		}
		if d := selfCPU() - time.Duration(caseStartCPU.Load()); d > hangCPULimit {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "HANG: case used %v of CPU\n%s\n", d, buf)
			os.Exit(7)
		}
		if rss := selfRSSKB(); rss > rssLimitKB {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "HANG: case uses %d KB of memory\n%s\n", rss, buf)
			os.Exit(7)
		}
	}
}

func selfRSSKB() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var a, r int64
	fmt.Sscan(string(b), &a, &r)
	return r * int64(os.Getpagesize()) / 1024
}

const repoPrefix = "blichmann.eu/code/btrfscue/"
const harnessPrefix = "blichmann.eu/code/btrfscue/verif"

// panicInRepo tells whether the code under test (rather than the harness) is
// the cause of a panic: the innermost frame of either belongs to it.
func panicInRepo(stack string) bool {
	// Skip everything up to the panic call itself.
	if i := strings.LastIndex(stack, "\npanic("); i >= 0 {
		stack = stack[i:]
	}
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, harnessPrefix) {
			return false
		}
		if strings.HasPrefix(l, repoPrefix) {
			return true
		}
	}
	return false
}

// runCase runs the check on a case and converts panics.
func runCase(s *Sub, c *Ctx, v any) (err error) {
	c.sub = s.Name
	must(os.MkdirAll(c.Scratch, 0o755))
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(*errInfra); ok {
				err = e
			} else {
				st := string(debug.Stack())
				if panicInRepo(st) {
					err = bad("panic: %v\n%s", r, trimStack(st))
				} else {
					err = infra("harness panic: %v\n%s", r, st)
				}
			}
		}
		if e := removeTree(c.Scratch); e != nil && err == nil {
			err = infra("cleanup: %v", e)
		}
	}()
	caseStartCPU.Store(int64(selfCPU()))
	caseActive.Store(true)
	defer caseActive.Store(false)
	return s.Check(c, v)
}

func removeTree(p string) error {
	if !strings.Contains(p, "/btrfscue-verif.") {
		return fmt.Errorf("refusing to remove %q", p)
	}
	return os.RemoveAll(p)
}

func trimStack(s string) string {
	if i := strings.LastIndex(s, "\npanic("); i >= 0 {
		s = s[i:]
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

type caseFile struct {
	Sub     string          `json:"sub"`
	Message string          `json:"message,omitempty"`
	Case    json.RawMessage `json:"case"`
}

func marshalCase(v any) []byte { return must1(json.Marshal(v)) }

func saveCase(path, sub, msg string, v any) {
	b := must1(json.MarshalIndent(caseFile{sub, msg, marshalCase(v)}, "", " "))
	must(os.WriteFile(path, b, 0o644))
}

// normalise passes the case through JSON so that a replay sees exactly the
// same value as the original run.
func normalise(s *Sub, v any) (any, []byte) {
	b := marshalCase(v)
	n := s.New()
	must(json.Unmarshal(b, n))
	return n, b
}

func mixSeed(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	x := h.Sum64()
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	if x == 0 {
		x = 1
	}
	return x
}

func cmdRun(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	sub := fs.String("sub", "", "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	seed := fs.Uint64("seed", 1, "")
	checks := fs.Int("checks", 0, "")
	out := fs.String("out", "", "")
	scratch := fs.String("scratch", "", "")
	bin := fs.String("bin", "", "")
	racebin := fs.String("racebin", "", "")
	shrink := fs.Duration("shrinktime", 20*time.Second, "")
	deadline := fs.Duration("deadline", time.Hour, "no new cases after this time")
	fs.Parse(args)
	s := subs[*sub]
	if s == nil {
		fmt.Fprintln(os.Stderr, "unknown sub", *sub)
		return 2
	}
	start := time.Now()
	tag := fmt.Sprintf("%s.%d", strings.ReplaceAll(*sub, "/", "-"), *shard)
	statsPath := filepath.Join(*out, tag+".stats.json")
	casePath := filepath.Join(*out, tag+".case.json")
	journalPath = filepath.Join(*out, tag+".journal.json")
	st := &Stats{Sub: *sub, Labels: map[string]int{}}
	hashes := map[uint64]bool{}
	flush := func() {
		st.WallS = time.Since(start).Seconds()
		st.Hashes = st.Hashes[:0]
		for h := range hashes {
			st.Hashes = append(st.Hashes, h)
		}
		sort.Slice(st.Hashes, func(i, j int) bool { return st.Hashes[i] < st.Hashes[j] })
		must(os.WriteFile(statsPath, must1(json.Marshal(st)), 0o644))
	}
	ctx0 := Ctx{Bin: *bin, RaceBin: *racebin}
	seq := 0
	failing := false // a failure has been seen; rapid is shrinking
	var infraErr error

	oneCase := func(v any) error {
		v, js := normalise(s, v)
		must(os.WriteFile(journalPath, must1(json.Marshal(caseFile{*sub, "", js})), 0o644))
		seq++
		c := ctx0
		c.labels = map[string]bool{}
		c.Scratch = filepath.Join(*scratch, fmt.Sprintf("%s.%d", tag, seq))
		err := runCase(s, &c, v)
		if !failing {
			st.Evaluations++
			for l := range c.labels {
				st.Labels[l]++
			}
			if c.nontrivial {
				h := fnv.New64a()
				h.Write(js)
				if !hashes[h.Sum64()] {
					hashes[h.Sum64()] = true
					st.Nontrivial++
					if len(st.Samples) < 3 {
						st.Samples = append(st.Samples, sampleJSON(js))
					}
				}
			}
		}
		if err != nil {
			var ie *errInfra
			if errors.As(err, &ie) {
				infraErr = err
				return nil // stop below, never a violation
			}
			failing = true
			saveCase(casePath, *sub, err.Error(), v)
			st.Message = err.Error()
		}
		return err
	}

	go watchdog()
	defer flush()

	// Fixed regression cases first (shard 0 only).
	if s.Regress != nil && *shard == 0 {
		for _, v := range s.Regress() {
			if err := oneCase(v); err != nil {
				st.Failed, st.CaseFile = true, casePath
				return 1
			}
			if infraErr != nil {
				st.Infra = infraErr.Error()
				return 3
			}
		}
	}

	n := *checks / *shards
	if *shard < *checks%*shards {
		n++
	}
	if n == 0 {
		return 0
	}
	testing.Init()
	flag.CommandLine.Parse(nil)
	must(flag.Set("rapid.seed", fmt.Sprint(mixSeed(*sub, *seed, *shard)|1)))
	must(flag.Set("rapid.checks", fmt.Sprint(n)))
	must(flag.Set("rapid.nofailfile", "true"))
	must(flag.Set("rapid.shrinktime", shrink.String()))
	tb := &runTB{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(*errInfra); ok {
					infraErr = e
				} else if _, ok := r.(tbStop); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			if infraErr != nil {
				return
			}
			if !failing && time.Since(start) > *deadline {
				st.Skipped++
				return
			}
			if err := oneCase(s.Gen(t)); err != nil {
				t.Fatalf("%v", err)
			}
		})
	}()
	if failing {
		st.Failed, st.CaseFile = true, casePath
		return 1
	}
	if infraErr != nil {
		st.Infra = infraErr.Error()
		return 3
	}
	if tb.failed {
		st.Infra = strings.Join(tb.log, "\n")
		return 3
	}
	return 0
}

// sampleJSON shortens a case for the evidence file.
func sampleJSON(js []byte) json.RawMessage {
	if len(js) <= 1500 {
		return append(json.RawMessage(nil), js...)
	}
	return must1(json.Marshal(string(bytes.ToValidUTF8(js[:1500], []byte("?"))) + "...(shortened)"))
}

func loadCase(path string) (*Sub, any, *caseFile, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, nil, nil, err
	}
	var cf caseFile
	if err := json.Unmarshal(b, &cf); err != nil {
		return nil, nil, nil, err
	}
	s := subs[cf.Sub]
	if s == nil {
		return nil, nil, nil, fmt.Errorf("unknown sub %q", cf.Sub)
	}
	v := s.New()
	if err := json.Unmarshal(cf.Case, v); err != nil {
		return nil, nil, nil, err
	}
	return s, v, &cf, nil
}

// cmdReplay runs saved cases. Exit status 1: a case failed (its file is
// printed), 3: harness error.
func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	scratch := fs.String("scratch", "", "")
	bin := fs.String("bin", "", "")
	racebin := fs.String("racebin", "", "")
	times := fs.Int("times", 1, "")
	fs.Parse(args)
	go watchdog()
	for _, f := range fs.Args() {
		s, v, _, err := loadCase(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, f, err)
			return 3
		}
		for i := 0; i < *times; i++ {
			c := Ctx{Bin: *bin, RaceBin: *racebin, labels: map[string]bool{},
				Scratch: filepath.Join(*scratch, fmt.Sprintf("replay.%d.%d", os.Getpid(), i))}
			if err := runCase(s, &c, v); err != nil {
				var ie *errInfra
				if errors.As(err, &ie) {
					fmt.Fprintf(os.Stderr, "%s: %v\n", f, err)
					return 3
				}
				fmt.Printf("FAIL %s\n%v\n", f, err)
				return 1
			}
		}
		fmt.Printf("PASS %s\n", f)
	}
	return 0
}

func cmdList() int {
	type info struct {
		Name            string
		Quick, Thorough int
		Rule            string
		NeedBin, Race   bool
	}
	var l []info
	for _, n := range subOrder {
		s := subs[n]
		l = append(l, info{n, s.Quick, s.Thorough, s.Rule, s.NeedBin, s.NeedRace})
	}
	fmt.Println(string(must1(json.Marshal(l))))
	return 0
}

func main() {
	if filepath.Base(os.Args[0]) == "fusermount" {
		os.Exit(fakeFusermount())
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness run|replay|list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(cmdRun(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "list":
		os.Exit(cmdList())
	}
	os.Exit(2)
}
