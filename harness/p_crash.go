package main

// C17: interrupted recon. The writes of one recon run are traced; every state
// that a kill or a power failure can leave behind is rebuilt from the trace,
// and recon has to finish what it began. Write errors and signals are injected
// into real runs.

import (
	"fmt"
	"os"
	"regexp"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"

	"pgregory.net/rapid"
)

type crashPoint struct {
	At    U64 // operation, modulo their number
	Power bool
	// Keep decides which unsynced parts of a power failure are on disk.
	Keep U64
	Torn int // parts of the interrupted write that are on disk
}

type crashFault struct {
	Call  string // system call
	Kind  string // error or signal
	When  int    // modulo number of calls
	Ever  bool   // all calls from then on
	Limit int    // file size limit in KiB instead
}

type caseC17 struct {
	W      *World
	Extra  []VSpec
	Many   int
	Pre    int // earlier recon of a part: every Pre-th item version; 0: none
	Points []crashPoint
	Faults []crashFault
}

func genC17(t *rapid.T) any {
	c := &caseC17{W: genWorld(t, WOpt{MaxNodes: 8, Subvols: 1, Stale: true, Xattrs: true, NoData: true})}
	c.Extra = genVers(t, 30, false)
	if rapid.IntRange(0, 4).Draw(t, "many?") == 0 {
		c.Many = rapid.IntRange(9500, 22000).Draw(t, "many")
	}
	c.Pre = rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "pre")
	n := rapid.IntRange(1, 8).Draw(t, "points")
	for i := 0; i < n; i++ {
		c.Points = append(c.Points, crashPoint{
			At:    U64(rapid.Uint64Range(0, 1<<20).Draw(t, "at")),
			Power: rapid.Bool().Draw(t, "power"),
			Keep:  U64(rapid.Uint64().Draw(t, "keep")),
			Torn:  rapid.IntRange(0, 20).Draw(t, "torn"),
		})
	}
	n = rapid.IntRange(0, 3).Draw(t, "faults")
	for i := 0; i < n; i++ {
		c.Faults = append(c.Faults, crashFault{
			Call: rapid.SampledFrom([]string{"pwrite64", "pwrite64", "fdatasync", "fsync", "ftruncate"}).Draw(t, "call"),
			Kind: rapid.SampledFrom([]string{"ENOSPC", "EIO", "EFBIG", "EDQUOT", "SIGKILL", "SIGKILL", "SIGTERM", "SIGINT"}).Draw(t, "kind"),
			When: rapid.IntRange(0, 60).Draw(t, "when"),
			Ever: rapid.Bool().Draw(t, "ever"),
		})
		if rapid.IntRange(0, 3).Draw(t, "limit?") == 0 {
			c.Faults[i].Limit = rapid.IntRange(1, 120).Draw(t, "limit")
		}
	}
	return c
}

// traceOp is one operation on the metadata file.
type traceOp struct {
	call string
	off  int64
	data []byte
	size int64 // of a truncate
	sync bool
}

var traceLine = regexp.MustCompile(`^(?:\[pid +)?(\d+)\]? +(.*)$`)

const traceCalls = "pwrite64,pwritev,pwritev2,write,writev,ftruncate,truncate,fallocate,fdatasync,fsync,msync,openat,open,creat,unlink,unlinkat,rename,renameat,renameat2,copy_file_range,sendfile,sync_file_range"

// parseTrace reads what strace wrote. It returns nil if it holds operations
// other than those known here.
func parseTrace(path string) (ops []traceOp, ok bool) {
	pending := map[string]string{}
	for _, l := range strings.Split(string(must1(os.ReadFile(path))), "\n") {
		m := traceLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		s := m[2]
		if strings.HasPrefix(s, "---") || strings.HasPrefix(s, "+++") {
			continue
		}
		if strings.HasPrefix(s, "<... ") {
			i := strings.Index(s, " resumed>")
			if i < 0 {
				return nil, false
			}
			s = pending[m[1]] + s[i+len(" resumed>"):]
			delete(pending, m[1])
		} else if i := strings.Index(s, " <unfinished ...>"); i >= 0 {
			pending[m[1]] = s[:i]
			continue
		}
		eq := strings.LastIndex(s, " = ")
		p := strings.IndexByte(s, '(')
		if eq < 0 || p < 0 {
			return nil, false
		}
		ret, err := strconv.ParseInt(strings.Fields(s[eq+3:])[0], 0, 64)
		if err != nil {
			return nil, false
		}
		if ret < 0 {
			continue
		}
		name, args := s[:p], strings.TrimRight(strings.TrimSpace(s[p+1:eq]), ")")
		op := traceOp{call: name}
		switch name {
		case "pwrite64":
			q := strings.IndexByte(args, '"')
			e := strings.LastIndexByte(args, '"')
			if q < 0 || e <= q || strings.HasPrefix(args[e+1:], "...") {
				return nil, false
			}
			op.data = unhex(args[q+1 : e])
			f := strings.Split(args[e+1:], ",")
			if op.off, err = strconv.ParseInt(strings.TrimSpace(f[len(f)-1]), 0, 64); err != nil || int64(len(op.data)) < ret {
				return nil, false
			}
			op.data = op.data[:ret]
		case "ftruncate":
			f := strings.Split(args, ",")
			if op.size, err = strconv.ParseInt(strings.TrimSpace(f[len(f)-1]), 0, 64); err != nil {
				return nil, false
			}
		case "fdatasync", "fsync":
			op.sync = true
		case "openat":
			if strings.Contains(args, "O_TRUNC") {
				op = traceOp{call: "ftruncate"}
				break
			}
			continue
		default:
			return nil, false
		}
		ops = append(ops, op)
	}
	return ops, true
}

func unhex(s string) []byte {
	out := make([]byte, 0, len(s)/4)
	for i := 0; i+3 < len(s); i += 4 {
		v, err := strconv.ParseUint(s[i+2:i+4], 16, 8)
		if s[i] != '\\' || err != nil {
			panic(&errInfra{"trace: " + s[i:i+4]})
		}
		out = append(out, byte(v))
	}
	return out
}

type memFile struct {
	b      []byte
	exists bool
}

func (f *memFile) size(n int64) {
	for int64(len(f.b)) < n {
		f.b = append(f.b, make([]byte, n-int64(len(f.b)))...)
	}
	f.b = f.b[:n]
}

func (f *memFile) writeAt(d []byte, off int64) {
	if e := off + int64(len(d)); e > int64(len(f.b)) {
		f.size(e)
	}
	copy(f.b[off:], d)
}

func (f *memFile) apply(op traceOp) {
	switch op.call {
	case "pwrite64":
		f.writeAt(op.data, op.off)
	case "ftruncate":
		f.size(op.size)
	}
}

// crashState gives the file a crash at a point leaves behind, and whether the
// database in it has been set up before.
func crashState(base []byte, ops []traceOp, p crashPoint, fresh bool) (b []byte, inited bool) {
	at := int(uint64(p.At) % uint64(len(ops)+1))
	f := &memFile{b: append([]byte{}, base...)}
	inited = !fresh
	if !p.Power {
		for i, op := range ops[:at] {
			f.apply(op)
			inited = inited || i >= 0 && op.call == "pwrite64"
		}
		// The write that was going on: some of its pages.
		if at < len(ops) && ops[at].call == "pwrite64" {
			n := min(p.Torn*4096, len(ops[at].data))
			f.writeAt(ops[at].data[:n], ops[at].off)
		}
		return f.b, inited
	}
	synced := 0
	for i, op := range ops[:at] {
		if op.sync {
			synced = i + 1
		}
	}
	for _, op := range ops[:synced] {
		f.apply(op)
		inited = inited || op.call == "pwrite64"
	}
	// Of all that was not synced yet any part may be on disk.
	r := splitmix(p.Keep)
	last := min(at+1, len(ops)) // the operation that was going on
	for _, op := range ops[synced:last] {
		switch op.call {
		case "ftruncate":
			if r.intn(2) == 0 {
				f.apply(op)
			}
		case "pwrite64":
			how := r.intn(4)
			for o := 0; o < len(op.data); o += 512 {
				if how == 0 || how > 1 && r.intn(2) == 0 {
					f.writeAt(op.data[o:min(o+512, len(op.data))], op.off+int64(o))
				}
			}
		}
	}
	return f.b, inited
}

func checkC17(x *Ctx, v any) error {
	c := v.(*caseC17)
	w := c.W
	vs := dedupe(append(append(w.versions(), toVers(c.Extra)...), manyItems(c.Many)...))
	img, meta := x.Path("disk.img"), x.Path("meta.db")
	w.image(vs).write(img)
	want, before := map[string]Ver{}, map[string]Ver{}
	for _, v := range vs {
		want[rawKey(v)] = v
	}
	args := func(meta string) []string {
		return []string{"recon", "--block-size", fmt.Sprint(w.BS), "--id", fsidText(w.fsid()), "--metadata", meta, img}
	}
	var base []byte
	if c.Pre > 0 {
		var part []Ver
		for i, v := range vs {
			if i%c.Pre == 0 {
				part = append(part, v)
				before[rawKey(v)] = v
			}
		}
		p0 := x.Path("part.img")
		w2 := *w
		w2.Decoys = 0
		w2.image(part).write(p0)
		a := args(meta)
		a[len(a)-1] = p0
		if _, err := x.ok(runOpt{}, a...); err != nil {
			return err
		}
		base = must1(os.ReadFile(meta))
	}
	reset := func() {
		os.Remove(meta)
		if base != nil {
			must(os.WriteFile(meta, base, 0644))
		}
	}
	dump := func(what string, must bool) (got map[string]string, err error) {
		if !must {
			return nil, nil // May be cut anywhere
		}
		// A database cut short faults.
		defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(*errInfra); ok {
					panic(e)
				}
				err = bad("%s: metadata unreadable: %v", what, r)
			}
		}()
		if got, err = rawDump(meta); err != nil {
			return nil, bad("%s: metadata unreadable: %v", what, err)
		}
		delete(got, "no bucket")
		return got, nil
	}
	// The file after an interruption: no wrong items, nothing lost, and recon
	// completes it.
	usable := func(what string, inited bool) error {
		_, serr := os.Stat(meta)
		if serr != nil {
			if base != nil {
				return bad("%s: the metadata file is gone", what)
			}
		} else {
			got, err := dump(what, inited)
			if err != nil {
				return err
			}
			part := map[string]Ver{}
			for k := range got {
				if v, ok := want[k]; ok {
					part[k] = v
				}
			}
			for k, v := range before {
				part[k] = v
			}
			if got != nil {
				if err := sameMetadata(got, part); err != nil {
					return bad("%s: %v", what, err)
				}
				r, err := x.btr(runOpt{}, "dump-index", "--metadata", meta)
				if err != nil {
					return bad("%s: %v", what, err)
				}
				if _, ok := got[string(rawMetaKey[:33])]; ok && r.Code != 0 {
					return bad("%s: dump-index fails: %s", what, head(r.Err))
				}
				x.LabelIf(len(got) > 1 && len(part) < len(want), "part of the items stored")
			}
			x.LabelIf(got == nil, "torn before set up")
		}
		r, err := x.btr(runOpt{}, args(meta)...)
		if err != nil {
			if _, ok := err.(*errInfra); !ok && !inited && serr == nil {
				return nil // Never was an index
			}
			return bad("%s, then again: %v", what, err)
		}
		if r.Code != 0 {
			if !inited && serr == nil {
				return nil // Never was an index
			}
			return bad("%s, then again: recon fails: %s", what, head(r.Err))
		}
		got, err := dump(what+", then again", true)
		if err != nil {
			return err
		}
		if err := sameMetadata(got, want); err != nil {
			return bad("%s, then again: %v", what, err)
		}
		return nil
	}

	// One run under observation.
	reset()
	tr := x.Path("trace")
	strace := func(more ...string) []string {
		return append([]string{"strace", "-f", "-o", tr, "-P", meta}, more...)
	}
	r := run(x.Bin, runOpt{noLimit: true, wrap: strace("-xx", "-s", "100000000", "-e", "trace="+traceCalls, "-e", "signal=none")}, append([]string{"-p=false"}, args(meta)...)...)
	if err := r.crashed(); err != nil {
		return err
	}
	if r.Code != 0 {
		return bad("recon fails: %s", head(r.Err))
	}
	final := must1(os.ReadFile(meta))
	ops, known := parseTrace(tr)
	calls := map[string]int{}
	f := &memFile{b: append([]byte{}, base...)}
	for _, op := range ops {
		f.apply(op)
		calls[op.call]++
	}
	if known && string(f.b) != string(final) {
		known = false
	}
	x.LabelIf(!known, "writes not understood")
	tested := 0
	if known {
		for i, p := range c.Points {
			b, inited := crashState(base, ops, p, base == nil)
			must(os.WriteFile(meta, b, 0644))
			at := uint64(p.At) % uint64(len(ops)+1)
			what := fmt.Sprintf("point %d: killed before operation %d of %d", i, at, len(ops))
			if p.Power {
				what = fmt.Sprintf("point %d: power failure before operation %d of %d", i, at, len(ops))
			}
			if err := usable(what, inited); err != nil {
				return err
			}
			tested++
			x.LabelIf(p.Power, "power failure")
			x.LabelIf(!p.Power, "kill")
		}
	}
	for _, ft := range c.Faults {
		reset()
		o := runOpt{noLimit: true}
		what := ""
		if ft.Limit > 0 {
			what = fmt.Sprintf("file size limited to %d KiB", ft.Limit)
			o.wrap = []string{"prlimit", "--fsize=" + fmt.Sprint(ft.Limit<<10), "--"}
		} else {
			n := max(calls[ft.Call], 1)
			inj := fmt.Sprintf("inject=%s:error=%s:when=%d", ft.Call, ft.Kind, ft.When%n+1)
			if strings.HasPrefix(ft.Kind, "SIG") {
				inj = fmt.Sprintf("inject=%s:signal=%s:when=%d", ft.Call, ft.Kind, ft.When%n+1)
			} else if ft.Ever {
				inj += "+"
			}
			what = inj
			o.wrap = strace("-e", "trace="+ft.Call, "-e", inj, "-e", "signal=none")
		}
		r := run(x.Bin, o, append([]string{"-p=false"}, args(meta)...)...)
		killed := r.Signal != 0
		if killed && (ft.Limit > 0 && r.Signal != syscall.SIGXFSZ || ft.Limit == 0 && !strings.HasPrefix(ft.Kind, "SIG")) {
			return bad("%s: %v", what, r.crashed())
		}
		if !killed {
			if err := r.crashed(); err != nil {
				return bad("%s: %v", what, err)
			}
		}
		if r.Code == 0 {
			got, err := dump(what, true)
			if err != nil {
				return err
			}
			if err := sameMetadata(got, want); err != nil {
				return bad("%s: recon reports success, but %v", what, err)
			}
		}
		x.LabelIf(r.Code == 0, "fault without effect")
		x.LabelIf(r.Code != 0, "fault: "+map[bool]string{true: "size limit", false: ft.Kind}[ft.Limit > 0])
		// A size limit may cut the very first write short.
		st, err := os.Stat(meta)
		inited := base != nil || ft.Limit == 0 || err == nil && (st.Size() == 0 || st.Size() >= 16384)
		if err := usable(what, inited); err != nil {
			return err
		}
		tested++
	}
	x.LabelIf(c.Many > 10000, "more than one batch")
	x.LabelIf(base != nil, "metadata existed before")
	x.NonTrivialIf(tested > 1 && len(want) > 5)
	return nil
}

func init() {
	register(&Sub{Name: "C17/crash", Quick: 300, Thorough: 8000, NeedBin: true,
		Rule: "recon into a new or an existing metadata file; from a trace of its writes the states after a kill (any operation, writes cut at a page) and after a power failure (any subset of the sectors not yet synced) are rebuilt at generated points; write errors, file size limits and signals are injected into real runs; each time nothing wrong may be stored, nothing stored earlier lost, success only be reported for complete metadata, and recon again gives the contents of an uninterrupted run; non-trivial: at least 2 interruptions and more than 5 item versions",
		New:  func() any { return &caseC17{} }, Gen: genC17, Check: checkC17})
}
