package main

// C31: the command line.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// caseReject is an invocation of Cmd that is unusable because of Defect.
type caseReject struct {
	W      *World
	Cmd    string
	Defect string
	Text   string // the offending text
	N      int
	Env    bool // metadata through the environment, where possible
	Pos    int
	Bare   bool `json:",omitempty"` // nothing but the command and what is wrong
}

var badNumbers = []string{"x", "-1", "1.5", "", "0x", "1 ", "99999999999999999999", "16k", "--", "١"}
var badFractions = []string{"x", "", "0,1", "1e", "--", "1 "}
var badBools = []string{"maybe", "2", "yes", "tru", " "}
var badIDs = []string{"", "x", "0", "00000000-0000-0000-0000-000000000000", "00000000000000000000000000000000", "----",
	"12345678-1234-1234-1234-12345678901", "12345678-1234-1234-1234-1234567890123", "g2345678-1234-1234-1234-123456789012",
	"12345678-1234-1234-1234-12345678901é", "12345678/1234/1234/1234/123456789012", " 12345678-1234-1234-1234-123456789012",
	"{12345678-1234-1234-1234-123456789012}", "0x345678-1234-1234-1234-1234567890123"}

var cmds = []string{"identify", "recon", "dump-index", "ls", "recover", "mount"}

// defects that make a command unusable.
var defects = map[string][]string{
	"identify":   {"few", "many", "flag", "short", "noarg", "num:block-size", "num:min-blocks", "num:max-blocks", "num:min-occurrence", "frac:sample-fraction", "bool:machine", "no image", "dir image", "small image", "small block"},
	"recon":      {"no meta", "empty meta", "few", "many", "flag", "short", "noarg", "num:block-size", "no id", "bad id", "bool:append", "bool:progress", "no image", "dir image", "small image", "small block", "meta dir missing", "meta is dir", "meta other id", "meta other bs", "meta garbage", "meta unreadable"},
	"dump-index": {"no meta", "empty meta", "many", "flag", "short", "noarg", "num:block-size", "bool:verbose", "meta missing", "meta dir missing", "meta is dir", "meta garbage", "meta unreadable"},
	"ls":         {"no meta", "empty meta", "flag", "short", "noarg", "num:block-size", "bool:recursive", "bool:inode", "meta missing", "meta dir missing", "meta is dir", "meta garbage", "meta unreadable"},
	"recover":    {"no meta", "empty meta", "few", "many", "flag", "short", "noarg", "num:block-size", "bool:clobber", "meta missing", "meta dir missing", "meta is dir", "meta garbage", "meta unreadable", "no image", "dest under file", "dest is file"},
	"mount":      {"no meta", "empty meta", "few", "many", "flag", "short", "noarg", "num:block-size", "meta missing", "meta dir missing", "meta is dir", "meta garbage", "meta unreadable", "no image"},
	"":           {"unknown", "flag", "short", "noarg"},
}

func genReject(t *rapid.T) any {
	c := &caseReject{W: genWorld(t, WOpt{MaxNodes: 3, NoData: true})}
	c.Cmd = rapid.SampledFrom(append([]string{""}, cmds...)).Draw(t, "cmd")
	c.Defect = rapid.SampledFrom(defects[c.Cmd]).Draw(t, "defect")
	switch {
	case strings.HasPrefix(c.Defect, "num:"):
		c.Text = rapid.SampledFrom(badNumbers).Draw(t, "num")
	case strings.HasPrefix(c.Defect, "frac:"):
		c.Text = rapid.SampledFrom(badFractions).Draw(t, "frac")
	case strings.HasPrefix(c.Defect, "bool:"):
		c.Text = rapid.SampledFrom(badBools).Draw(t, "bool")
	case c.Defect == "bad id":
		c.Text = rapid.SampledFrom(badIDs).Draw(t, "id")
	case c.Defect == "flag":
		c.Text = pick(t, "flag", "--frobnicate", "--idd=1", "--clobbber", "--metadata-file=x", "--write", "--force", "---", "--recursive1")
	case c.Defect == "short":
		c.Text = pick(t, "short", "-x", "-X", "-f", "-q", "-vx", "-D")
	case c.Defect == "unknown":
		c.Text = pick(t, "sub", "frobnicate", "recom", "Recon", "recovery", "dumpindex", "ls.", "identify2")
	}
	c.N = rapid.IntRange(0, 3).Draw(t, "n")
	c.Env = rapid.Bool().Draw(t, "env")
	c.Pos = rapid.IntRange(0, 3).Draw(t, "pos")
	c.Bare = rapid.IntRange(0, 5).Draw(t, "bare") == 3
	return c
}

func checkReject(x *Ctx, v any) error {
	c := v.(*caseReject)
	w := c.W
	b := newRecBox(x)
	img, meta := filepath.Join(b.box, "disk.img"), filepath.Join(b.box, "meta.db")
	vs := dedupe(w.versions())
	w.image(vs).write(img)
	b.own(img)
	must(os.Chmod(img, 0o644))
	// Metadata exists for most commands, and for recon in some cases.
	haveMeta := c.Cmd != "recon" || c.Defect == "meta other id" || c.Defect == "meta other bs" || c.N == 0
	if _, err := x.ok(runOpt{uid: nobody}, "recon", "--block-size", fmt.Sprint(w.BS), "--id", fsidText(w.fsid()), "--metadata", meta, img); err != nil {
		return err
	}
	b.file(filepath.Join(b.box, "plain"), []byte("plain file"), 0o644)
	b.mkdir(filepath.Join(b.box, "dir"))
	dest := filepath.Join(b.box, "dest")
	mnt := mountPoint

	bs, id := fmt.Sprint(w.BS), fsidText(w.fsid())
	m := meta
	setMeta, env := c.Cmd != "identify" && c.Cmd != "", c.Env
	pos := map[string][]string{"identify": {img}, "recon": {img}, "ls": {"/"}, "recover": {img, dest}, "mount": {img, mnt}}[c.Cmd]
	var extra []string
	withID, withBS := c.Cmd == "recon", c.Cmd == "recon" || c.Cmd == "identify"
	kind, flag, _ := strings.Cut(c.Defect, ":")
	switch kind {
	case "no meta":
		setMeta = false
	case "empty meta":
		m = ""
	case "few":
		pos = pos[:len(pos)-1]
		if c.Cmd == "mount" || c.N == 0 {
			pos = nil
		}
	case "many":
		for i := 0; i <= c.N; i++ {
			pos = append(pos, img)
		}
		if c.Cmd == "mount" {
			pos = append(pos, mnt)
		}
	case "flag", "short":
		extra = []string{c.Text}
	case "noarg", "unknown":
	case "num", "frac", "bool":
		extra = []string{"--" + flag + "=" + c.Text}
		if kind != "bool" && c.N > 0 {
			extra = []string{"--" + flag, c.Text}
		}
		withBS = withBS && flag != "block-size"
	case "no id":
		withID = false
	case "bad id":
		id = c.Text
	case "no image":
		pos[0] = filepath.Join(b.box, "missing.img")
		if c.N == 1 {
			pos[0] = filepath.Join(b.box, "nodir", "disk.img")
		} else if c.N == 2 {
			pos[0] = ""
		}
	case "dir image":
		pos[0] = filepath.Join(b.box, "dir")
	case "small image":
		pos[0] = filepath.Join(b.box, "small.img")
		b.file(pos[0], nil, 0o644)
		must(os.Truncate(pos[0], int64(pickAt(c.N, 0, w.BS-1, w.BS+super1, 64<<20+100*w.BS-1))))
	case "small block":
		bs = fmt.Sprint(pickAt(c.N, 0, 1, 100, 125)) // smaller than a header with an item
	case "meta missing":
		m = filepath.Join(b.box, "missing.db")
	case "meta dir missing":
		m = filepath.Join(b.box, "nodir", "missing.db")
	case "meta is dir":
		m = filepath.Join(b.box, "dir")
	case "meta other id":
		id = fsidText(mkFSIDBytes(w.FS + 1))
	case "meta other bs":
		bs = fmt.Sprint(w.BS * 2)
	case "meta garbage":
		m = filepath.Join(b.box, "plain")
		if c.N > 1 {
			b.file(m, patternBytes(uint64(c.N), 0, 65536), 0o644)
		}
	case "meta unreadable":
		if os.Getuid() != 0 {
			return nil
		}
		m = filepath.Join(b.box, "secret.db")
		must(copyFile(meta, m))
		must(os.Chmod(m, 0o600)) // owned by somebody else
	case "dest under file":
		pos[1] = filepath.Join(b.box, "plain", "dest")
	case "dest is file":
		pos[1] = filepath.Join(b.box, "plain")
	default:
		return infra("defect %q", c.Defect)
	}
	if !haveMeta {
		must(os.Remove(meta))
	}
	o := runOpt{uid: nobody, dir: b.box, wall: 90e9}
	var flags []string
	if setMeta {
		if env && m != "" {
			o.env = append(o.env, "BTRFSCUE_METADATA="+m)
		} else {
			flags = append(flags, "--metadata="+m)
			if env {
				o.env = append(o.env, "BTRFSCUE_METADATA="+meta)
			}
		}
	}
	if withID {
		flags = append(flags, "--id", id)
	}
	if withBS {
		flags = append(flags, "--block-size", bs)
	}
	if c.Bare {
		flags, pos, o.env = nil, nil, nil
	}
	var args []string
	if c.Cmd != "" {
		args = append(args, c.Cmd)
	} else if c.Defect == "unknown" {
		args = append(args, c.Text)
	}
	if c.Pos > 1 {
		flags, extra = append(extra, flags...), nil
	} else {
		flags, extra = append(flags, extra...), nil
	}
	if c.Pos%2 == 0 {
		args = append(append(args, flags...), pos...)
	} else {
		args = append(append(args, pos...), flags...)
	}
	if c.Defect == "noarg" {
		args = append(args, "--metadata")
	}
	before := treeSum(b.box)
	var r *Res
	var err error
	if c.Cmd == "mount" {
		var fs *fuseFS
		o.raw = args
		if fs, r, err = x.mountFS(x.Bin, o); fs != nil {
			fs.kill()
			return bad("btrfscue %q (%v) is not usable (%s) but mounts", args, o.env, c.Defect)
		}
	} else {
		r, err = x.btr(o, args...)
	}
	if err != nil {
		return err
	}
	if r.Code <= 0 {
		return bad("btrfscue %q (%s %v) is not usable (%s) but ended with status %d: %s%s", args, c.Cmd, o.env, c.Defect, r.Code, head(r.Err), head(string(r.Out)))
	}
	if strings.TrimSpace(r.Err) == "" {
		return bad("btrfscue %q is not usable (%s) but failed without a message: %s", args, c.Defect, head(string(r.Out)))
	}
	if after := treeSum(b.box); diffTree(before, after) != "" {
		return bad("btrfscue %q is not usable (%s) but changed files:\n%s", args, c.Defect, diffTree(before, after))
	}
	x.Label("%s: %s", c.Cmd, c.Defect)
	x.NonTrivial()
	return nil
}

func pickAt[T any](i int, vs ...T) T { return vs[i%len(vs)] }

func mkFSIDBytes(n int) []byte { u := mkFSID(U64(n)); return u[:] }

func copyFile(from, to string) error {
	b, err := os.ReadFile(from)
	if err != nil {
		return err
	}
	return os.WriteFile(to, b, 0o644)
}

// caseSpell is an invocation in two spellings.
type caseSpell struct {
	W   *World
	Cmd string
	// How to spell the flags.
	Meta   int // 0 separate, 1 with =, 2 environment, 3 flag over environment
	Front  int // bits: which global flags go before the command
	Order  U64 // permutes flags and positional arguments
	Equals int // bits: which flags use =
	IDForm int
	Extra  int // bits: flags with their default values
	Dashes bool
	Rel    bool // relative paths
	Path   int
	On     bool // --recursive, --clobber, --machine
	InBox  bool
	Verb   int `json:",omitempty"` // --verbose: 0 no, other values: a spelling
	Prog   int `json:",omitempty"` // --progress
}

func genSpell(t *rapid.T) any {
	c := &caseSpell{W: genWorld(t, WOpt{MaxNodes: 5, Subvols: 1, PlainName: true})}
	c.Cmd = pick(t, "cmd", "recon", "ls", "recover", "dump-index", "identify", "mount")
	c.Meta = rapid.IntRange(0, 3).Draw(t, "meta")
	c.Front = rapid.IntRange(0, 31).Draw(t, "front")
	c.Order = U64(rapid.Uint64Range(0, 1<<20).Draw(t, "order"))
	c.Equals = rapid.IntRange(0, 255).Draw(t, "equals")
	c.IDForm = rapid.IntRange(0, 2).Draw(t, "idform")
	c.Extra = rapid.IntRange(0, 63).Draw(t, "extra")
	c.Dashes = rapid.Bool().Draw(t, "dashes")
	c.Rel = rapid.Bool().Draw(t, "rel")
	c.On = rapid.Bool().Draw(t, "on")
	c.Verb = max(rapid.IntRange(-4, 3).Draw(t, "verbose"), 0)
	c.Prog = max(rapid.IntRange(-3, 4).Draw(t, "progress"), 0)
	return c
}

func checkSpell(x *Ctx, v any) error {
	c := v.(*caseSpell)
	w := c.W
	vs := dedupe(w.versions())
	type outcome struct {
		out  string
		meta map[string]string
		tree map[string]string
	}
	do := func(name string, spell bool) (oc outcome, err error) {
		b := &recBox{x: x, box: x.Path(name)}
		must(os.Mkdir(b.box, 0o755))
		b.own(b.box)
		img, meta := filepath.Join(b.box, "disk.img"), filepath.Join(b.box, "meta.db")
		dest := filepath.Join(b.box, "dest")
		w.image(vs).write(img)
		b.own(img)
		if c.Cmd != "recon" && c.Cmd != "identify" {
			if _, err = x.ok(runOpt{}, "recon", "--block-size", fmt.Sprint(w.BS), "--id", fsidText(w.fsid()), "--metadata", meta, img); err != nil {
				return
			}
			b.own(meta)
		}
		decoy := filepath.Join(b.box, "decoy.db")
		p := func(s string) string {
			if spell && c.Rel {
				return must1(filepath.Rel(b.box, s))
			}
			return s
		}
		type fl struct{ name, val string }
		var front, local []fl
		o := runOpt{uid: nobody, dir: b.box}
		global := func(i int, f fl) {
			if spell && c.Front>>i&1 == 1 {
				front = append(front, f)
			} else {
				local = append(local, f)
			}
		}
		if c.Cmd != "identify" {
			switch {
			case !spell || c.Meta < 2:
				global(0, fl{"--metadata", p(meta)})
			case c.Meta == 2:
				o.env = append(o.env, "BTRFSCUE_METADATA="+p(meta))
			default:
				o.env = append(o.env, "BTRFSCUE_METADATA="+p(decoy))
				global(0, fl{"--metadata", p(meta)})
			}
		} else if spell && c.Meta > 1 {
			o.env = append(o.env, "BTRFSCUE_METADATA="+p(decoy)) // not used
		}
		if c.Cmd == "recon" || c.Cmd == "identify" {
			if !spell || w.BS != 16384 || c.Extra&1 == 1 {
				global(1, fl{"--block-size", fmt.Sprint(w.BS)})
			}
		}
		if spell && c.Verb > 0 {
			global(3, fl{[]string{"-v", "--verbose", "--verbose=true"}[c.Verb-1], ""})
		}
		if spell && c.Prog > 0 {
			global(4, fl{[]string{"-p", "--progress", "--progress=true", "-p=true"}[c.Prog-1], ""})
		}
		var pos []string
		boolean := func(name string, on bool, i int) {
			switch {
			case on && spell && c.Extra>>i&1 == 1:
				local = append(local, fl{name, pickAt(int(c.Order), "=true", "=1", "=t", "=TRUE")})
			case on:
				local = append(local, fl{name, ""})
			case spell && c.Extra>>i&1 == 1:
				local = append(local, fl{name, pickAt(int(c.Order), "=false", "=0", "=f", "=False")})
			}
		}
		switch c.Cmd {
		case "recon":
			id := fsidText(w.fsid())
			if spell {
				id = w.reconArgs(c.IDForm)
			}
			local = append(local, fl{"--id", id})
			pos = []string{p(img)}
		case "ls":
			boolean("--recursive", c.On, 1)
			boolean("--inode", !c.On, 2)
			pos = []string{"/"}
			if spell && c.Extra&8 != 0 {
				pos = nil
			}
		case "mount":
			pos = []string{p(img), mountPoint}
		case "recover":
			boolean("--clobber", c.On, 1)
			pos = []string{p(img), p(dest)}
			b.mkdir(dest)
			for _, n := range w.Subs[0].Nodes {
				for _, l := range n.Links {
					if l.Dir == 0 && n.Type == ftReg && creatable(string(l.Name)) {
						b.file(filepath.Join(dest, string(l.Name)), []byte("old"), 0o644)
					}
				}
			}
		case "identify":
			local = append(local, fl{"--min-blocks", "10000000"}, fl{"--min-occurrence", "1"})
			if spell && c.Extra&1 == 1 {
				local = append(local, fl{"--max-blocks", "1000000"})
			}
			if spell && c.Extra&2 == 2 {
				local = append(local, fl{"--sample-fraction", "0.0001"})
			}
			if spell && c.Extra&4 == 4 {
				global(2, fl{"-m", ""})
			} else {
				global(2, fl{"--machine", ""})
			}
			pos = []string{p(img)}
		}
		text := func(i int, f fl) []string {
			switch {
			case f.val == "":
				return []string{f.name}
			case f.val[0] == '=':
				return []string{f.name + f.val}
			case spell && c.Equals>>i&1 == 1:
				return []string{f.name + "=" + f.val}
			}
			return []string{f.name, f.val}
		}
		var args []string
		for i, f := range front {
			args = append(args, text(i, f)...)
		}
		args = append(args, c.Cmd)
		var parts [][]string
		for i, f := range local {
			parts = append(parts, text(i+3, f))
		}
		if spell {
			// Positional arguments keep their order, flags go anywhere.
			r := splitmix(c.Order)
			for i := len(parts) - 1; i > 0; i-- {
				j := r.intn(i + 1)
				parts[i], parts[j] = parts[j], parts[i]
			}
			if c.Dashes {
				parts = append(parts, append([]string{"--"}, pos...))
			} else {
				at := 0
				for _, a := range pos {
					at += r.intn(len(parts) - at + 1)
					parts = append(parts[:at], append([][]string{{a}}, parts[at:]...)...)
					at++
				}
			}
		} else {
			parts = append(parts, pos)
		}
		for _, p := range parts {
			args = append(args, p...)
		}
		if c.Cmd == "mount" {
			view := newView(vs, img)
			defer view.close()
			o.raw = args
			fs, r, err := x.mountFS(x.Bin, o)
			if err == nil && fs == nil {
				err = bad("btrfscue %q failed with status %d: %s", args, r.Code, head(r.Err))
			}
			if err != nil {
				return oc, err
			}
			defer fs.kill()
			if err := newClient(fs, view, must1(os.ReadFile(meta))).sweep(true); err != nil {
				return oc, bad2(err, "btrfscue %q", args)
			}
			return oc, fs.stop()
		}
		r, err := x.ok(o, args...)
		if err != nil {
			return oc, err
		}
		oc.out = string(r.Out)
		if c.Cmd == "identify" {
			oc.out = ""
			ls := append([]string{}, lines(r.Out)...)
			sort.Strings(ls)
			for _, l := range ls {
				oc.out += l + "\n"
			}
		}
		if c.Cmd == "recon" {
			oc.meta, err = rawDump(meta)
			if err != nil {
				return oc, bad("metadata unreadable: %v", err)
			}
			must(os.Remove(meta))
		}
		oc.tree = treeSum(b.box)
		delete(oc.tree, "/meta.db")
		return oc, nil
	}
	a, err := do("a", false)
	if err != nil {
		return err
	}
	b, err := do("b", true)
	if err != nil {
		return err
	}
	if c.Verb > 0 {
		// More text may be there, but no less.
		left := map[string]int{}
		for _, l := range strings.Split(b.out, "\n") {
			left[l]++
		}
		for _, l := range strings.Split(a.out, "\n") {
			if left[l]--; left[l] < 0 {
				return bad("with more messages, %q is missing:\n%s\n-----\n%s", l, head(a.out), head(b.out))
			}
		}
	} else if a.out != b.out {
		return bad("output differs:\n%s\n-----\n%s", head(a.out), head(b.out))
	}
	if d := diffTree(a.meta, b.meta); d != "" || len(a.meta) != len(b.meta) {
		return bad("metadata differs:\n%s", d)
	}
	if d := diffTree(a.tree, b.tree); d != "" {
		return bad("files differ:\n%s", d)
	}
	x.Label("%s", c.Cmd)
	x.LabelIf(c.Meta == 2, "metadata from the environment")
	x.LabelIf(c.Meta == 3, "flag over environment")
	x.LabelIf(c.Verb > 0, "verbose")
	x.LabelIf(c.Prog > 0, "with progress")
	x.NonTrivialIf(c.Meta > 0 || c.Front > 0 || c.Equals > 0 || c.Extra > 0 || c.Verb > 0 || c.Prog > 0)
	return nil
}

// creatable tells whether a file of this name can be made in advance.
func creatable(n string) bool {
	return n != "" && n != "." && n != ".." && len(n) < 255 && !strings.ContainsAny(n, "/\x00\\")
}

func init() {
	register(&Sub{Name: "C31/reject", Quick: 1500, Thorough: 9000, NeedBin: true,
		Rule: "a command line with one of about 25 defects (missing or unusable option, argument, image, metadata or destination), in any flag order; non-trivial: all",
		New:  func() any { return &caseReject{} }, Gen: genReject, Check: checkReject})
	register(&Sub{Name: "C31/spelling", Quick: 800, Thorough: 5000, NeedBin: true,
		Rule: "the same invocation in the plain and in another spelling (environment, =, order, position, defaults, relative paths, with messages and progress); non-trivial: the spelling differs",
		New:  func() any { return &caseSpell{} }, Gen: genSpell, Check: checkSpell})
}
