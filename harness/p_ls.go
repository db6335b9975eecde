package main

// C13, C21: ls.

import (
	"fmt"
	"path"
	"regexp"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

type lsPath struct {
	pathSpec
	Slashes int // 1: doubled, 2: trailing, 3: without a leading one
}

type caseC13 struct {
	W         *World
	Paths     []lsPath
	Recursive bool
	Inode     bool
	Recon     bool
	// Lost are inode items (modulo their number) that are missing.
	Lost []int
}

func genC13(stale bool) func(t *rapid.T) any {
	return func(t *rapid.T) any {
		c := &caseC13{W: genWorld(t, WOpt{MaxNodes: 18, Subvols: 3, Special: true, Collide: true, NoData: true, PlainName: true, Stale: stale, Fill: true})}
		c.Recursive = rapid.IntRange(0, 2).Draw(t, "recursive") == 0
		c.Inode = rapid.IntRange(0, 2).Draw(t, "inode") == 0
		c.Recon = rapid.IntRange(0, 5).Draw(t, "recon") == 0
		for i, n := 0, rapid.IntRange(0, 5).Draw(t, "paths"); i < n; i++ {
			p := lsPath{Slashes: rapid.IntRange(0, 3).Draw(t, "slashes")}
			p.Steps = rapid.SliceOfN(rapid.IntRange(-1, 20), 0, 5).Draw(t, "steps")
			if p.Down = max(0, rapid.IntRange(-2, 4).Draw(t, "down")); p.Down > 1 {
				p.Down = pick(t, "downs", 30, 31, 600, 601)
			}
			for _, s := range p.Steps {
				if s < 0 && p.Name == "" {
					p.Name = Bytes(genName(t, true))
				}
			}
			c.Paths = append(c.Paths, p)
		}
		if f := c.W.Fill; f != nil && f.Deep && len(c.Paths) > 0 {
			c.Paths[0].Steps, c.Paths[0].Down = nil, 600+f.N%3
		}
		if !stale && rapid.IntRange(0, 3).Draw(t, "lost?") == 0 {
			c.Lost = rapid.SliceOfN(rapid.IntRange(0, 40), 1, 3).Draw(t, "lost")
		}
		return c
	}
}

func dropInodes(vs []Ver, lost []int) []Ver {
	var at []int
	for i, v := range vs {
		if v.Key.Type == tInodeItem {
			at = append(at, i)
		}
	}
	gone := map[int]bool{}
	for _, l := range lost {
		gone[at[l%len(at)]] = true
	}
	var out []Ver
	for i, v := range vs {
		if !gone[i] {
			out = append(out, v)
		}
	}
	return out
}

// lsLine is what ls prints for an entry: a regular expression, as the width of
// columns is left open (and a name with an \xff keeps the tabs between them).
func (v *View) lsLine(owner uint64, e DirEnt, showInode bool) string {
	o, ino := enter(owner, e)
	s := "^"
	if showInode {
		if e.Loc.Type == tRootItem {
			s += fmt.Sprintf("(%d|%d)[ \t]+", e.Loc.ID, ino)
		} else {
			s += fmt.Sprintf("%d[ \t]+", ino)
		}
	}
	kind, ok := map[uint8]string{ftReg: "-", ftBlk: "b", ftChr: "c", ftDir: "d", ftLink: "l", ftFifo: "p", ftSock: "s"}[e.Type]
	if !ok {
		kind = `\?`
	}
	s += kind
	if in, ok := v.inode(o, ino); !ok {
		s += strings.ReplaceAll(`\?{9}_\?_\?_\?_\?_\?_`, "_", `[ \t]+`)
	} else {
		perm := ""
		for i := 8; i >= 0; i-- {
			if in.Mode>>i&1 == 1 {
				perm += string("xwr"[i%3])
			} else {
				perm += "-"
			}
		}
		s += fmt.Sprintf(strings.ReplaceAll(`%s_%d_%d_%d_%d_%s_`, "_", `[ \t]+`), perm, in.Nlink, in.UID, in.GID, in.Size,
			regexp.QuoteMeta(time.Unix(in.Ctime.Sec, int64(in.Ctime.Nsec)).UTC().Format("Jan _2 15:04")))
	}
	return s + "(?s:" + quoteBytes(string(e.Name)) + ")$"
}

// quoteBytes matches a name that need not be valid UTF-8: compared apart from
// the expression.
func quoteBytes(s string) string { return "NAME" }

type lsWant struct {
	re   string
	name string
	head string // a heading instead
}

func (w lsWant) match(line string) bool {
	if w.re == "" {
		return line == w.head
	}
	if !strings.HasSuffix(line, w.name) {
		return false
	}
	re := regexp.MustCompile(strings.TrimSuffix(w.re, "(?s:NAME)$") + "$")
	return re.MatchString(line[:len(line)-len(w.name)])
}

func (v *View) lsDir(owner, dir uint64, showInode bool) (out []lsWant, subs []DirEnt) {
	es := v.dir(owner, dir)
	sort.Slice(es, func(i, j int) bool {
		a, b := es[i].Type == ftDir, es[j].Type == ftDir
		if a != b {
			return b
		}
		return es[i].Name < es[j].Name
	})
	for _, e := range es {
		out = append(out, lsWant{re: v.lsLine(owner, e, showInode), name: string(e.Name)})
		if e.Type == ftDir {
			subs = append(subs, e)
		}
	}
	return
}

func (v *View) lsTree(owner, dir uint64, rec, showInode bool) (out []lsWant) {
	out, subs := v.lsDir(owner, dir, showInode)
	if rec {
		for _, e := range subs {
			o, d := enter(owner, e)
			out = append(out, lsWant{head: string(e.Name) + ":"})
			out = append(out, v.lsTree(o, d, rec, showInode)...)
		}
	}
	return
}

func lines(b []byte) []string {
	if len(b) == 0 {
		return nil
	}
	l := strings.Split(string(b), "\n")
	if l[len(l)-1] == "" {
		l = l[:len(l)-1]
	}
	return l
}

func checkC13(x *Ctx, v any) error {
	c := v.(*caseC13)
	vs := dropInodes(c.W.versions(), c.Lost)
	meta := x.Path("meta.db")
	if c.Recon {
		img := x.Path("disk.img")
		c.W.image(vs).write(img)
		if _, err := x.ok(runOpt{}, "recon", "--block-size", fmt.Sprint(c.W.BS), "--id", fsidText(c.W.fsid()), "--metadata", meta, img); err != nil {
			return err
		}
	} else {
		buildIndex(meta, vs)
	}
	view := newView(vs, "")
	args := []string{"ls", "--metadata", meta}
	if c.Recursive {
		args = append(args, "--recursive")
	}
	if c.Inode {
		args = append(args, "--inode")
	}
	args = append(args, "--")
	var files, dirs []lsWant
	var missing []string
	for _, p := range c.Paths {
		if p.Name == "." || p.Name == ".." {
			p.Name = "dots"
		}
		comps := view.path(p.pathSpec)
		x.LabelIf(len(comps) > 20, "more than 20 directories deep")
		arg := "/" + strings.Join(comps, "/")
		switch {
		case p.Slashes == 1:
			arg = strings.ReplaceAll(arg, "/", "//")
		case p.Slashes == 2:
			arg += "/"
		case p.Slashes == 3 && len(comps) > 0:
			arg = arg[1:]
		}
		args = append(args, arg)
		if len(comps) == 0 {
			dirs = append(dirs, view.lsTree(oFS, firstFree, c.Recursive, c.Inode)...)
			continue
		}
		owner, e := view.walkOwner(comps)
		switch {
		case e == nil:
			missing = append(missing, path.Clean(arg))
		case e.Type == ftDir:
			o, d := enter(owner, *e)
			dirs = append(dirs, view.lsTree(o, d, c.Recursive, c.Inode)...)
			x.LabelIf(o != oFS, "directory in a subvolume")
			x.LabelIf(e.Loc.Type == tRootItem, "subvolume directory")
		default:
			files = append(files, lsWant{re: view.lsLine(owner, *e, c.Inode), name: string(e.Name)})
			x.LabelIf(owner != oFS, "file in a subvolume")
		}
	}
	if len(c.Paths) == 0 {
		dirs = view.lsTree(oFS, firstFree, c.Recursive, c.Inode)
	}
	want := append(files, dirs...)
	r, err := x.btr(runOpt{}, args...)
	if err != nil {
		return err
	}
	got := lines(r.Out)
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i == len(got):
			return bad("%q: line %d is missing: %s %q%s\n%s", args, i+1, want[i].re, want[i].name, want[i].head, head(r.Err))
		case i == len(want):
			return bad("%q: unexpected line %d: %q", args, i+1, got[i])
		case !want[i].match(got[i]):
			return bad("%q: line %d is %q, want %s %q%s", args, i+1, got[i], want[i].re, want[i].name, want[i].head)
		}
	}
	for _, m := range missing {
		if !strings.Contains(r.Err, m) {
			return bad("%q: the missing path %q is not reported: %q", args, m, r.Err)
		}
	}
	if len(missing) == 0 && strings.Contains(r.Err, "cannot lookup") {
		return bad("%q: all paths are there, but: %s", args, r.Err)
	}
	x.LabelIf(len(missing) > 0, "missing path")
	x.LabelIf(len(missing) > 0 && len(want) > 0, "missing and present paths")
	x.LabelIf(len(files) > 0, "files")
	x.LabelIf(c.Recursive, "recursive")
	x.LabelIf(c.Recon, "with recon")
	x.LabelIf(len(c.Lost) > 0, "lost inodes")
	x.NonTrivialIf(len(want) > 3 && (len(c.Paths) > 0 || c.Recursive) && (len(c.W.Stale) > 0 || !strings.HasPrefix(x.sub, "C21")))
	return nil
}

// walkOwner is walk and also gives the tree the last entry is in.
func (v *View) walkOwner(comps []string) (in uint64, e *DirEnt) {
	owner, dir := uint64(oFS), uint64(firstFree)
	for _, n := range comps {
		e = nil
		for _, d := range v.dir(owner, dir) {
			if string(d.Name) == n {
				e = &d
				break
			}
		}
		if e == nil {
			return 0, nil
		}
		in = owner
		owner, dir = enter(owner, *e)
	}
	return
}

// ---- Graphs with loops

func genC13graph(t *rapid.T) any {
	c := genC29(t).(*caseC04)
	return &caseC13{W: c.W, Recursive: true}
}

func checkC13graph(x *Ctx, v any) error {
	c := v.(*caseC13)
	vs := c.W.versions()
	meta := x.Path("meta.db")
	buildIndex(meta, vs)
	view := newView(vs, "")
	r, err := x.ok(runOpt{}, "ls", "--metadata", meta, "--recursive")
	if err != nil {
		return err
	}
	// The output consists of the listings of the reachable directories, all but
	// the first of them under one of their names.
	reach := view.reachable(oFS, firstFree)
	names := map[string][]dirKey{}
	refs := 0
	for k := range reach {
		for _, e := range view.dir(k[0], k[1]) {
			if isDirEnt(e) {
				o, d := enter(k[0], e)
				names[string(e.Name)+":"] = append(names[string(e.Name)+":"], dirKey{o, d})
				refs++
			}
		}
	}
	matches := func(k dirKey, got []string) bool {
		want, _ := view.lsDir(k[0], k[1], false)
		if len(want) != len(got) {
			return false
		}
		for i := range want {
			if !want[i].match(got[i]) {
				return false
			}
		}
		return true
	}
	sections := [][]string{nil}
	heads := []string{""}
	for _, l := range lines(r.Out) {
		if names[l] != nil {
			sections = append(sections, nil)
			heads = append(heads, l)
		} else {
			sections[len(sections)-1] = append(sections[len(sections)-1], l)
		}
	}
	if !matches(dirKey{oFS, firstFree}, sections[0]) {
		return bad("listing of the root directory is wrong: %q", sections[0])
	}
	seen := map[dirKey]bool{{oFS, firstFree}: true}
	for i := 1; i < len(sections); i++ {
		ok := false
		for _, k := range names[heads[i]] {
			if matches(k, sections[i]) {
				ok = true
				seen[k] = true
			}
		}
		if !ok {
			return bad("the section %q is not the listing of such a directory: %q", heads[i], sections[i])
		}
	}
	for k := range reach {
		if !seen[k] {
			return bad("directory %d of tree %d is not listed:\n%s", k[1], k[0], head(string(r.Out)))
		}
	}
	x.LabelIf(refs >= len(reach), "loop or several references")
	x.NonTrivialIf(len(reach) > 2)
	return nil
}

func init() {
	register(&Sub{Name: "C13/ls", Quick: 3000, Thorough: 20000, NeedBin: true,
		Rule: "generated trees with subvolumes, special files and lost inodes; up to 5 existing, missing and oddly written paths, whole output compared line by line; non-trivial: more than 3 lines and a path or --recursive",
		New:  func() any { return &caseC13{} }, Gen: genC13(false), Check: checkC13})
	register(&Sub{Name: "C13/graph", Quick: 2000, Thorough: 12000, NeedBin: true,
		Rule: "directory and subvolume graphs with loops and several references; recursive listing; non-trivial: more than two reachable directories",
		New:  func() any { return &caseC13{} }, Gen: genC13graph, Check: checkC13graph})
	register(&Sub{Name: "C21/ls", Quick: 2000, Thorough: 9000, NeedBin: true,
		Rule: "as C13/ls, with up to 25 older versions of items; non-trivial: stale versions and more than 3 lines",
		New:  func() any { return &caseC13{} }, Gen: genC13(true), Check: checkC13})
}
