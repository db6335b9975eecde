package main

// C10, C11: all commands on damaged images, with any option values.

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// itemDmg changes an item version (chosen modulo their number).
type itemDmg struct {
	Item int
	Kind string
	A, B U64
}

var itemDmgKinds = []string{"field", "field", "field", "field", "field", "byte", "cut", "extend", "key", "copy", "drop", "noise", "owner", "swap", "index"}

// leafDmg changes metadata blocks on the device.
type leafDmg struct {
	Block int
	Kind  string
	A, B  U64
}

var leafDmgKinds = []string{"nritems", "itemoff", "itemsize", "itemkey", "byte", "zero", "ones", "noise", "level", "owner", "gen", "copy", "half", "shift"}

// fuzzCmd is one run of a command.
type fuzzCmd struct {
	Cmd  string
	Opts []string // common options, before the metadata option
	Args []string // "IMG", "DEST" stand for paths
	Meta string   // which metadata file: good, missing, image, empty, text, dir, none
	Ops  []rawOp  `json:",omitempty"`
}

// rawOp is a request to a mounted view.
type rawOp struct {
	Op   string
	Sel  int
	A, B U64
}

type caseFuzz struct {
	W      *World
	Recon  bool // metadata comes from recon of the damaged image
	Items  []itemDmg
	Leaves []leafDmg
	Cut    int // of 1000, 0: none
	Cmds   []fuzzCmd
}

// fields are the places of the numbers in items that matter.
var fields = map[uint8][][2]int{
	tInodeItem:  {{16, 8}, {16, 8}, {24, 8}, {40, 4}, {52, 4}, {52, 4}, {56, 8}, {112, 8}, {120, 4}, {0, 8}},
	tDirItem:    {{0, 8}, {0, 8}, {8, 1}, {8, 1}, {9, 8}, {17, 8}, {25, 2}, {25, 2}, {27, 2}, {27, 2}, {29, 1}, {29, 1}},
	tXAttr:      {{25, 2}, {27, 2}, {29, 1}, {0, 8}},
	tDirIndex:   {{0, 8}, {8, 1}, {25, 2}, {27, 2}, {29, 1}},
	tExtentData: {{0, 8}, {8, 8}, {16, 1}, {17, 1}, {18, 2}, {20, 1}, {20, 1}, {21, 8}, {21, 8}, {29, 8}, {37, 8}, {37, 8}, {45, 8}, {45, 8}},
	tChunk:      {{0, 8}, {16, 8}, {24, 8}, {44, 2}, {44, 2}, {46, 2}, {48, 8}, {56, 8}, {56, 8}},
	tRootItem:   {{160, 8}, {168, 8}, {176, 8}, {216, 4}, {238, 1}},
}

// value is a number that may do harm.
func (w *World) value(r *splitmix) uint64 {
	switch r.intn(12) {
	case 0:
		return 0
	case 1:
		return maxU
	case 2:
		return maxU - r.next()%5000
	case 3:
		return 1 << (r.next() % 64)
	case 4:
		return 1<<(r.next()%64) - 1
	case 5:
		return r.next()
	case 6: // an inode
		s := w.Subs[r.intn(len(w.Subs))]
		return uint64(s.Nodes[r.intn(len(s.Nodes))].Ino)
	case 7:
		return uint64(w.Subs[r.intn(len(w.Subs))].ID)
	case 8:
		if len(w.Blobs) > 0 {
			return w.logical(w.Blobs[r.intn(len(w.Blobs))]) + r.next()%3*4096
		}
		return 4096
	case 9:
		return uint64(pickByte(r, 1, 12, 24, 84, 96, 108, 132, 144, 228))
	case 10:
		return uint64(r.intn(300))
	}
	return 4096 * uint64(r.intn(100))
}

func putN(b []byte, at, n int, v uint64) {
	for i := 0; i < n && at+i < len(b); i++ {
		b[at+i] = byte(v >> (8 * i))
	}
}

func (c *caseFuzz) damageItems(vs []Ver) []Ver {
	out := append([]Ver(nil), vs...)
	for _, d := range c.Items {
		if len(out) == 0 {
			break
		}
		i := d.Item % len(out)
		r := splitmix(d.A)
		v := out[i]
		v.Data = append([]byte(nil), v.Data...)
		n := len(v.Data)
		switch d.Kind {
		case "field":
			f := [2]int{r.intn(max(1, n)), 1 << r.intn(4)}
			if l := fields[v.Key.Type]; l != nil && r.intn(8) > 0 {
				f = l[r.intn(len(l))]
			}
			putN(v.Data, f[0], f[1], c.W.value(&r))
		case "byte":
			if n > 0 {
				v.Data[r.intn(n)] ^= byte(1 + r.intn(255))
			}
		case "cut":
			if n > 0 {
				v.Data = v.Data[:r.intn(n)]
			}
		case "extend":
			v.Data = append(v.Data, patternBytes(uint64(d.B), 0, r.next()%1500)...)
		case "noise":
			if n > 0 {
				at := r.intn(n)
				copy(v.Data[at:], patternBytes(uint64(d.B), 0, 1+r.next()%64))
			}
		case "key", "copy", "owner":
			switch r.intn(5) {
			case 0:
				v.Key.ID = U64(c.W.value(&r))
			case 1:
				v.Key.Off = U64(c.W.value(&r))
			case 2:
				v.Key.Type = pickByte(&r, 1, 12, 24, 84, 96, 108, 132, 144, 156, 228, 0, 255)
			case 3:
				v.Gen = c.W.value(&r)
			case 4:
				v.Owner = c.W.value(&r)
			}
			if d.Kind == "owner" {
				v.Owner = uint64(c.W.Subs[r.intn(len(c.W.Subs))].ID)
			}
			if d.Kind != "key" {
				if n > 2000 || len(out) > 600 {
					continue
				}
				out = append(out, v)
				continue
			}
		case "drop":
			out = append(out[:i], out[i+1:]...)
			continue
		case "index": // takes the place of the metadata of the index
			v.Owner, v.Gen, v.Key = maxU, maxU, Key{U64(lastFree), 255, U64(maxU)}
			v.Data = v.Data[:min(n, r.intn(10))]
			out = append(out, v)
			continue
		case "swap": // the payload of another item
			v.Data = append([]byte(nil), out[r.intn(len(out))].Data...)
		}
		if itemLen+len(v.Data) > c.W.BS-hdrLen {
			v.Data = v.Data[:c.W.BS-hdrLen-itemLen]
		}
		out[i] = v
	}
	return out
}

func (c *caseFuzz) damageImage(im *Image) {
	for _, d := range c.Leaves {
		if len(im.Blocks) == 0 {
			return
		}
		b := &im.Blocks[d.Block%len(im.Blocks)]
		r := splitmix(d.A)
		data := append([]byte(nil), b.Data...)
		n := int(le.Uint32(data[96:]))
		it := hdrLen + itemLen*r.intn(max(1, min(n, 50)))
		switch d.Kind {
		case "nritems":
			le.PutUint32(data[96:], uint32(c.W.value(&r)))
		case "itemoff":
			le.PutUint32(data[it+17:], uint32(c.W.value(&r)))
		case "itemsize":
			le.PutUint32(data[it+21:], uint32(c.W.value(&r)))
		case "itemkey":
			putN(data, it+r.intn(17), 8, c.W.value(&r))
		case "byte":
			for k := r.intn(8); k >= 0; k-- {
				data[r.intn(len(data))] ^= byte(1 + r.intn(255))
			}
		case "zero":
			at := r.intn(len(data))
			clear(data[at:min(len(data), at+1+r.intn(4096))])
		case "ones":
			at := r.intn(len(data))
			copy(data[at:], bytes.Repeat([]byte{0xff}, 1+r.intn(512)))
		case "noise":
			at := r.intn(len(data))
			copy(data[at:], patternBytes(uint64(d.B), 0, 1+r.next()%4096))
		case "level":
			data[100] = byte(c.W.value(&r))
		case "owner":
			le.PutUint64(data[88:], c.W.value(&r))
		case "gen":
			le.PutUint64(data[80:], c.W.value(&r))
		case "copy": // the content of another block
			copy(data, im.Blocks[r.intn(len(im.Blocks))].Data)
		case "half": // torn
			h := 512 * (1 + r.intn(len(data)/512-1))
			copy(data[h:], im.Blocks[r.intn(len(im.Blocks))].Data[h:])
		case "shift":
			copy(data[hdrLen+1:], append([]byte(nil), data[hdrLen:len(data)-1]...))
		}
		b.Data = data
	}
}

var hugeNums = []string{"0", "1", "2", "3", "7", "100", "1000", "4096", "65536", "4294967295", "4294967296", "9223372036854775807", "18446744073709551615"}

func genFuzzCmd(t *rapid.T, w *World, mountOps int) fuzzCmd {
	k := fuzzCmd{Cmd: pick(t, "cmd", "identify", "recon", "dump-index", "ls", "ls", "recover", "recover", "mount", "mount"), Meta: "good"}
	opt := func(name string, vals ...string) {
		if rapid.Bool().Draw(t, name+"?") {
			k.Opts = append(k.Opts, "--"+name+"="+pick(t, name, vals...))
		}
	}
	flag := func(name string) {
		if rapid.IntRange(0, 2).Draw(t, name+"?") == 0 {
			k.Opts = append(k.Opts, name)
		}
	}
	if rapid.IntRange(0, 14).Draw(t, "meta?") == 9 {
		k.Meta = pick(t, "meta", "missing", "image", "empty", "text", "dir", "none")
	}
	flag("-v")
	flag("-m")
	flag("-p=true")
	sizes := []string{fmt.Sprint(w.BS), fmt.Sprint(w.BS), "4096", "16384", "512", "1000", "126", "65536", "1048576", "4095", "640000"}
	switch k.Cmd {
	case "identify":
		if rapid.IntRange(0, 11).Draw(t, "bs?") == 7 {
			opt("block-size", hugeNums...)
		} else {
			opt("block-size", sizes...)
		}
		opt("sample-fraction", "0", "1", "0.0001", "0.5", "-1", "2", "1e300", "-1e300", "NaN", "Inf", "-Inf", "1e-320")
		opt("min-blocks", hugeNums...)
		opt("max-blocks", hugeNums...)
		opt("min-occurrence", hugeNums...)
		k.Args = []string{"IMG"}
	case "recon":
		if rapid.IntRange(0, 11).Draw(t, "bs?") == 7 {
			k.Opts = append(k.Opts, "--block-size="+pick(t, "bs", hugeNums...))
		} else {
			k.Opts = append(k.Opts, "--block-size="+pick(t, "bs", sizes...))
		}
		id := fsidText(w.fsid())
		if rapid.IntRange(0, 12).Draw(t, "id?") != 7 {
			k.Opts = append(k.Opts, "--id="+id)
		} else {
			opt("id", strings.Repeat("0", 32), strings.Repeat("f", 32), "x", "", id[:35], id+"0")
		}
		k.Args = []string{"IMG"}
	case "ls":
		flag("--recursive")
		flag("--inode")
		paths := []string{"/", "", ".", "..", "//", "/a/..", "/nosuch", "\x01\xff", strings.Repeat("a/", 2000), "/."}
		for _, s := range w.Subs {
			for _, n := range s.Nodes {
				for _, l := range n.Links {
					if !strings.Contains(string(l.Name), "\x00") {
						paths = append(paths, "/"+string(l.Name), "/"+string(l.Name))
					}
				}
			}
		}
		for i, n := 0, rapid.IntRange(0, 4).Draw(t, "paths"); i < n; i++ {
			k.Args = append(k.Args, pick(t, "path", paths...))
		}
	case "recover":
		flag("--clobber")
		k.Args = []string{"IMG", "DEST"}
	case "mount":
		if rapid.IntRange(0, 6).Draw(t, "dev?") != 5 {
			k.Args = []string{"IMG"}
		}
		for i, n := 0, rapid.IntRange(0, mountOps).Draw(t, "ops"); i < n; i++ {
			k.Ops = append(k.Ops, rawOp{pick(t, "op", "lookup", "lookup", "readdir", "readdirplus", "attr", "readlink", "xattr", "read", "read", "forget"),
				rapid.IntRange(0, 100).Draw(t, "sel"), U64(rapid.Uint64Range(0, 1<<20).Draw(t, "a")), U64(rapid.Uint64Range(0, 1<<20).Draw(t, "b"))})
		}
	}
	if len(k.Opts) > 0 && rapid.IntRange(0, 30).Draw(t, "badopt?") == 19 {
		o := &k.Opts[rapid.IntRange(0, len(k.Opts)-1).Draw(t, "badopt")]
		*o = strings.SplitN(*o, "=", 2)[0] + "=" + pick(t, "badval", "", "-1", "x", "1.5", "0x10", "99999999999999999999")
	}
	if rapid.IntRange(0, 30).Draw(t, "args?") == 19 {
		k.Args = [][]string{{}, {"IMG"}, {"IMG", "IMG", "IMG"}, {"nosuch"}, {"nosuch", "nosuch"}, {"/dev/null"}, {"."}, {"IMG", "IMG"}}[rapid.IntRange(0, 7).Draw(t, "badargs")]
	}
	return k
}

func genFuzz(damage bool) func(t *rapid.T) any {
	return func(t *rapid.T) any {
		c := &caseFuzz{W: genWorld(t, WOpt{MaxNodes: 10, Subvols: 2, Xattrs: true, Special: true, Collide: true, Stale: true, Big: true})}
		c.Recon = rapid.Bool().Draw(t, "recon")
		if damage || rapid.Bool().Draw(t, "damage") {
			for i, n := 0, rapid.IntRange(0, 12).Draw(t, "items"); i < n; i++ {
				c.Items = append(c.Items, itemDmg{rapid.IntRange(0, 300).Draw(t, "item"), pick(t, "kind", itemDmgKinds...),
					U64(rapid.Uint64Range(0, 1<<30).Draw(t, "a")), U64(rapid.Uint64Range(0, 1<<16).Draw(t, "b"))})
			}
			if c.Recon {
				for i, n := 0, rapid.IntRange(0, 6).Draw(t, "leaves"); i < n; i++ {
					c.Leaves = append(c.Leaves, leafDmg{rapid.IntRange(0, 60).Draw(t, "block"), pick(t, "kind", leafDmgKinds...),
						U64(rapid.Uint64Range(0, 1<<30).Draw(t, "a")), U64(rapid.Uint64Range(0, 1<<16).Draw(t, "b"))})
				}
			}
			if rapid.IntRange(0, 6).Draw(t, "cut?") == 4 {
				c.Cut = rapid.IntRange(1, 999).Draw(t, "cut")
			}
		}
		for i, n := 0, rapid.IntRange(1, 5).Draw(t, "cmds"); i < n; i++ {
			c.Cmds = append(c.Cmds, genFuzzCmd(t, c.W, 20))
		}
		return c
	}
}

// prepare makes the image and (not in an own run of the command) metadata.
func (c *caseFuzz) prepare(x *Ctx, b *recBox) {
	vs := dedupeMeta(c.damageItems(c.W.versions()), c.Recon)
	if c.Recon {
		im := c.W.image(vs)
		c.damageImage(im)
		im.write(b.img)
	} else {
		buildIndex(b.meta, vs)
		c.W.writeDataImage(b.img)
	}
	// Big enough for most block sizes.
	if st := must1(os.Stat(b.img)); st.Size() < 72<<20 {
		must(os.Truncate(b.img, 72<<20+int64(c.W.Tail)))
	}
	if c.Cut > 0 {
		st := must1(os.Stat(b.img))
		must(os.Truncate(b.img, st.Size()/1000*int64(c.Cut)))
	}
}

// blind plays a client that takes any answer, as a kernel would ask.
type blind struct {
	fs    *fuseFS
	nodes []uint64
	types []uint32
	known map[uint64]int // number of lookups
	names map[uint64][]string
}

func newBlind(fs *fuseFS) *blind {
	return &blind{fs: fs, nodes: []uint64{1}, types: []uint32{ftDir}, known: map[uint64]int{}, names: map[uint64][]string{1: {"rescue", "metadata"}}}
}

func (c *blind) know(id uint64, a fAttr) {
	if id == 0 {
		return
	}
	if c.known[id]++; c.known[id] == 1 {
		c.nodes = append(c.nodes, id)
		c.types = append(c.types, a.Mode>>12&15)
	}
}

func (c *blind) lookup(id uint64, name string) (uint64, error) {
	if name == "" || name == "." || name == ".." || len(name) > 255 || strings.ContainsAny(name, "/\x00") {
		return 0, nil
	}
	r, err := c.fs.call(fLookup, id, cstr(name))
	if err != nil || r.errno != 0 {
		return 0, err
	}
	n, a, ok := decEntry(r.data)
	if !ok {
		return 0, bad("lookup of %q: truncated answer", name)
	}
	c.know(n, a)
	return n, nil
}

func (c *blind) readdir(id uint64, size uint32, plus bool) error {
	op := uint32(fReaddir)
	if plus {
		op = fReaddirplus
	}
	r, err := c.fs.call(fOpendir, id, u32s(0o200000, 0))
	if err != nil || r.errno != 0 || len(r.data) < 16 {
		return err
	}
	fh, off := le.Uint64(r.data), uint64(0)
	var names []string
	for k := 0; k < 300; k++ {
		r, err := c.fs.call(op, id, append(u64s(fh, off), append(u32s(size, 0), append(u64s(0), u32s(0, 0)...)...)...))
		if err != nil {
			return err
		}
		if r.errno != 0 || len(r.data) == 0 {
			break
		}
		l, err := decDirents(r.data, plus)
		if err != nil {
			break // the kernel gives up as well
		}
		for _, e := range l {
			off = e.Off
			names = append(names, e.Name)
			if plus {
				c.know(e.Node, e.Attr)
			}
		}
	}
	sort.Strings(names)
	if len(names) > 0 {
		c.names[id] = names
	}
	_, err = c.fs.call(fReleasedir, id, append(u64s(fh), append(u32s(0, 0), u64s(0)...)...))
	return err
}

func (c *blind) read(id uint64, r *splitmix, count int) error {
	a, err := c.fs.call(fOpen, id, u32s(0o100000, 0))
	if err != nil || a.errno != 0 || len(a.data) < 16 {
		return err
	}
	fh := le.Uint64(a.data)
	for i := 0; i < count; i++ {
		off := uint64(r.intn(40)) * 4096
		switch r.intn(5) {
		case 0:
			off = r.next() % (1 << 62) &^ 4095
		case 1:
			off = 1 << (12 + r.next()%50)
		case 2:
			off = r.next() % 100000
		case 3:
			off = 0
		}
		if _, err := c.fs.call(fRead, id, append(u64s(fh, off), append(u32s(uint32([]int{4096, 131072, 1, 65536}[r.intn(4)]), 0), append(u64s(0), u32s(0o100000, 0)...)...)...)); err != nil {
			return err
		}
	}
	_, err = c.fs.call(fRelease, id, append(u64s(fh), append(u32s(0, 0), u64s(0)...)...))
	return err
}

func (c *blind) do(op rawOp) error {
	n := op.Sel % len(c.nodes)
	id := c.nodes[n]
	r := splitmix(op.A)
	switch op.Op {
	case "lookup":
		names := append([]string{"nosuch", "\xff", strings.Repeat("x", 255)}, c.names[id]...)
		_, err := c.lookup(id, names[r.intn(len(names))])
		return err
	case "readdir", "readdirplus":
		return c.readdir(id, []uint32{4096, 512, 32768}[r.intn(3)], op.Op == "readdirplus")
	case "attr":
		_, err := c.fs.call(fGetattr, id, append(u32s(0, 0), u64s(0)...))
		return err
	case "readlink":
		_, err := c.fs.call(fReadlink, id, nil)
		return err
	case "xattr":
		for _, sz := range []uint32{0, uint32(r.intn(300)), 65536} {
			a, err := c.fs.call(fListxattr, id, u32s(sz, 0))
			if err != nil {
				return err
			}
			for _, s := range append(strings.Split(string(a.data), "\x00"), "user.a") {
				if s == "" || len(s) > 255 {
					continue
				}
				if _, err := c.fs.call(fGetxattr, id, append(u32s(sz, 0), cstr(s)...)); err != nil {
					return err
				}
			}
		}
		return nil
	case "read":
		return c.read(id, &r, 1+r.intn(5))
	case "forget":
		if n == 0 || c.types[n] == ftDirMode {
			return nil
		}
		if err := c.fs.send(fForget, id, u64s(uint64(c.known[id])), nil); err != nil {
			return nil
		}
		delete(c.known, id)
		c.nodes = append(c.nodes[:n], c.nodes[n+1:]...)
		c.types = append(c.types[:n], c.types[n+1:]...)
		return nil
	}
	return infra("unknown request %q", op.Op)
}

const ftDirMode = 4

// walk asks for everything, to a limit.
func (c *blind) walk(limit int) error {
	type dir struct {
		id    uint64
		depth int
	}
	todo := []dir{{1, 0}}
	r := splitmix(limit)
	for n := 0; len(todo) > 0 && n < limit; {
		d := todo[0]
		todo = todo[1:]
		if err := c.readdir(d.id, 4096, d.depth%2 == 1); err != nil {
			return err
		}
		for _, name := range c.names[d.id] {
			if n++; n > limit {
				break
			}
			id, err := c.lookup(d.id, name)
			if err != nil {
				return err
			}
			if id == 0 {
				continue
			}
			for _, op := range []string{"attr", "readlink", "xattr"} {
				for i, k := range c.nodes {
					if k == id {
						if err := c.do(rawOp{Op: op, Sel: i, A: U64(n)}); err != nil {
							return err
						}
						break
					}
				}
			}
			if err := c.read(id, &r, 3); err != nil {
				return err
			}
			if d.depth < 6 {
				todo = append(todo, dir{id, d.depth + 1})
			}
		}
	}
	return nil
}

// fuzzRun does one command; cmdErr tells about crashes.
func (c *caseFuzz) run(x *Ctx, b *recBox, n int, k fuzzCmd) (res *Res, cmdErr error) {
	meta := b.meta
	switch k.Meta {
	case "missing":
		meta = b.box + "/nosuch.db"
	case "image":
		meta = b.img
	case "empty":
		meta = b.box + "/empty.db"
	case "text":
		meta = b.box + "/text.db"
	case "dir":
		meta = b.box
	}
	if k.Cmd == "recon" && k.Meta == "good" && n%2 == 0 {
		meta = b.box + fmt.Sprintf("/out%d.db", n)
	}
	args := append([]string{}, k.Opts...)
	if k.Meta != "none" {
		args = append(args, "--metadata="+meta)
	}
	for _, a := range k.Args {
		switch a {
		case "IMG":
			a = b.img
		case "DEST":
			a = b.mkdir(b.box + fmt.Sprintf("/dest%d", n%2))
		}
		args = append(args, a)
	}
	// No positional argument may pass for an option.
	if k.Cmd == "ls" {
		args = append(append(append([]string{}, args[:len(args)-len(k.Args)]...), "--"), args[len(args)-len(k.Args):]...)
	}
	o := runOpt{uid: nobody, dir: b.box, stuckOK: true, wall: 120 * 1e9}
	if k.Cmd != "mount" {
		return x.btr(o, append([]string{k.Cmd}, args...)...)
	}
	o.wall = 0
	fs, res, err := x.mountFS(x.Bin, o, args...)
	if err != nil || fs == nil {
		return res, err
	}
	defer fs.kill()
	cl := newBlind(fs)
	for _, nm := range []string{"rescue", "metadata"} {
		if _, err := cl.lookup(1, nm); err != nil {
			return nil, err
		}
	}
	for _, op := range k.Ops {
		if err := cl.do(op); err != nil {
			return nil, err
		}
	}
	if err := cl.walk(60); err != nil {
		return nil, err
	}
	x.LabelIf(len(cl.nodes) > 4, "mounted view walked")
	return &Res{}, fs.stop()
}

func newFuzzBox(x *Ctx) *recBox {
	b := newRecBox(x)
	b.img, b.meta = b.box+"/disk.img", b.box+"/meta.db"
	b.file(b.box+"/empty.db", nil, 0o644)
	b.file(b.box+"/text.db", []byte(strings.Repeat("This is not a database.\n", 1000)), 0o644)
	return b
}

func checkC11(x *Ctx, v any) error {
	c := v.(*caseFuzz)
	b := newFuzzBox(x)
	c.prepare(x, b)
	b.own(b.img)
	if c.Recon {
		r, err := x.btr(runOpt{}, "recon", "--block-size", fmt.Sprint(c.W.BS), "--id", fsidText(c.W.fsid()), "--metadata", b.meta, b.img)
		if err != nil {
			return err
		}
		x.LabelIf(r.Code != 0, "image refused")
	}
	if _, err := os.Stat(b.meta); err == nil {
		b.own(b.meta)
	}
	for i, k := range c.Cmds {
		r, err := c.run(x, b, i, k)
		if err != nil {
			return bad2(err, "command %d: %s", i, k.Cmd)
		}
		if r != nil {
			x.LabelIf(r.Code == 0, k.Cmd)
			x.LabelIf(r.Code != 0, k.Cmd+" stopped")
			if r.Code != 0 && r.Err == "" && len(r.Out) == 0 {
				return bad("command %d: %s ends with status %d without a message", i, k.Cmd, r.Code)
			}
		}
	}
	x.LabelIf(c.Recon, "through recon")
	x.LabelIf(len(c.Leaves) > 0, "damaged leaves")
	x.NonTrivialIf(len(c.Items)+len(c.Leaves) > 2)
	return nil
}

// bad2 adds to a violation; harness errors stay what they are.
func bad2(err error, format string, a ...any) error {
	if _, ok := err.(*errInfra); ok || err == nil {
		return err
	}
	return bad("%s: %v", fmt.Sprintf(format, a...), err)
}

func checkC10(x *Ctx, v any) error {
	c := v.(*caseFuzz)
	b := newFuzzBox(x)
	c.prepare(x, b)
	b.own(b.img)
	if c.Recon {
		img := fileSum(b.img)
		r, err := x.btr(runOpt{uid: nobody}, "recon", "--block-size", fmt.Sprint(c.W.BS), "--id", fsidText(c.W.fsid()), "--metadata", b.meta, b.img)
		if _, ok := err.(*errInfra); ok {
			return err
		}
		if fileSum(b.img) != img {
			return bad("recon (status %d) changes the image", r.Code)
		}
	}
	if _, err := os.Stat(b.meta); err == nil {
		b.own(b.meta)
	}
	done := map[string]bool{}
	for i, k := range c.Cmds {
		before := treeSum(b.box)
		r, err := c.run(x, b, i, k)
		if _, ok := err.(*errInfra); ok {
			return err
		}
		if err != nil {
			x.Label("crashed") // not this property's business
		}
		after := treeSum(b.box)
		what := fmt.Sprintf("command %d: %s %q %q", i, k.Cmd, k.Opts, k.Args)
		for _, f := range []string{"/disk.img", "/meta.db"} {
			if f == "/meta.db" && k.Cmd == "recon" && k.Meta == "good" && i%2 != 0 {
				continue
			}
			if before[f] != after[f] {
				return bad("%s changes %s: %q -> %q", what, f, before[f], after[f])
			}
		}
		for f := range after {
			// What recover restores and recon writes is meant to change.
			if strings.HasPrefix(f, "/dest") || k.Cmd == "recon" && f != "/disk.img" {
				continue
			}
			if b, ok := before[f]; ok && b != after[f] {
				return bad("%s changes %s: %q -> %q", what, f, b, after[f])
			} else if !ok && k.Meta == "good" {
				return bad("%s creates %s", what, f)
			}
		}
		if r != nil {
			x.LabelIf(r.Code == 0, k.Cmd)
			x.LabelIf(r.Code != 0, k.Cmd+" failed")
		}
		done[k.Cmd] = true
	}
	x.LabelIf(len(c.Items)+len(c.Leaves) > 0, "damaged")
	x.NonTrivialIf(len(done) > 1)
	return nil
}

func init() {
	register(&Sub{Name: "C10/commands", Quick: 2500, Thorough: 16000, NeedBin: true,
		Rule: "sequences of 1-5 commands with generated options and metadata files on intact and damaged images, run by the owner of all files; checksums of image and metadata (and all other files) before and after every command; non-trivial: at least 2 different commands",
		New:  func() any { return &caseFuzz{} }, Gen: genFuzz(false), Check: checkC10})
	register(&Sub{Name: "C11/commands", Quick: 5000, Thorough: 40000, NeedBin: true,
		Rule: "up to 12 damaged items (fields, lengths, keys, payloads swapped, loops) and 6 damaged leaves, cut images; 1-5 commands with generated option values; no crash, no signal, 20 s of CPU time, 600 MB of memory, no silent failure; the mounted view is asked for everything; non-trivial: at least 3 damages",
		New:  func() any { return &caseFuzz{} }, Gen: genFuzz(true), Check: checkC11})
}
