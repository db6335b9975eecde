package main

// C22/storm: many large reads at once.

import (
	"bytes"
	"fmt"
	"sync"

	"pgregory.net/rapid"
)

type caseStorm struct {
	Sizes   []int // of the files, in blocks
	Cuts    []int // extents of the files, in blocks
	Readers int
	Reads   int
	Size    int // of a read
	Shared  bool
	Seed    U64
	Lay     int
}

func genStorm(t *rapid.T) any {
	c := &caseStorm{Readers: rapid.IntRange(2, 32).Draw(t, "readers"), Reads: rapid.IntRange(5, 60).Draw(t, "reads"),
		Size: pick(t, "size", 131072, 131072, 65536, 4096, 100000), Shared: rapid.Bool().Draw(t, "shared"),
		Seed: U64(rapid.Uint64Range(1, 1<<40).Draw(t, "seed")), Lay: rapid.IntRange(0, 3).Draw(t, "lay")}
	c.Sizes = rapid.SliceOfN(rapid.IntRange(1, 100), 1, 4).Draw(t, "sizes")
	c.Cuts = rapid.SliceOfN(rapid.IntRange(1, 100), 1, 4).Draw(t, "cuts")
	return c
}

func (c *caseStorm) world() *World {
	w := &World{FS: 1, BS: 16384, Lay: c.Seed, Chunks: []WChunk{{1 << 30, 16 << 20, dataStart}}}
	root := WNode{Ino: firstFree, Type: ftDir, Inode: Inode{Nlink: 1, Mode: 0o40755}}
	s := WSub{ID: oFS, In: -1, Nodes: []WNode{root}}
	at := uint64(0)
	for i, blocks := range c.Sizes {
		n := WNode{Ino: U64(300 + i), Type: ftReg, Links: []WLink{{0, Bytes(fmt.Sprintf("f%d", i))}}, Inode: Inode{Nlink: 1, Mode: 0o100644, Size: U64(blocks * sector)}}
		for off, k := 0, 0; off < blocks; k++ {
			l := min(blocks-off, c.Cuts[(i+k)%len(c.Cuts)])
			w.Blobs = append(w.Blobs, Blob{0, U64(at), U64(l * sector), U64(i*1000+k) + 5})
			n.Exts = append(n.Exts, WExt{At: U64(off * sector), Kind: xReg, Len: U64(l * sector), Blob: len(w.Blobs) - 1})
			at += uint64(l * sector)
			off += l
		}
		s.Nodes = append(s.Nodes, n)
	}
	w.Subs = []WSub{s}
	return w
}

func checkStorm(x *Ctx, v any) error {
	c := v.(*caseStorm)
	w := c.world()
	b := newRecBox(x)
	b.img, b.meta = b.box+"/disk.img", b.box+"/meta.db"
	vs := w.versions()
	must(b.prepare(w, vs, false))
	b.own(b.img)
	b.own(b.meta)
	ref := newView(vs, b.img)
	defer ref.close()
	fs, err := b.mount(x.Bin, false)
	if err != nil {
		return err
	}
	defer fs.kill()
	cl := newClient(fs, ref, nil)
	dir, err := cl.lookup(cl.nodes[0], "rescue")
	if err != nil {
		return err
	}
	type file struct {
		n    *mNode
		want []byte
		fh   uint64
	}
	open := func(n *mNode) (uint64, error) {
		r, err := fs.call(fOpen, n.id, u32s(0o100000, 0))
		if err == nil && (r.errno != 0 || len(r.data) < 16) {
			err = bad("opening %q: %v", n.path, errno(r))
		}
		if err != nil {
			return 0, err
		}
		return le.Uint64(r.data), nil
	}
	var files []file
	for i := range c.Sizes {
		n, err := cl.lookup(dir, fmt.Sprintf("f%d", i))
		if err != nil {
			return err
		}
		ct := ref.content(n.owner, n.ino)
		f := file{n: n, want: ct.read(0, ct.Size)}
		if f.fh, err = open(n); err != nil {
			return err
		}
		files = append(files, f)
	}
	errs := make(chan error, c.Readers)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < c.Readers; i++ {
		r := splitmix(uint64(c.Seed) + uint64(i)<<32)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := 0; k < c.Reads; k++ {
				f := files[r.intn(len(files))]
				if !c.Shared && k%8 == 0 {
					fh, err := open(f.n)
					if err != nil {
						errs <- err
						return
					}
					f.fh = fh
				}
				off := r.intn(len(f.want))
				if c.Lay > 0 {
					off -= off % (sector << c.Lay)
				}
				want := f.want[off:min(len(f.want), off+c.Size)]
				a, err := fs.call(fRead, f.n.id, append(u64s(f.fh, uint64(off)), append(u32s(uint32(c.Size), 0), append(u64s(0), u32s(0o100000, 0)...)...)...))
				if err == nil && (a.errno != 0 || !bytes.Equal(a.data, want)) {
					at := 0
					for at < len(want) && at < len(a.data) && want[at] == a.data[at] {
						at++
					}
					err = bad("reading %d bytes at %d of %q while others read: %v, %d bytes, want %d; first difference at %d", c.Size, off, f.n.path, errno(a), len(a.data), len(want), at)
				}
				if err != nil {
					errs <- err
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	select {
	case err := <-errs:
		return err
	default:
	}
	if err := fs.stop(); err != nil {
		return err
	}
	x.LabelIf(c.Readers > 8, "more than 8 readers")
	x.LabelIf(c.Shared, "shared handles")
	x.NonTrivialIf(c.Readers > 1 && c.Reads > 9)
	return nil
}

func init() {
	register(&Sub{Name: "C22/storm", Quick: 1200, Thorough: 12000, NeedBin: true,
		Rule: "2 to 32 readers send reads of up to 128 KiB of files with one or several extents at the same time, through the same or own handles, each comparing every byte; non-trivial: at least 2 readers with 10 reads each",
		New:  func() any { return &caseStorm{} }, Gen: genStorm, Check: checkStorm})
}
