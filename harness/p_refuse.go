package main

// C18 on the command line: histories of commands and accidents around one
// metadata file.

import (
	"bytes"
	"fmt"
	"os"

	"blichmann.eu/code/btrfscue/pkg/uuid"
	"go.etcd.io/bbolt"
	"pgregory.net/rapid"
)

type caseRefuse struct {
	Seed U64
	Ops  []refuseOp
}

type refuseOp struct {
	Op      string
	BS      int `json:",omitempty"`
	FSID    U64 `json:",omitempty"`
	Version U64 `json:",omitempty"`
	Flag    bool
}

func genRefuse(t *rapid.T) any {
	c := &caseRefuse{Seed: U64(rapid.Uint64Range(0, 1<<20).Draw(t, "seed"))}
	for i := rapid.IntRange(2, 9).Draw(t, "n"); i > 0; i-- {
		op := refuseOp{Op: pick(t, "op", "recon", "recon", "recon", "ls", "dump-index", "recover", "record", "record", "accident"),
			Flag: rapid.Bool().Draw(t, "flag")}
		op.BS = pick(t, "bs", 16384, 16384, 4096, 32768)
		op.FSID = U64(pick(t, "fsid", 0, 0, 0, 1))
		switch op.Op {
		case "record":
			op.Version = U64(pick(t, "ver", uint64(20190809), 20190809, 20161109, 20190808, 20190810, 0, maxU, 20190809+1<<32))
			op.BS = pick(t, "rbs", 16384, 16384, 4096, 8192, 16384+1<<16, 0)
			op.FSID = U64(pick(t, "rfsid", 0, 0, 1, 10, 17, 25, 998, 999))
		case "accident":
			op.Op = pick(t, "accident", "delete", "empty", "garbage", "no index", "no record", "text")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func checkRefuse(x *Ctx, v any) error {
	c := v.(*caseRefuse)
	const cur = 20190809
	meta := x.Path("m.db")
	image := func(bs int, fsid U64) (string, []Ver) {
		p := x.Path(fmt.Sprintf("%d-%d.img", bs, fsid))
		ino := U64(300 + bs/4096*10 + int(fsid))
		name := fmt.Sprintf("f%d", ino)
		vs := []Ver{
			{oFS, Key{256, tInodeItem, 0}, 5, encInode(Inode{Mode: 0o40755, Nlink: 1})},
			{oFS, Key{256, tDirItem, U64(nameHash(name))}, 5, encDirEnts(DirEnt{Loc: Key{ino, tInodeItem, 0}, Type: ftReg, Name: Bytes(name)})},
			{oFS, Key{ino, tInodeItem, 0}, 5, encInode(Inode{Mode: 0o100644, Nlink: 1})},
		}
		if _, err := os.Stat(p); err != nil {
			id := mkFSID(fsid)
			f := must1(os.Create(p))
			must(f.Truncate(int64(minDevSize(uint64(bs)))))
			must1(f.WriteAt(encLeaf(bs, id[:], oFS, 5, 0, vs, 0), dataStart))
			must(f.Close())
		}
		return p, vs
	}
	type rec struct {
		ver  uint64
		bs   uint32
		fsid uuid.UUID
	}
	var have *rec
	items := map[string]Ver{}
	opens := true // whether the file can be opened as a database at all, or is missing
	refused, accepted := 0, 0
	for i, op := range c.Ops {
		when := fmt.Sprintf("step %d %+v of %+v", i, op, c.Ops)
		switch op.Op {
		case "delete", "empty", "garbage", "text", "no index", "no record":
			must(os.RemoveAll(meta))
			have, items, opens = nil, map[string]Ver{}, true
			switch op.Op {
			case "empty":
				must(os.WriteFile(meta, nil, 0o644))
			case "garbage":
				must(os.WriteFile(meta, patternBytes(uint64(c.Seed), 0, 1+uint64(c.Seed)%40000), 0o644))
				opens = false
			case "text":
				must(os.WriteFile(meta, bytes.Repeat([]byte("not metadata\n"), 1+int(c.Seed)%2000), 0o644))
				opens = false
			case "no index", "no record":
				db := must1(bbolt.Open(meta, 0o644, nil))
				must(db.Update(func(tx *bbolt.Tx) error {
					n := "other"
					if op.Op == "no record" {
						n = "index"
					}
					_, err := tx.CreateBucket([]byte(n))
					return err
				}))
				must(db.Close())
			}
			continue
		case "record":
			if have == nil {
				continue
			}
			have = &rec{ver: uint64(op.Version), bs: uint32(op.BS), fsid: mkFSID(op.FSID)}
			db := must1(bbolt.Open(meta, 0o644, nil))
			must(db.Update(func(tx *bbolt.Tx) error {
				return tx.Bucket([]byte("index")).Put(rawMetaKey, metaRecord(have.ver, have.bs, have.fsid, maxU))
			}))
			must(db.Close())
			continue
		}
		raw0, rawErr := os.ReadFile(meta)
		before, _ := rawDump(meta)
		var args []string
		want, ro := opens, op.Op != "recon"
		switch op.Op {
		case "recon":
			img, vs := image(op.BS, op.FSID)
			args = []string{"recon", "--block-size", fmt.Sprint(op.BS), "--id", fsidText(vsID(op.FSID)), "--metadata", meta, img}
			if op.Flag {
				args = append(args, "--append")
			}
			if have != nil {
				want = have.ver == cur && have.bs == uint32(op.BS) && have.fsid == mkFSID(op.FSID)
			}
			if want {
				if have == nil {
					have = &rec{cur, uint32(op.BS), mkFSID(op.FSID)}
				}
				for _, v := range vs {
					items[rawKey(v)] = v
				}
			}
		case "ls":
			args = []string{"ls", "--metadata", meta, "/"}
		case "dump-index":
			args = []string{"dump-index", "--metadata", meta}
		case "recover":
			img, _ := image(op.BS, op.FSID)
			args = []string{"recover", "--metadata", meta, img, x.Path("dest")}
		}
		if ro {
			want = have != nil && have.ver == cur
		}
		r, err := x.btr(runOpt{}, args...)
		if err != nil {
			return bad2(err, "%s", when)
		}
		if want != (r.Code == 0) && !(want && op.Op == "recover") {
			return bad("%s: status %d, want success=%v: %s", when, r.Code, want, head(r.Err))
		}
		if !want {
			x.Label("refused %s", op.Op)
			refused++
			if r.Err == "" {
				return bad("%s: refused without a message", when)
			}
			if op.Op == "recover" {
				if _, err := os.Stat(x.Path("dest")); err == nil {
					return bad("%s: refused, but the destination was made", when)
				}
			}
		} else {
			accepted++
		}
		os.RemoveAll(x.Path("dest"))
		raw1, rawErr1 := os.ReadFile(meta)
		if ro || !opens {
			if (rawErr == nil) != (rawErr1 == nil) || !bytes.Equal(raw0, raw1) {
				return bad("%s: the metadata file changed (%v, %d bytes -> %v, %d bytes)", when, rawErr, len(raw0), rawErr1, len(raw1))
			}
			continue
		}
		after, err := rawDump(meta)
		if err != nil {
			return bad("%s: metadata unreadable: %v", when, err)
		}
		if !want {
			if !sameMap(before, after) {
				return bad("%s: refused, but the contents changed: %s", when, diffTree(before, after))
			}
			continue
		}
		if err := sameMetadata(after, items); err != nil {
			return bad2(err, "%s", when)
		}
		m := []byte(after[string(rawMetaKey)])
		if len(m) < 28 || le.Uint64(m) != cur || le.Uint32(m[8:]) != have.bs || !bytes.Equal(m[12:28], have.fsid[:]) {
			return bad("%s: the metadata record is %x", when, m)
		}
	}
	x.NonTrivialIf(refused > 0 && accepted > 0)
	return nil
}

func vsID(f U64) []byte { id := mkFSID(f); return id[:] }

func init() {
	register(&Sub{Name: "C18/commands", Quick: 2500, Thorough: 20000, NeedBin: true,
		Rule: "histories of recon runs (two filesystem ids, three block sizes, with and without --append), queries, foreign metadata records and accidents to the metadata file; exit status, record and contents compared with a model after every step; non-trivial: a step refused and one accepted",
		New:  func() any { return &caseRefuse{} }, Gen: genRefuse, Check: checkRefuse})
}
