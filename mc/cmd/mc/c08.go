package main

import (
	"bytes"
	"context"
	"fmt"
	"strings"

	"github.com/Breeze0806/gobinlog"
	rep "github.com/Breeze0806/gobinlog/replication"

	"verif/e2e"
	"verif/fm"
	"verif/ref"
	"verif/run"
)

// values lists every byte slice a transaction hands out.
func values(t *gobinlog.Transaction) [][]byte {
	var vs [][]byte
	for _, e := range t.Events {
		for _, rows := range [][]*gobinlog.RowData{e.RowIdentifies, e.RowValues} {
			for _, r := range rows {
				for _, c := range r.Columns {
					if len(c.Data) > 0 {
						vs = append(vs, c.Data)
					}
				}
			}
		}
	}
	return vs
}

// snapshot is a private, complete copy of a transaction's contents.
func snapshot(t *gobinlog.Transaction) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s:%d %s:%d %d", t.NowPosition.Filename, t.NowPosition.Offset, t.NextPosition.Filename, t.NextPosition.Offset, t.Timestamp)
	for _, e := range t.Events {
		fmt.Fprintf(&b, "\n%d %s.%s %q %q %d", int(e.Type), e.Table.DbName, e.Table.TableName, e.Query.Database, e.Query.SQL, e.Timestamp)
		if c := e.Query.Charset; c != nil {
			fmt.Fprintf(&b, " %d/%d/%d", c.Client, c.Conn, c.Server)
		}
		for i, rows := range [][]*gobinlog.RowData{e.RowIdentifies, e.RowValues} {
			for j, r := range rows {
				fmt.Fprintf(&b, "\n %d %d", i, j)
				for _, c := range r.Columns {
					fmt.Fprintf(&b, " %s/%d/%v/", c.Filed, int(c.Type), c.IsEmpty)
					if c.Data == nil {
						b.WriteString("nil")
					} else {
						b.WriteByte('=')
						b.Write(c.Data)
					}
				}
			}
		}
	}
	return b.String()
}

// stable streams the log twice on one streamer. First every transaction is
// copied on delivery and compared with its copy after every later delivery
// and after the end. Then every value is overwritten on delivery with a
// pattern of its own: all of them must keep their pattern, and what comes
// later must be what it should be.
func stable(u *run.U, r *e2e.Rig, l *ref.Log, chunk int) {
	r.Fresh()
	f, o := l.StartPos()
	want := append([]ref.Tran(nil), l.Trans...)
	if len(want) > 0 && want[0].NowFile == f {
		want[0].NowOff = o
	}
	serve := func() {
		r.ServeLog(l, fm.EndEOF)
		d := r.M.Dump
		r.M.Dump = func(a int, q fm.Request) *fm.Script {
			s := d(a, q)
			s.Chunk = chunk
			return s
		}
		r.S.SetBinlogPosition(e2e.Pos(f, o))
	}
	serve()
	var ts []*gobinlog.Transaction
	var snaps []string
	check := func(when string) {
		for i, t := range ts {
			if s := snapshot(t); s != snaps[i] {
				u.Fail("transaction %d changed after its delivery (%s):\nwas %q\nis  %q\nlog: %s", i, when, snaps[i], s, l.Describe())
			}
		}
	}
	a := r.Run(context.Background(), func(n int, t *gobinlog.Transaction) error {
		check(fmt.Sprintf("at delivery %d", n))
		ts = append(ts, t)
		snaps = append(snaps, snapshot(t))
		return nil
	})
	if a.Panic != nil || a.Err != nil || a.ErrErr != nil {
		u.Fail("panic %v, Stream: %v, Error(): %v\nlog: %s", a.Panic, a.Err, a.ErrErr, l.Describe())
	}
	check("after the end")
	if err := e2e.CompareAll(ts, want); err != nil {
		u.Fail("%v\nlog: %s", err, l.Describe())
	}
	// overwriting
	serve()
	var mine [][]byte
	var seeds []uint32
	seed := uint32(1)
	pattern := func(s uint32, i int) byte { return byte((s*2654435761)>>(8*(uint(i)%4))) ^ byte(i*37) }
	verify := func(when string) {
		for k, v := range mine {
			for i := range v {
				if v[i] != pattern(seeds[k], i) {
					u.Fail("overwriting one value changed another (value %d of %d, byte %d; %s)\nlog: %s", k, len(mine), i, when, l.Describe())
				}
			}
		}
	}
	b := r.Run(context.Background(), func(n int, t *gobinlog.Transaction) error {
		if n < len(want) {
			if err := e2e.Compare(t, &want[n]); err != nil {
				u.FailKey("", "transaction %d is wrong after earlier values were overwritten: %v\nlog: %s", n, err, l.Describe())
				return err
			}
		}
		vs := values(t)
		for _, v := range vs {
			for i := range v {
				v[i] = pattern(seed, i)
			}
			mine = append(mine, v)
			seeds = append(seeds, seed)
			seed++
		}
		scribble(t)
		verify(fmt.Sprintf("at delivery %d", n))
		return nil
	})
	if b.Panic != nil || b.Err != nil || b.ErrErr != nil {
		u.Fail("panic %v, Stream: %v, Error(): %v\nlog: %s", b.Panic, b.Err, b.ErrErr, l.Describe())
	}
	verify("after the end")
	check("after another stream whose values were overwritten")
	u.Extra("values overwritten", int64(len(mine)))
}

// scribble overwrites everything of a transaction but the values' bytes.
func scribble(t *gobinlog.Transaction) {
	for i, e := range t.Events {
		for _, rows := range [][]*gobinlog.RowData{e.RowIdentifies, e.RowValues} {
			for j, r := range rows {
				for k, c := range r.Columns {
					*c = gobinlog.ColumnData{Filed: "scribbled", Type: 99, IsEmpty: !c.IsEmpty}
					r.Columns[k] = nil
				}
				r.Columns = nil
				rows[j] = nil
			}
		}
		if c := e.Query.Charset; c != nil {
			c.Client, c.Conn, c.Server = -1, -1, -1
		}
		*e = gobinlog.StreamEvent{Type: 99, Timestamp: -1}
		t.Events[i] = nil
	}
	*t = gobinlog.Transaction{}
}

func c08Units(tier string) []run.Unit {
	th := tier == "thorough"
	var us []run.Unit
	us = append(us, histUnits(tier, "stability", []hop{opBegin, opXID, opRoll, opInsA3, opUpdA, opUpdB, opDelB, opInsZ, opMulti, opCreate, opSet, opRotate, opRestart}, 4, 5, func(u *run.U, r *e2e.Rig, c *hctx, f formatT) {
		stable(u, r, c.l, []int{0, 0, 1448, 100}[int(c.n+len(c.l.Trans))%4])
	})...)
	// every kind of column next to every other
	kinds := ref.Kinds()
	for i := range kinds {
		i := i
		us = append(us, unit("every kind of value: "+kinds[i].Label, func(u *run.U) {
			lockTZ(u, tzMu.TryRLock)
			defer tzMu.RUnlock()
			r := e2e.NewRig(4)
			defer r.Close()
			k := kinds[i]
			var desc string
			u.Cur(func() string { return desc })
			for j, p := range kinds {
				if !th && (i+j)%4 != 0 {
					continue
				}
				f := formats[(i+j)%len(formats)]
				desc = fmt.Sprintf("(%s, %s, %s), %v", k.Label, p.Label, k.Label, f)
				t := named("d", "t", k.Col, p.Col, k.Col)
				r.Mapper.Set(t)
				n := len(k.Cells) + 1
				row := func(i int) ref.Image {
					return ref.Image{k.Cells[i%len(k.Cells)], p.Cells[i%len(p.Cells)], k.Cells[i%len(k.Cells)]}
				}
				same := func(i int) ref.Image { return ref.Image{k.Cells[0], p.Cells[0], k.Cells[0]} }
				l := ref.NewLog(f.opt())
				l.Begin("BEGIN")
				l.TableMap(3, t)
				l.Rows(ref.Write, 3, nil, imgs(n, row), true)
				l.Rows(ref.Update, 3, imgs(n, row), imgs(n, same), true)
				l.XID()
				l.TableMap(3, t)
				l.Rows(ref.Delete, 3, imgs(n, same), nil, true)
				l.TableMap(3, t)
				l.Rows(ref.Write, 3, nil, imgs(n, row), true)
				l.Rows(ref.Write, 3, nil, imgs(n, row), true)
				stable(u, r, l, 0)
				u.Eval(1)
				u.Trace(1)
			}
			u.Sample("%s", desc)
		}))
	}
	// values around the size of the transport's buffer, so that it is
	// refilled, moved and replaced in every way
	var k ref.Kind
	var v ref.Kind
	for _, x := range kinds {
		switch x.Label {
		case "blob4":
			k = x
		case "varchar(300)":
			v = x
		}
	}
	big := named("d", "big", k.Col, v.Col)
	us = append(us, split("transport buffer reuse", 8, func(u *run.U, part, parts int) {
		r := e2e.NewRig(4, big)
		defer r.Close()
		var desc string
		u.Cur(func() string { return desc })
		var sizes []int
		for n := 0; n < 60; n++ {
			sizes = append(sizes, n)
		}
		for n := 4096 - 100; n < 4096+20; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 200, 1000, 2000, 3000, 8192, 16000, 65536, 70000, 1<<20)
		if th {
			for n := 60; n < 3990; n += 13 {
				sizes = append(sizes, n)
			}
		}
		for si, n := range sizes {
			if si%parts != part {
				continue
			}
			for ci, chunk := range []int{0, 1, 3, 64, 1448, 4095, 4096} {
				if n > 5000 && chunk > 0 && chunk < 1000 {
					continue
				}
				f := formats[(si+ci)%len(formats)]
				desc = fmt.Sprintf("values of %d bytes, network chunks of %d, %v", n, chunk, f)
				l := ref.NewLog(f.opt())
				for x := 0; x < 6; x++ {
					l.TableMap(4, big)
					a := ref.Image{ref.Blob(4, ref.Pat(n, byte(x))), ref.Varchar(300, ref.Pat(n%300, byte(x*3)))}
					b := ref.Image{ref.Blob(4, ref.Pat(x, byte(x+9))), ref.Varchar(300, ref.Pat(n%7, byte(x*5)))}
					l.Rows(ref.Update, 4, []ref.Image{a, b}, []ref.Image{b, a}, true)
					if x == 2 {
						l.Statement("create", "d", "CREATE TABLE "+strings.Repeat("t", n%3000)+" (a int)")
					}
				}
				stable(u, r, l, chunk)
				u.Eval(1)
				u.Trace(1)
			}
		}
		u.Sample("%s", desc)
	})...)
	us = append(us, unit("decoded cells are private", func(u *run.U) {
		lockTZ(u, tzMu.TryRLock)
		defer tzMu.RUnlock()
		var desc string
		u.Cur(func() string { return desc })
		for _, k := range kinds {
			for ci, c := range k.Cells {
				desc = fmt.Sprintf("%s %x", k.Label, clip(c.Enc))
				img := append(append([]byte{1, 2, 3}, c.Enc...), c.Enc...)
				keep := append([]byte(nil), img...)
				meta := ref.MetaValue(k.Col.Type, k.Col.Meta)
				a, la, err := rep.CellBytes(img, 3, k.Col.Type, meta, k.Col.Unsigned)
				if err != nil {
					u.Fail("%v", err)
				}
				b, _, err := rep.CellBytes(img, 3+la, k.Col.Type, meta, k.Col.Unsigned)
				if err != nil {
					u.Fail("%v", err)
				}
				bb := append([]byte(nil), b...)
				for i := range a {
					a[i] ^= 0x5a
				}
				if !bytes.Equal(b, bb) {
					u.Fail("overwriting a decoded value changed another")
				}
				cc, _, err := rep.CellBytes(keep, 3, k.Col.Type, meta, k.Col.Unsigned)
				if err != nil || ref.CheckCell(&k.Cells[ci], false, cc) != nil {
					u.Fail("overwriting a decoded value changed a later one: %q (%v)", clip(cc), err)
				}
				u.Eval(1)
			}
		}
		u.Sample("%s", desc)
	}))
	// handing out is private across failed attempts, too
	for ri, rl := range richLogs() {
		rl := rl
		for _, f := range []formatT{formats[ri], formats[5-ri]} {
			f := f
			us = append(us, unit(fmt.Sprintf("values survive failed attempts: %s, %v", rl.name, f), func(u *run.U) {
				r := e2e.NewRig(4, hT.a, hT.b, hT.z)
				defer r.Close()
				l := rl.make(f)
				fs := failures(l, false)
				i := 0
				u.Cur(func() string { return fs[i].name })
				for i = range fs {
					s := newStory(u, r, l)
					var ts []*gobinlog.Transaction
					var snaps []string
					s.keep = func(t *gobinlog.Transaction) {
						ts = append(ts, t)
						snaps = append(snaps, snapshot(t))
					}
					fs[i].run(s)
					fs[(i*7+3)%len(fs)].run(s)
					s.finish()
					for k, t := range ts {
						if sn := snapshot(t); sn != snaps[k] {
							u.Fail("transaction %d changed:\nwas %q\nis  %q", k, snaps[k], sn)
						}
					}
					u.Eval(1)
					u.Trace(1)
				}
				u.Sample("%d failures, each followed by another", len(fs))
			}))
		}
	}
	us = append(us, scaleStable(th)...)
	return us
}
