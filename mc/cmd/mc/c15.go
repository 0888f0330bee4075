package main

import (
	"bytes"
	"context"
	"fmt"
	"sort"
	"strings"

	rep "github.com/Breeze0806/gobinlog/replication"

	"github.com/Breeze0806/gobinlog"

	"verif/e2e"
	"verif/fm"
	"verif/ref"
	"verif/run"
)

// mapT decodes table maps with the real parser.
type mapT struct {
	u *run.U
	r *rowsT
}

func (m *mapT) check(f formatT, id uint64, flags uint16, t *ref.Table, opt []byte) {
	u := m.u
	raw := ref.Event(ref.Header{Timestamp: 1, Type: ref.EvTableMap, ServerID: 1, NextPos: 99}, ref.TableMapBody(id, f.four, flags, t, opt), f.crc)
	keep := append([]byte(nil), raw...)
	bf := m.r.format(f)
	ev := rep.NewMysql56BinlogEvent(raw)
	if !ev.IsValid() || !ev.IsTableMap() {
		u.Fail("table map not recognised")
	}
	ev, _, err := ev.StripChecksum(bf)
	if err != nil {
		u.Fail("strip: %v", err)
	}
	if got := ev.TableID(bf); got != id {
		u.Fail("table id %#x, want %#x", got, id)
	}
	tm, err := ev.TableMap(bf)
	if err != nil {
		u.Fail("TableMap: %v", err)
	}
	if tm.Flags != flags {
		u.Fail("flags %#x, want %#x", tm.Flags, flags)
	}
	if tm.Database != t.DB || tm.Name != t.Name {
		u.Fail("table %q.%q, want %q.%q", tm.Database, tm.Name, t.DB, t.Name)
	}
	if len(tm.Types) != len(t.Cols) || len(tm.Metadata) != len(t.Cols) || tm.CanBeNull.Count() != len(t.Cols) {
		u.Fail("%d types, %d metadata, %d nullability bits, want %d columns", len(tm.Types), len(tm.Metadata), tm.CanBeNull.Count(), len(t.Cols))
	}
	for i, c := range t.Cols {
		if tm.Types[i] != c.Type {
			u.Fail("column %d: type %d, want %d", i, tm.Types[i], c.Type)
		}
		if w := ref.MetaValue(c.Type, c.Meta); tm.Metadata[i] != w {
			u.Fail("column %d type %d: metadata %#x, want %#x (bytes %x)", i, c.Type, tm.Metadata[i], w, c.Meta)
		}
		if tm.CanBeNull.Bit(i) == c.NotNull {
			u.Fail("column %d: nullable %v", i, c.NotNull)
		}
	}
	if !bytes.Equal(raw, keep) {
		u.Fail("decoding changed the event's bytes")
	}
	u.Eval(1)
}

func c15Units(tier string) []run.Unit {
	th := tier == "thorough"
	var us []run.Unit
	kinds := ref.Kinds()
	byLabel := map[string]ref.Kind{}
	for _, k := range kinds {
		byLabel[k.Label] = k
	}
	mk := func(name string, parts int, f func(u *run.U, m *mapT, part, parts int, cur *string)) {
		us = append(us, split(name, parts, func(u *run.U, part, parts int) {
			m := &mapT{u, newRowsT(u)}
			var cur string
			u.Cur(func() string { return cur })
			f(u, m, part, parts, &cur)
			u.Sample("%s", cur)
		})...)
	}
	mix := []string{"tiny", "varchar(300)", "decimal(18,9)", "bit33", "blob3", "char(767)", "enum2", "time2(4)", "longlong", "set8", "float", "json", "date"}
	wide := func(n, phase int) []ref.Col {
		var cols []ref.Col
		for i := 0; i < n; i++ {
			c := byLabel[mix[(i+phase+i/13)%len(mix)]].Col
			c.NotNull = (i*i/3+phase)%3 == 1
			cols = append(cols, c)
		}
		return cols
	}
	mk("names of every length", 4, func(u *run.U, m *mapT, part, parts int, cur *string) {
		for a := part; a <= 255; a += parts {
			for b := 0; b <= 255; b++ {
				if !th && a > 70 && b > 70 && a != 255 && b != 255 && (a+b)%5 != 0 {
					continue
				}
				*cur = fmt.Sprintf("names of %d and %d bytes", a, b)
				m.check(formats[(a+b)%len(formats)], 7, 1, &ref.Table{DB: string(ref.Pat(a, 1)), Name: string(ref.Pat(b, 9)), Cols: wide(3, a)}, nil)
			}
		}
		for _, n := range []string{"t`x", "表", "a b", "A.b", "x'y", "\xff\xfe", "ü"} {
			*cur = n
			for _, f := range formats {
				m.check(f, 7, 1, &ref.Table{DB: n, Name: n + n, Cols: wide(3, 0)}, nil)
			}
		}
		for b := part; b < 256; b += parts {
			c := string([]byte{byte(b)})
			for _, n := range []string{c, c + "t", "t" + c, "t" + c + "t", c + c} {
				*cur = fmt.Sprintf("name %q", n)
				for _, f := range formats {
					m.check(f, 7, 1, &ref.Table{DB: n, Name: "t", Cols: wide(3, 0)}, nil)
					m.check(f, 7, 1, &ref.Table{DB: "d", Name: n, Cols: wide(3, 0)}, nil)
				}
			}
		}
	})
	mk("column counts", 8, func(u *run.U, m *mapT, part, parts int, cur *string) {
		counts := []int{1000, 1023, 1024, 1025, 2000, 4095, 4096, 65535, 65536, 70000}
		for i := 1; i <= 800; i++ {
			counts = append(counts, i)
		}
		for i, n := range counts {
			if i%parts != part {
				continue
			}
			*cur = fmt.Sprintf("%d columns", n)
			for fi, f := range formats {
				if n > 5000 && fi > 1 {
					continue
				}
				m.check(f, uint64(n), 1, &ref.Table{DB: "db", Name: "wide", Cols: wide(n, n)}, nil)
				var tiny []ref.Col
				for j := 0; j < n; j++ {
					tiny = append(tiny, ref.Col{Type: ref.TTiny, NotNull: (j+n)%2 == 0})
				}
				m.check(f, uint64(n), 1, &ref.Table{DB: "db", Name: "nometa", Cols: tiny}, nil)
			}
		}
	})
	mk("nullability patterns", 2, func(u *run.U, m *mapT, part, parts int, cur *string) {
		for n := 1 + part; n <= 12; n += parts {
			for p := 0; p < 1<<uint(n); p++ {
				cols := wide(n, 1)
				for i := range cols {
					cols[i].NotNull = p>>uint(i)&1 == 1
				}
				*cur = fmt.Sprintf("%d columns NOT NULL %b", n, p)
				m.check(formats[p%len(formats)], 3, 1, &ref.Table{DB: "d", Name: "t", Cols: cols}, nil)
			}
		}
	})
	mk("every metadata value", 8, func(u *run.U, m *mapT, part, parts int, cur *string) {
		one := func(c ref.Col) {
			*cur = fmt.Sprintf("type %d metadata %x", c.Type, c.Meta)
			m.check(formats[part%2], 1, 1, &ref.Table{DB: "d", Name: "t", Cols: []ref.Col{c, byLabel["varchar(300)"].Col, c}}, nil)
		}
		for max := part; max <= 65535; max += parts {
			one(ref.Col{Type: ref.TVarchar, Meta: ref.VarcharMeta(max)})
			one(ref.Col{Type: ref.TVarString, Meta: ref.VarcharMeta(max)})
		}
		for max := part; max <= 1023; max += parts {
			one(ref.Col{Type: ref.TString, Meta: ref.CharMeta(max)})
		}
		if part != 0 {
			return
		}
		for p := 1; p <= 65; p++ {
			for s := 0; s <= 30 && s <= p; s++ {
				one(ref.Col{Type: ref.TDecimal, Meta: []byte{byte(p), byte(s)}})
			}
		}
		for n := 1; n <= 64; n++ {
			one(ref.Col{Type: ref.TBit, Meta: ref.BitMeta(n)})
		}
		for w := 1; w <= 8; w++ {
			for _, t := range []byte{ref.TEnum, ref.TSet} {
				one(ref.Col{Type: ref.TString, Meta: []byte{t, byte(w)}})
				one(ref.Col{Type: t, Meta: []byte{t, byte(w)}})
			}
		}
		for _, k := range kinds {
			one(k.Col)
		}
		for f := 0; f <= 6; f++ {
			for _, t := range []byte{ref.TTime2, ref.TDateTime2, ref.TTimestamp2} {
				one(ref.Col{Type: t, Meta: []byte{byte(f)}})
			}
		}
		for w := 1; w <= 4; w++ {
			for _, t := range []byte{ref.TBlob, ref.TGeometry, ref.TJSON, ref.TTinyBlob, ref.TMedBlob, ref.TLongBlob} {
				one(ref.Col{Type: t, Meta: []byte{byte(w)}})
			}
		}
	})
	mk("every ordered triple of metadata shapes", 8, func(u *run.U, m *mapT, part, parts int, cur *string) {
		for i, a := range kinds {
			if i%parts != part {
				continue
			}
			for j, b := range kinds {
				for k, c := range kinds {
					if !th && (i+j+k)%5 != 0 {
						continue
					}
					*cur = a.Label + "," + b.Label + "," + c.Label
					x, y, z := a.Col, b.Col, c.Col
					x.NotNull, y.NotNull = k%2 == 0, i%2 == 0
					m.check(formats[(i+j+k)%len(formats)], 1, 1, &ref.Table{DB: "d", Name: "t", Cols: []ref.Col{x, y, z}}, nil)
				}
			}
		}
	})
	mk("optional metadata of every length", 2, func(u *run.U, m *mapT, part, parts int, cur *string) {
		for n := part; n <= 1200; n += parts {
			*cur = fmt.Sprintf("%d bytes of optional metadata", n)
			opt := ref.Pat(n, 7)
			for i := range opt {
				opt[i] ^= byte(i * 29)
			}
			for _, f := range formats {
				m.check(f, 1, 1, &ref.Table{DB: "d", Name: "t", Cols: wide(1+n%11, n)}, opt)
			}
		}
	})
	mk("table ids and flags", 1, func(u *run.U, m *mapT, _, _ int, cur *string) {
		t := &ref.Table{DB: "d", Name: "t", Cols: wide(2, 0)}
		for _, f := range formats {
			bits := 48
			if f.four {
				bits = 32
			}
			ids := []uint64{0, 1<<uint(bits) - 1, 0x010203040506 & (1<<uint(bits) - 1), 0xfffefdfcfbfa & (1<<uint(bits) - 1)}
			for i := 0; i < bits; i++ {
				ids = append(ids, 1<<uint(i), (1<<uint(bits)-1)^1<<uint(i))
			}
			for b := uint64(0); b < 256; b++ {
				for s := 0; s+8 <= bits; s += 8 {
					ids = append(ids, b<<uint(s))
				}
			}
			for _, id := range ids {
				*cur = fmt.Sprintf("id %#x %v", id, f)
				m.check(f, id, uint16(id*31), t, nil)
			}
		}
	})

	// histories of announcements and rows
	type tab struct {
		t    *ref.Table
		rows []ref.Image
	}
	mkTab := func(name string, labels ...string) tab {
		var cols []ref.Col
		for _, l := range labels {
			cols = append(cols, byLabel[l].Col)
		}
		t := named("d", name, cols...)
		var rows []ref.Image
		for i := 0; i < 2; i++ {
			var im ref.Image
			for _, l := range labels {
				cs := byLabel[l].Cells
				im = append(im, cs[(i+1)%len(cs)])
			}
			rows = append(rows, im)
		}
		return tab{t, rows}
	}
	// A2 is A redefined with other types (signedness is the mapper's)
	a := mkTab("a", "tiny unsigned", "varchar(10)")
	a2 := mkTab("a", "short unsigned", "blob2")
	b := mkTab("b", "tiny", "varchar(300)")
	c := mkTab("c", "varchar(10)", "tiny unsigned", "year")
	a2.t.Cols[0].Unsigned = true
	type op struct {
		name string
		id   uint64
		t    *tab // nil: rows
	}
	ops := []op{
		{"map(1,a)", 1, &a}, {"map(1,a')", 1, &a2}, {"map(1,b)", 1, &b}, {"map(1,c)", 1, &c},
		{"map(2,a)", 2, &a}, {"map(2,b)", 2, &b}, {"rows(1)", 1, nil}, {"rows(2)", 2, nil}, {"rotate", 0, nil},
	}
	depth := 6
	if th {
		depth = 7
	}
	for i := range ops {
		for j := range ops {
			i, j := i, j
			us = append(us, unit(fmt.Sprintf("histories of %d starting %s, %s", depth, ops[i].name, ops[j].name), func(u *run.U) {
				r := e2e.NewRig(5, a.t, b.t, c.t)
				defer r.Close()
				seq := make([]int, 0, depth)
				u.Cur(func() string {
					s := ""
					for _, x := range seq {
						s += ops[x].name + " "
					}
					return s
				})
				replay := func() bool {
					n := 0
					for _, x := range seq {
						n = n*len(ops) + x
					}
					f := formats[n%len(formats)]
					l := ref.NewLog(f.opt())
					m := map[uint64]*tab{}
					file := 1
					for k, x := range seq {
						o := ops[x]
						switch {
						case o.id == 0:
							file++
							l.Rotate(fmt.Sprintf("mysql-bin.%06d", file))
						case o.t != nil:
							m[o.id] = o.t
							l.TableMap(o.id, o.t.t)
						case m[o.id] == nil:
							ev := &ref.RowsEvent{TableID: o.id, V2: f.v2, Four: f.four, NCols: 2, After: a.rows[:1]}
							l.Raw(ev.EvType(), 0, ev.Body(), "rows of an unannounced table")
							outcome(u, r, l, l.Trans, true)
							u.State(run.Hash("error", fmt.Sprint(seq[:k+1])))
							seq = seq[:k+1]
							return false
						default:
							t := m[o.id]
							switch k % 3 {
							case 0:
								l.Rows(ref.Write, o.id, nil, t.rows, true)
							case 1:
								l.Rows(ref.Delete, o.id, t.rows, nil, true)
							case 2:
								l.Rows(ref.Update, o.id, t.rows, []ref.Image{t.rows[1], t.rows[0]}, true)
							}
						}
						st := fmt.Sprint(file)
						for id := uint64(1); id <= 2; id++ {
							if m[id] != nil {
								st += fmt.Sprintf(" %d:%s%d", id, m[id].t.Name, m[id].t.Cols[0].Type)
							}
						}
						u.State(run.Hash(st))
						u.Trans(1)
					}
					outcome(u, r, l, l.Trans, false)
					return true
				}
				var rec func()
				rec = func() {
					if len(seq) == depth {
						n := len(seq)
						full := append([]int(nil), seq...)
						r.Fresh()
						replay()
						u.Eval(1)
						u.Trace(1)
						seq = append(seq[:0], full[:n]...)
						return
					}
					// an unannounced table ends the history
					m := map[uint64]bool{}
					for _, x := range seq {
						if ops[x].t != nil {
							m[ops[x].id] = true
						}
						if ops[x].t == nil && ops[x].id != 0 && !m[ops[x].id] {
							full := append([]int(nil), seq...)
							r.Fresh()
							replay()
							u.Eval(1)
							u.Trace(1)
							seq = append(seq[:0], full...)
							return
						}
					}
					for x := range ops {
						seq = append(seq, x)
						rec()
						seq = seq[:len(seq)-1]
					}
				}
				seq = append(seq, i)
				if ops[i].t == nil && ops[i].id != 0 && j > 0 {
					return // the history ends at once; j == 0 runs it
				}
				if !(ops[i].t == nil && ops[i].id != 0) {
					seq = append(seq, j)
				}
				rec()
				u.Sample("format and rows kinds vary with the history")
			}))
		}
	}
	// a table announced again under its id with any other type or metadata
	us = append(us, split("announced again with another type or metadata", 8, func(u *run.U, part, parts int) {
		var desc string
		u.Cur(func() string { return desc })
		all := ref.Kinds()
		r := e2e.NewRig(5)
		defer r.Close()
		for i, x := range all {
			if i%parts != part {
				continue
			}
			for j, y := range all {
				if i == j || x.Col.Unsigned != y.Col.Unsigned {
					continue
				}
				for open := 0; open < 2; open++ {
					f := formats[(i+j*5+open)%len(formats)]
					desc = fmt.Sprintf("%s, then %s, then %s again, one transaction: %v, %v", x.Label, y.Label, x.Label, open == 1, f)
					tx, ty := mkTab("t", x.Label, "tiny"), mkTab("t", y.Label, "tiny")
					r.Mapper.Set(tx.t)
					r.Fresh()
					l := ref.NewLog(f.opt())
					if open == 1 {
						l.Begin("BEGIN")
					}
					for k, t := range []tab{tx, ty, tx} {
						if open == 0 {
							l.Begin("BEGIN")
						}
						l.TableMap(4, t.t)
						l.Rows((k+j)%3, 4, t.rows, t.rows, true)
						if open == 0 {
							l.XID()
						}
					}
					if open == 1 {
						l.XID()
					}
					outcome(u, r, l, l.Trans, false)
					u.State(run.Hash("again", x.Label, y.Label))
					u.Trans(3)
					u.Eval(1)
					u.Trace(1)
				}
			}
		}
		u.Sample("%s", desc)
	})...)
	// two tables whose ids differ in one bit
	us = append(us, split("tables whose ids differ in one bit", 4, func(u *run.U, part, parts int) {
		var desc string
		u.Cur(func() string { return desc })
		r := e2e.NewRig(5, a.t, b.t, c.t)
		defer r.Close()
		// maps and rows of the two, in every order that announces first
		var orders [][]int
		var rec func(o []int, used int)
		rec = func(o []int, used int) {
			if len(o) == 4 {
				orders = append(orders, append([]int(nil), o...))
				return
			}
			for x := 0; x < 4; x++ { // 0,1: map; 2,3: rows
				if used>>uint(x)&1 == 1 || x >= 2 && used>>uint(x-2)&1 == 0 {
					continue
				}
				rec(append(o, x), used|1<<uint(x))
			}
		}
		rec(nil, 0)
		for bit := part; bit < 48; bit += parts {
			for _, base := range []uint64{0, 1, 0x55aa55aa55aa, 1<<48 - 1} {
				for _, f := range formats {
					mask := uint64(1)<<48 - 1
					if f.four {
						mask = 1<<32 - 1
					}
					if 1<<uint(bit)&mask == 0 {
						continue
					}
					ids := [2]uint64{base & mask, (base ^ 1<<uint(bit)) & mask}
					for _, o := range orders {
						desc = fmt.Sprintf("ids %#x and %#x, order %v, %v", ids[0], ids[1], o, f)
						ts := [2]tab{a, b}
						r.Fresh()
						l := ref.NewLog(f.opt())
						l.Begin("BEGIN")
						for k, x := range o {
							if x < 2 {
								l.TableMap(ids[x], ts[x].t)
							} else {
								l.Rows((k+bit)%3, ids[x-2], ts[x-2].rows, ts[x-2].rows, true)
							}
						}
						l.XID()
						outcome(u, r, l, l.Trans, false)
						u.State(run.Hash("ids", fmt.Sprint(ids, o)))
						u.Trans(4)
						u.Eval(1)
						u.Trace(1)
					}
				}
			}
		}
		u.Sample("%s", desc)
	})...)
	// mapper tables whose column count disagrees
	us = append(us, unit("mapper column count against table map column count", func(u *run.U) {
		var desc string
		u.Cur(func() string { return desc })
		lbl := []string{"tiny", "short", "long", "varchar(10)", "year", "longlong", "date", "blob1"}
		mkN := func(name string, n int) tab { return mkTab(name, lbl[:n]...) }
		for n := 1; n <= 8; n++ {
			for k := 0; k <= 8; k++ {
				for where := 0; where < 4; where++ {
					for fi, f := range formats {
						if k == n || !th && (fi+n+k)%3 != 0 {
							continue
						}
						desc = fmt.Sprintf("table map of %d columns, mapper table of %d, case %d, %v", n, k, where, f)
						good, bad := mkN("good", n), mkN("bad", n)
						r := e2e.NewRig(5, good.t)
						r.Mapper.Set(&ref.Table{DB: "d", Name: "bad", Cols: mkN("bad", k).t.Cols})
						l := ref.NewLog(f.opt())
						id := uint64(4)
						switch where {
						case 1: // after a good table
							l.TableMap(3, good.t)
							l.Rows(ref.Write, 3, nil, good.rows, true)
						case 2: // same id as a good table before
							l.TableMap(4, good.t)
							l.Rows(ref.Write, 4, nil, good.rows, true)
						case 3: // inside a transaction
							l.Begin("BEGIN")
							l.TableMap(3, good.t)
							l.Rows(ref.Write, 3, nil, good.rows, true)
						}
						want := append([]ref.Tran(nil), l.Trans...)
						l.TableMap(id, bad.t)
						l.Rows(ref.Write, id, nil, bad.rows, true)
						l.Rows(ref.Delete, id, bad.rows, nil, true)
						if where == 3 {
							l.XID()
						}
						outcome(u, r, l, want, true)
						r.Close()
						u.Eval(1)
						u.Trace(1)
					}
				}
			}
		}
		u.Sample("%s", desc)
	}))
	// the same table re-announced with another column count (redefined on a
	// restarted master): refuse it or decode it right
	us = append(us, unit("redefined table, same name, other column count", func(u *run.U) {
		var desc string
		u.Cur(func() string { return desc })
		lbl := []string{"tiny", "short", "long", "varchar(10)", "year"}
		for n := 1; n <= 5; n++ {
			for k := 1; k <= 5; k++ {
				for dyn := 0; dyn < 2; dyn++ {
					if n == k {
						continue
					}
					f := formats[(n+k)%len(formats)]
					desc = fmt.Sprintf("%d columns redefined with %d, mapper follows: %v, %v", n, k, dyn == 1, f)
					x, y := mkTab("x", lbl[:n]...), mkTab("x", lbl[5-k:]...)
					r := e2e.NewRig(5, x.t)
					l := ref.NewLog(f.opt())
					l.TableMap(4, x.t)
					l.Rows(ref.Write, 4, nil, x.rows, true)
					first := len(l.Trans)
					l.TableMap(4, y.t)
					l.Rows(ref.Write, 4, nil, y.rows, true)
					r.ServeLog(l, fm.EndEOF)
					if dyn == 1 {
						calls := 0
						r.Mapper.Fail = func(int, gobinlog.MysqlTableName) error {
							if calls++; calls == 2 {
								r.Mapper.SetLocked(y.t)
							}
							return nil
						}
					}
					fl, o := l.StartPos()
					r.S.SetBinlogPosition(e2e.Pos(fl, o))
					at := r.Run(context.Background(), nil)
					if at.Panic != nil {
						u.Fail("panic %v\nlog: %s", at.Panic, l.Describe())
					}
					if at.Err == nil {
						if dyn == 0 {
							u.Fail("the mapper's %d columns were accepted for a table map of %d", n, k)
						}
						first = len(l.Trans)
					}
					want := append([]ref.Tran(nil), l.Trans[:first]...)
					want[0].NowOff = o
					if err := e2e.CompareAll(at.Trans, want); err != nil {
						u.Fail("%v (Stream: %v)\nlog: %s", err, at.Err, l.Describe())
					}
					r.Close()
					u.Eval(1)
					u.Trace(1)
				}
			}
		}
		u.Sample("%s", desc)
	}))
	us = append(us, unit("lookups ask for the announced table", func(u *run.U) {
		var desc string
		u.Cur(func() string { return desc })
		for _, f := range formats {
			for _, names := range [][2]string{{"d", "t"}, {"a.b", "c"}, {"A", "a"}, {"ü", "表"}, {"x y", "`q`"}} {
				desc = fmt.Sprintf("%v %v", names, f)
				t := mkTab("z", "tiny unsigned", "varchar(10)", "tiny")
				t.t.DB, t.t.Name = names[0], names[1]
				r := e2e.NewRig(5, t.t)
				l := ref.NewLog(f.opt())
				l.TableMap(4, t.t)
				l.Rows(ref.Update, 4, t.rows, t.rows, true)
				outcome(u, r, l, l.Trans, false)
				if len(r.Mapper.Calls) == 0 {
					u.Fail("the mapper was never asked")
				}
				for _, c := range r.Mapper.Calls {
					if c.DbName != names[0] || c.TableName != names[1] {
						u.Fail("the mapper was asked for %v", c)
					}
				}
				r.Close()
				u.Eval(1)
				u.Trace(1)
			}
		}
		u.Sample("%s", desc)
	}))
	// different tables whose names look alike
	us = append(us, split("tables with similar names", 4, func(u *run.U, part, parts int) {
		var desc string
		u.Cur(func() string { return desc })
		type pair [2][2]string
		var ps []pair
		for _, sep := range []string{".", "", "`.`", "`", "/", "-", "_", ":", " ", "\x00", ",", "\t", "\"", "'", "\\", "#", "$", "@", "\xff", "\u00fc", "%2E", "@002e", "..", "..."} {
			ps = append(ps, pair{{"a" + sep + "b", "c"}, {"a", "b" + sep + "c"}}, pair{{"a" + sep, "b"}, {"a", sep + "b"}}, pair{{"a" + sep, sep + "b"}, {"a", sep + sep + "b"}})
		}
		for _, x := range [][2]string{{"t", "T"}, {"t", "t "}, {"t", " t"}, {"t", "t\x00"}, {"t", "\x00t"}, {"t", "tt"}, {"t1", "t2"}, {"ta", "at"}, {"t", "\u0442"}, {"\u00e9", "e\u0301"}, {"\u00df", "ss"}, {"i", "\u0130"}, {"k", "\u212a"}, {"\xff", "\xfe"}, {"\xff", "\ufffd"},
			{"t", "`t`"}, {"t`", "t``"}, {"t", "t;"}, {"t", "#t"}, {"1", "01"}, {"1", "1.0"}, {"null", "NULL"}, {"#sql-1", "#sql-2"}, {strings.Repeat("n", 63) + "a", strings.Repeat("n", 63) + "b"}, {strings.Repeat("\u8868", 64), strings.Repeat("\u8868", 63)}} {
			ps = append(ps, pair{{"d", x[0]}, {"d", x[1]}}, pair{{x[0], "t"}, {x[1], "t"}}, pair{{x[0], x[1]}, {x[1], x[0]}})
		}
		for i, p := range ps {
			if i%parts != part || p[0] == p[1] {
				continue
			}
			for same := 0; same < 3; same++ { // the columns: equal, of other names, of other names and signs
				mk := func(k int) tab {
					x := mkTab("t", "tiny", "varchar(10)", "long")
					if k == 1 && same > 0 {
						x = mkTab("x", "tiny", "varchar(10)", "long")
					}
					if k == 1 && same == 2 {
						x = mkTab("x", "tiny unsigned", "varchar(10)", "long")
					}
					x.t.DB, x.t.Name = p[k][0], p[k][1]
					return x
				}
				ts := []tab{mk(0), mk(1)}
				r := e2e.NewRig(5, ts[0].t, ts[1].t)
				for ids := 0; ids < 4; ids++ {
					if ids == 3 && same == 2 && i%2 == 0 {
						continue
					}
					f := formats[(i+ids+same)%len(formats)]
					desc = fmt.Sprintf("%q and %q, columns %d, ids %d, %v", p[0], p[1], same, ids, f)
					l := ref.NewLog(f.opt())
					put := func(k int, id uint64, n int) {
						l.TableMap(id, ts[k].t)
						l.Rows(n%3, id, ts[k].rows, ts[k].rows, true)
					}
					switch ids {
					case 0: // both announced, then the rows
						l.Begin("BEGIN")
						l.TableMap(7, ts[0].t)
						l.TableMap(8, ts[1].t)
						l.Rows(i%3, 7, ts[0].rows, ts[0].rows, false)
						l.Rows((i+1)%3, 8, ts[1].rows, ts[1].rows, true)
						l.XID()
					case 1: // in turns, two transactions
						for n := 0; n < 4; n++ {
							l.Begin("BEGIN")
							put(n%2, uint64(7+n%2), n)
							l.XID()
						}
					case 2: // a new id each time
						for n := 0; n < 4; n++ {
							l.Begin("BEGIN")
							put(n%2, uint64(7+n), n)
							put(n/2, uint64(57+n), n+1)
							l.XID()
						}
					case 3: // one id for both, as after a restart of the master
						for n := 0; n < 4; n++ {
							l.Begin("BEGIN")
							put(n%2, 7, n)
							l.XID()
						}
					}
					r.Fresh()
					outcome(u, r, l, l.Trans, false)
					u.State(run.Hash("alike", fmt.Sprint(p, same, ids)))
					u.Trans(4)
					u.Eval(1)
					u.Trace(1)
				}
				r.Close()
			}
		}
		u.Sample("%s", desc)
	})...)
	// a statement over many tables announces them all before its rows; the ids
	// of a long-lived stream never stop growing
	us = append(us, split("many tables at once", 4, func(u *run.U, part, parts int) {
		var desc string
		u.Cur(func() string { return desc })
		const max = 140
		var ts []*ref.Table
		for i := 0; i < max; i++ {
			cs := []ref.Col{{Type: ref.TLong, Unsigned: i%2 == 1}, {Type: []byte{ref.TTiny, ref.TShort, ref.TLongLong, ref.TInt24}[i%4], Unsigned: i%3 == 1}}
			ts = append(ts, named(fmt.Sprintf("d%d", i%3), fmt.Sprintf("t%d", i), cs[:1+(i+i/7)%2]...))
		}
		r := e2e.NewRig(5, ts...)
		defer r.Close()
		img := func(t *ref.Table, v uint64) ref.Image {
			var im ref.Image
			for _, c := range t.Cols {
				im = append(im, ref.Int(c.Type, v, c.Unsigned))
			}
			return im
		}
		for n := 1 + part; n <= max; n += parts {
			for oi, order := range []func(k int) int{
				func(k int) int { return k }, func(k int) int { return n - 1 - k }, func(k int) int { return k * 37 % n }, func(k int) int { return k / 2 }, func(k int) int { return 0 },
			} {
				f := formats[(n+oi)%len(formats)]
				desc = fmt.Sprintf("%d tables announced, then rows in order %d, %v", n, oi, f)
				r.Fresh()
				l := ref.NewLog(f.opt())
				for rep := 0; rep < 2; rep++ {
					id := func(k int) uint64 {
						return uint64(1+rep*1000) + uint64(k)*[]uint64{1, 256, 65536, 3, 1 << 20}[oi]%(1<<32)
					}
					l.Begin("BEGIN")
					for k := 0; k < n; k++ {
						l.TableMap(id(k), ts[(k+rep)%n])
					}
					for k := 0; k < n; k++ {
						x := order(k)
						t := ts[(x+rep)%n]
						v := uint64(0xf0f0f0f0f0f0f0f0) + uint64(k*7+x)
						l.Rows(k%3, id(x), []ref.Image{img(t, v)}, []ref.Image{img(t, v+1)}, k == n-1)
					}
					l.XID()
				}
				outcome(u, r, l, l.Trans, false)
				u.Trans(int64(4 * n))
				u.Eval(1)
				u.Trace(1)
			}
		}
		// ids that grow through a long stream
		for _, step := range []uint64{1, 255, 257, 1 << 16, 1 << 32} {
			f := formats[part]
			if f.four && step >= 1<<16 {
				continue
			}
			desc = fmt.Sprintf("3000 table ids %d apart, %v", step, f)
			r.Fresh()
			l := ref.NewLog(f.opt())
			for k := 0; k < 3000; k++ {
				id := uint64(90) + uint64(k)*step
				t := ts[k*k%max]
				l.Begin("BEGIN")
				l.TableMap(id, t)
				l.Rows(k%3, id, []ref.Image{img(t, uint64(k))}, []ref.Image{img(t, ^uint64(k))}, true)
				l.XID()
			}
			outcome(u, r, l, l.Trans, false)
			u.Trans(12000)
			u.Eval(1)
			u.Trace(1)
		}
		u.Sample("%s", desc)
	})...)
	// which integer columns are unsigned, in tables of many widths: values with
	// every bit set show each column's own setting
	us = append(us, split("unsigned columns of wide tables", 8, func(u *run.U, part, parts int) {
		var desc string
		u.Cur(func() string { return desc })
		r := e2e.NewRig(5)
		defer r.Close()
		ints := []byte{ref.TTiny, ref.TShort, ref.TInt24, ref.TLong, ref.TLongLong}
		max := 300
		if tier == "thorough" {
			max = 1100
		}
		for n := 1 + part; n <= max; n += parts {
			if n > 140 && (n/8)%5 != 0 && tier != "thorough" {
				continue
			}
			pats := map[string]func(i int) bool{
				"none":         func(int) bool { return false },
				"all":          func(int) bool { return true },
				"even":         func(i int) bool { return i%2 == 0 },
				"odd":          func(i int) bool { return i%2 == 1 },
				"last":         func(i int) bool { return i == n-1 },
				"all but last": func(i int) bool { return i != n-1 },
				"first half":   func(i int) bool { return i < n/2 },
				"second half":  func(i int) bool { return i >= n/2 },
				"thirds":       func(i int) bool { return i%3 == 0 },
				"blocks of 8":  func(i int) bool { return i/8%2 == 0 },
				"blocks of 64": func(i int) bool { return i/64%2 == 1 },
			}
			names := make([]string, 0, len(pats))
			for k := range pats {
				names = append(names, k)
			}
			sort.Strings(names)
			for pi, name := range names {
				f := formats[(n+pi)%len(formats)]
				desc = fmt.Sprintf("%d columns, unsigned: %s, %v", n, name, f)
				var cols []ref.Col
				for i := 0; i < n; i++ {
					cols = append(cols, ref.Col{Type: ints[(i+n)%len(ints)], Unsigned: pats[name](i)})
				}
				t := named("d", fmt.Sprintf("u%d_%d", n, pi), cols...)
				r.Fresh()
				r.Mapper.Set(t)
				img := func(v uint64) ref.Image {
					var im ref.Image
					for _, c := range cols {
						im = append(im, ref.Int(c.Type, v, c.Unsigned))
					}
					return im
				}
				full, high := img(1<<64-1), img(0xfedcba9876543210|0x8080808080808080)
				l := ref.NewLog(f.opt())
				l.Begin("BEGIN")
				l.TableMap(uint64(3+n), t)
				l.Rows(ref.Write, uint64(3+n), nil, []ref.Image{full, high}, true)
				l.Rows(ref.Update, uint64(3+n), []ref.Image{high}, []ref.Image{full}, true)
				l.XID()
				outcome(u, r, l, l.Trans, false)
				u.Trans(4)
				u.Eval(1)
				u.Trace(1)
			}
		}
		u.Sample("%s", desc)
	})...)
	// a table altered while it is replicated: the mapper knows the new columns
	// once the ALTER is delivered, and the table's next id carries them
	us = append(us, split("altered tables", 8, func(u *run.U, part, parts int) {
		var desc string
		u.Cur(func() string { return desc })
		r := e2e.NewRig(5)
		defer r.Close()
		version := func(rename string, flip bool, labels ...string) *ref.Table {
			t := &ref.Table{DB: "d", Name: "t"}
			for i, lb := range labels {
				c := byLabel[lb].Col
				c.Name = fmt.Sprintf("%s%d", rename, i)
				switch c.Type {
				case ref.TTiny, ref.TShort, ref.TInt24, ref.TLong, ref.TLongLong:
					c.Unsigned = c.Unsigned != flip
				}
				t.Cols = append(t.Cols, c)
			}
			return t
		}
		vs := []*ref.Table{
			version("c", false, "tiny", "varchar(10)", "long"),
			version("d", false, "tiny", "varchar(10)", "long"),
			version("c", true, "tiny", "varchar(10)", "long"),
			version("c", false, "short", "blob2", "longlong"),
			version("c", true, "long", "varchar(10)", "tiny"),
			version("c", false, "tiny", "varchar(10)"),
			version("c", false, "tiny", "varchar(10)", "long", "tiny"),
			version("e", true, "longlong", "varchar(300)", "longlong"),
		}
		other := named("d", "o", byLabel["tiny"].Col)
		kinds := ref.Kinds()
		img := func(t *ref.Table, v uint64) ref.Image {
			var im ref.Image
			for i, c := range t.Cols {
				switch c.Type {
				case ref.TTiny, ref.TShort, ref.TInt24, ref.TLong, ref.TLongLong:
					im = append(im, ref.Int(c.Type, v-uint64(i), c.Unsigned))
				default:
					for _, k := range kinds {
						if k.Col.Type == c.Type && string(k.Col.Meta) == string(c.Meta) {
							im = append(im, k.Cells[int(v)%len(k.Cells)])
							break
						}
					}
				}
			}
			return im
		}
		n := 0
		for a := range vs {
			for b := range vs {
				for c := range vs {
					for _, how := range []string{"alter", "rotate", "others in between", "rename"} {
						n++
						if n%parts != part {
							continue
						}
						f := formats[n/parts%len(formats)]
						desc = fmt.Sprintf("versions %d, %d, %d of a table, %s, %v", a, b, c, how, f)
						chain := []*ref.Table{vs[a], vs[b], vs[c]}
						l := ref.NewLog(f.opt())
						for i, t := range chain {
							if i > 0 {
								if how == "rename" {
									l.Statement("rename", "d", "RENAME TABLE t TO t_old, t_new TO t")
								} else {
									l.Statement("alter", "d", "ALTER TABLE t ADD COLUMN x INT")
								}
							}
							id := uint64(100 + i)
							l.Begin("BEGIN")
							if how == "others in between" {
								l.TableMap(50, other)
							}
							l.TableMap(id, t)
							l.Rows(ref.Write, id, nil, []ref.Image{img(t, 0), img(t, 200)}, false)
							if how == "others in between" {
								l.Rows(ref.Write, 50, nil, []ref.Image{img(other, 129)}, false)
							}
							l.Rows(ref.Update, id, []ref.Image{img(t, 255)}, []ref.Image{img(t, 1<<40)}, false)
							l.Rows(ref.Delete, id, []ref.Image{img(t, 3)}, nil, true)
							l.XID()
							if how == "rotate" {
								l.Rotate(ref.FileName(0, i+2))
							}
						}
						r.Fresh()
						r.Mapper.Set(other)
						r.Mapper.Set(vs[a])
						r.ServeLog(l, fm.EndEOF)
						r.S.SetBinlogPosition(e2e.Pos(l.StartPos()))
						at := r.Run(context.Background(), func(k int, _ *gobinlog.Transaction) error {
							if k%2 == 1 { // an ALTER
								r.Mapper.Set(chain[(k+1)/2])
							}
							return nil
						})
						if at.Panic != nil || at.Err != nil || at.ErrErr != nil {
							u.Fail("panic %v, Stream: %v, Error(): %v\nlog: %s", at.Panic, at.Err, at.ErrErr, l.Describe())
						}
						want := append([]ref.Tran(nil), l.Trans...)
						_, o := l.StartPos()
						want[0].NowOff = o
						if err := e2e.CompareAll(at.Trans, want); err != nil {
							u.Fail("%v\nlog: %s", err, l.Describe())
						}
						u.Trans(int64(len(l.Trans)))
						u.Eval(1)
						u.Trace(1)
					}
				}
			}
		}
		u.Sample("%s", desc)
	})...)
	// wide tables, end to end
	for _, n := range []int{1, 8, 9, 250, 251, 252, 256, 257, 600} {
		n := n
		us = append(us, unit(fmt.Sprintf("end to end, %d columns", n), func(u *run.U) {
			u.Cur(func() string { return "" })
			cols := wide(n, 2)
			ks := make([]ref.Kind, n)
			for i := range ks {
				ks[i] = byLabel[mix[(i+2+i/13)%len(mix)]]
				cols[i].Unsigned = ks[i].Col.Unsigned
			}
			t := named("d", "w", cols...)
			r := e2e.NewRig(5, t)
			defer r.Close()
			for _, f := range formats {
				r.Fresh()
				l := ref.NewLog(f.opt())
				im := imgs(4, func(i int) ref.Image {
					var x ref.Image
					for c := range ks {
						cell := ks[c].Cells[(i+c)%len(ks[c].Cells)]
						if !cols[c].NotNull && (i+c)%4 == 3 {
							cell = ref.Cell{Null: true}
						}
						x = append(x, cell)
					}
					return x
				})
				l.TableMap(4, t)
				l.Rows(ref.Write, 4, nil, im, true)
				l.TableMap(4, t)
				l.Rows(ref.Update, 4, im[:2], im[2:], true)
				outcome(u, r, l, l.Trans, false)
				u.Eval(1)
				u.Trace(1)
			}
			u.Sample("%d columns", n)
		}))
	}
	us = append(us, scaleUnits(th, 1<<20, []string{"tables in one transaction", "maps of one table", "rows in one event", "transactions"}, func(u *run.U, r *e2e.Rig, l *ref.Log, n int, desc string) {
		streamAll(u, r, l, desc)
	})...)
	us = append(us, partialUnits(tier)...)
	us = append(us, headUnits(tier == "thorough")...)
	return us
}
