package main

import (
	"context"
	"fmt"
	"hash/maphash"
	"slices"
	"sort"

	"github.com/Breeze0806/gobinlog"

	"verif/e2e"
	"verif/fm"
	"verif/ref"
	"verif/run"
)

// scaleKind is something a log can have many of.
type scaleKind struct {
	name  string
	max   int // in the quick tier
	write func(l *ref.Log, n int)
	tabs  func(n int) []*ref.Table
}

// scales lists how many of a thing there are: around the numbers at which a
// counter of one or two bytes wraps, a slice made for ten grows, and a batch
// would be cut.
func scales(th bool, max int) []int {
	ns := []int{0, 1, 2, 3, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 4999, 5000, 5001,
		8191, 8192, 8193, 9999, 10000, 10001, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 100001, 1<<18 + 1}
	if th {
		ns = append(ns, 20001, 50001, 99999, 100000, 131071, 131072, 131073, 200000, 1<<18-1, 1<<18, 500001, 1000001)
	}
	var out []int
	for _, n := range ns {
		if n <= max || th && n <= 4*max {
			out = append(out, n)
		}
	}
	sort.Ints(out)
	return out
}

var scaleTable, scaleImage = func() (*ref.Table, func(i int) ref.Image) {
	ks := map[string]ref.Kind{}
	for _, k := range ref.Kinds() {
		ks[k.Label] = k
	}
	// the value says which row it is
	return named("v", "rows", ks["long unsigned"].Col, ks["varchar(10)"].Col), func(i int) ref.Image {
		return ref.Image{ref.Int(3, uint64(i), true), ref.Varchar(10, []byte(fmt.Sprint(i%1000000)))}
	}
}()

// manyTables have one or two columns of many types, so that no table will do
// for another.
func manyTables(n int) []*ref.Table {
	var ts []*ref.Table
	for i := 0; i < n; i++ {
		cs := []ref.Col{{Type: ref.TLong, Unsigned: i%2 == 1}, {Type: []byte{ref.TTiny, ref.TShort, ref.TLongLong, ref.TInt24}[i%4], Unsigned: i%3 == 1}}
		ts = append(ts, named(fmt.Sprintf("d%d", i%3), fmt.Sprintf("t%d", i), cs[:1+(i+i/7)%2]...))
	}
	return ts
}

func scaleKinds() []scaleKind {
	t, img := scaleTable, scaleImage
	tables := manyTables(1 << 16)
	return []scaleKind{
		{"rows events in one transaction", 1<<18 + 1, func(l *ref.Log, n int) {
			l.Begin("BEGIN")
			l.TableMap(9, t)
			for i := 0; i < n; i++ {
				switch i % 3 {
				case 0:
					l.Rows(ref.Write, 9, nil, []ref.Image{img(i)}, i == n-1)
				case 1:
					l.Rows(ref.Update, 9, []ref.Image{img(i)}, []ref.Image{img(i + 1)}, i == n-1)
				default:
					l.Rows(ref.Delete, 9, []ref.Image{img(i)}, nil, i == n-1)
				}
			}
			l.XID()
		}, nil},
		{"statements in one transaction", 65537, func(l *ref.Log, n int) {
			l.Begin("BEGIN")
			for i := 0; i < n; i++ {
				l.Statement("insert", "v", fmt.Sprintf("INSERT INTO t VALUES (%d)", i))
			}
			l.Commit("COMMIT")
		}, nil},
		{"rows events of one kind in one transaction", 65537, func(l *ref.Log, n int) {
			l.Begin("BEGIN")
			l.TableMap(9, t)
			for i := 0; i < n; i++ {
				switch n % 3 {
				case 0:
					l.Rows(ref.Write, 9, nil, []ref.Image{img(i)}, i == n-1)
				case 1:
					l.Rows(ref.Update, 9, []ref.Image{img(i)}, []ref.Image{img(i + 1)}, i == n-1)
				default:
					l.Rows(ref.Delete, 9, []ref.Image{img(i)}, nil, i == n-1)
				}
			}
			l.XID()
		}, nil},
		{"rows in one event", 1<<18 + 1, func(l *ref.Log, n int) {
			if n == 0 {
				return
			}
			l.TableMap(9, t)
			l.Rows(ref.Write, 9, nil, imgs(n, img), true)
			l.TableMap(9, t)
			l.Rows(ref.Delete, 9, imgs(n, img), nil, true)
			l.TableMap(9, t)
			l.Rows(ref.Update, 9, imgs(n, img), imgs(n, func(i int) ref.Image { return img(i + n) }), true)
		}, nil},
		{"transactions", 1<<18 + 1, func(l *ref.Log, n int) {
			for i := 0; i < n; i++ {
				switch i % 4 {
				case 0:
					l.Statement("create", "v", fmt.Sprintf("CREATE TABLE t%d (a int)", i))
				case 1:
					l.TableMap(9, t)
					l.Rows(ref.Write, 9, nil, []ref.Image{img(i)}, true)
				case 2:
					l.Begin("BEGIN")
					l.TableMap(9, t)
					l.Rows(ref.Delete, 9, []ref.Image{img(i)}, nil, true)
					l.XID()
				default:
					l.Begin("BEGIN")
					l.TableMap(9, t)
					l.Rows(ref.Write, 9, nil, []ref.Image{img(i)}, true)
					l.Rollback("ROLLBACK")
				}
			}
		}, nil},
		{"transactions of two changes", 65537, func(l *ref.Log, n int) {
			for i := 0; i < n; i++ {
				l.Begin("BEGIN")
				l.TableMap(9, t)
				l.Rows(ref.Write, 9, nil, []ref.Image{img(i)}, true)
				l.Rows(ref.Delete, 9, []ref.Image{img(i + 1)}, nil, true)
				l.XID()
			}
		}, nil},
		{"rotations", 4097, func(l *ref.Log, n int) {
			for i := 0; i < n; i++ {
				if i%3 == 1 {
					l.TableMap(9, t)
					l.Rows(ref.Write, 9, nil, []ref.Image{img(i)}, true)
				}
				l.Rotate(ref.FileName(l.Opt.Names, i+2))
			}
			l.Statement("drop", "v", "DROP TABLE t")
		}, nil},
		{"ignorable events", 1<<18 + 1, func(l *ref.Log, n int) {
			l.Begin("BEGIN")
			for i := 0; i < n; i++ {
				if i%2 == 0 {
					l.Heartbeat()
				} else {
					l.Query("v", "SAVEPOINT `s`")
				}
			}
			l.TableMap(9, t)
			l.Rows(ref.Write, 9, nil, []ref.Image{img(n)}, true)
			l.XID()
		}, nil},
		{"tables in one transaction", 65536, func(l *ref.Log, n int) {
			l.Begin("BEGIN")
			for i := 0; i < n; i++ {
				l.TableMap(uint64(20+i), tables[i])
			}
			for i := 0; i < n; i++ {
				k := n - 1 - i
				if n%2 == 0 {
					k = i
				}
				var a, b ref.Image
				for _, c := range tables[k].Cols {
					a = append(a, ref.Int(c.Type, uint64(0xf0f0f0f0f0f0f0f0)+uint64(k), c.Unsigned))
					b = append(b, ref.Int(c.Type, uint64(k), c.Unsigned))
				}
				l.Rows(i%3, uint64(20+k), []ref.Image{a}, []ref.Image{b}, i == n-1)
			}
			l.XID()
		}, func(n int) []*ref.Table { return tables[:n] }},
		{"maps of one table", 1<<18 + 1, func(l *ref.Log, n int) {
			l.Begin("BEGIN")
			for i := 0; i < n; i++ {
				l.TableMap(uint64(20+i), t)
			}
			l.Rows(ref.Write, 20, nil, []ref.Image{img(n)}, false)
			l.Rows(ref.Write, uint64(20+n-1), nil, []ref.Image{img(n)}, false)
			l.Rows(ref.Write, uint64(20+n/2), nil, []ref.Image{img(n)}, true)
			l.XID()
		}, nil},
	}
}

// scaleUnits makes each thing that can be counted numerous, and judges what
// comes of it.
func scaleUnits(th bool, limit int, only []string, judge func(u *run.U, r *e2e.Rig, l *ref.Log, n int, desc string)) []run.Unit {
	var us []run.Unit
	for _, k := range scaleKinds() {
		k := k
		if only != nil && !slices.Contains(only, k.name) {
			continue
		}
		us = append(us, split("how many: "+k.name, 4, func(u *run.U, part, parts int) {
			r := e2e.NewRig(4, scaleTable)
			defer r.Close()
			var desc string
			u.Cur(func() string { return desc })
			i, known := 0, 0
			for ni, n := range scales(th, min(k.max, limit)) {
				if n == 0 && k.name == "maps of one table" || n > 1<<16 && k.tabs != nil {
					continue
				}
				for fi, f := range formats {
					i++
					if i%parts != part && n <= 600 || n > 600 && (fi != n%len(formats) || ni%parts != part) {
						continue
					}
					desc = fmt.Sprintf("%d %s, %v", n, k.name, f)
					o := f.opt()
					o.Names = i % 3
					l := ref.NewLog(o)
					if k.tabs != nil && n > known {
						for _, t := range k.tabs(n)[known:] {
							r.Mapper.Set(t)
						}
						known = n
					}
					k.write(l, n)
					judge(u, r, l, n, desc)
					u.Eval(1)
					u.Trace(1)
					u.Trans(int64(n))
					u.State(run.Hash(desc))
				}
			}
			u.Sample("%s", desc)
		})...)
	}
	return us
}

// volumeUnits compares everything that was delivered.
func volumeUnits(th bool) []run.Unit {
	return scaleUnits(th, 1<<20, nil, func(u *run.U, r *e2e.Rig, l *ref.Log, n int, desc string) { streamAll(u, r, l, desc) })
}

// few picks some of n: all, or those at the ends and in the middle.
func few(n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		if n <= 6 || i < 2 || i >= n-2 || i == n/2 || i == n/3 {
			out = append(out, i)
		}
	}
	return out
}

// scaleResume resumes at some of the labels of a large log.
func scaleResume(th bool) []run.Unit {
	return scaleUnits(th, 1<<20, nil, func(u *run.U, r *e2e.Rig, l *ref.Log, n int, desc string) {
		streamAll(u, r, l, desc)
		for _, k := range few(len(l.Trans)) {
			s := storyFrom(u, r, l, l.Trans[k].NextFile, l.Trans[k].NextOff)
			s.finish()
			u.Trace(1)
		}
	})
}

// scaleFailures fails at some of the transactions of a large log, in one
// attempt after the other.
func scaleFailures(th bool) []run.Unit {
	return scaleUnits(th, 1<<20, nil, func(u *run.U, r *e2e.Rig, l *ref.Log, n int, desc string) {
		s := newStory(u, r, l)
		for i, k := range few(len(l.Trans)) {
			here := k - s.accepted
			var a *e2e.Attempt
			if i%2 == 0 {
				a = s.attempt(fmt.Sprintf("transaction %d refused", k), context.Background(), func(ps []ref.Packet) *fm.Script { return e2e.ScriptOf(ps, fm.EndEOF) },
					func(n int, _ *gobinlog.Transaction) error {
						if n == here {
							return e2e.ErrHandler
						}
						return nil
					})
			} else {
				a = s.attempt(fmt.Sprintf("connection lost in transaction %d", k), context.Background(), func(ps []ref.Packet) *fm.Script {
					cut := len(ps)
					for cut > 0 && ps[cut-1].Done > k {
						cut--
					}
					return e2e.ScriptOf(ps[:cut], fm.EndReset)
				}, nil)
			}
			if a.Err == nil && a.ErrErr == nil {
				s.fail("the failure is not reported")
			}
			if s.accepted != k {
				s.fail("%d transactions accepted, want %d", s.accepted, k)
			}
			u.Trace(1)
		}
		s.finish()
	})
}

// scaleStable snapshots everything delivered and looks again when all is over.
func scaleStable(th bool) []run.Unit {
	return scaleUnits(th, 1<<20, nil, func(u *run.U, r *e2e.Rig, l *ref.Log, n int, desc string) {
		r.Fresh()
		r.ServeLog(l, fm.EndEOF)
		r.S.SetBinlogPosition(e2e.Pos(l.StartPos()))
		snaps := maphash.MakeSeed()
		var sums []uint64
		a := r.Run(context.Background(), func(_ int, t *gobinlog.Transaction) error {
			u.Beat()
			sums = append(sums, maphash.String(snaps, snapshot(t)))
			return nil
		})
		if a.Panic != nil || a.Err != nil || a.ErrErr != nil || len(a.Trans) != len(l.Trans) {
			u.Fail("%s: panic %v, Stream: %v, Error(): %v, %d transactions", desc, a.Panic, a.Err, a.ErrErr, len(a.Trans))
		}
		for again := 0; again < 2; again++ {
			for i, t := range a.Trans {
				if maphash.String(snaps, snapshot(t)) != sums[i] {
					u.Fail("%s: transaction %d of %d changed after its delivery; it is now %.500q", desc, i, len(a.Trans), snapshot(t))
				}
			}
			if again == 0 {
				// the same streamer goes on with the same log
				r.S.SetBinlogPosition(e2e.Pos(l.StartPos()))
				b := r.Run(context.Background(), nil)
				if b.Err != nil || b.ErrErr != nil {
					u.Fail("%s: again: Stream: %v, Error(): %v", desc, b.Err, b.ErrErr)
				}
				want := l.Trans
				if f, o := l.StartPos(); len(want) > 0 && want[0].NowFile == f {
					want = append([]ref.Tran(nil), want...)
					want[0].NowOff = o
				}
				if err := e2e.CompareAll(b.Trans, want); err != nil {
					u.Fail("%s: again: %v", desc, err)
				}
			}
		}
	})
}

// attemptUnits makes so many attempts on one streamer that any counter of
// them comes round: each fails in one of the ways, and only now and then one
// accepts a transaction.
func attemptUnits(th bool) []run.Unit {
	total, every := 8200, 61
	if th {
		total = 140000
	}
	return split("many attempts on one streamer", 8, func(u *run.U, part, parts int) {
		r := e2e.NewRig(11, scaleTable)
		defer r.Close()
		f := formats[part%len(formats)]
		o := f.opt()
		o.Names = part % 3
		l := ref.NewLog(o)
		for i := 0; i < total/every+2; i++ {
			switch i % 3 {
			case 0:
				l.Statement("create", "v", fmt.Sprintf("CREATE TABLE t%d (a int)", i))
			case 1:
				l.TableMap(9, scaleTable)
				l.Rows(ref.Write, 9, nil, []ref.Image{scaleImage(i)}, true)
			default:
				l.Begin("BEGIN")
				l.TableMap(9, scaleTable)
				l.Rows(ref.Delete, 9, []ref.Image{scaleImage(i)}, nil, true)
				l.XID()
			}
			if i%40 == 39 {
				l.Rotate(ref.FileName(o.Names, 2+i/40))
			}
		}
		s := newStory(u, r, l)
		n := 0
		u.Cur(func() string { return fmt.Sprintf("attempt %d on the streamer, %v", n, f) })
		ends := []fm.End{fm.EndERR, fm.EndClose, fm.EndReset, fm.EndTrunc, fm.EndSeq, fm.EndEmpty, fm.EndHeader, fm.EndSeqBack, fm.EndEOF}
		for ; n < total; n++ {
			s.notes = nil
			take := 0
			if n%every == every-1 {
				take = 1
			}
			var a *e2e.Attempt
			from, before := s.positions(s.accepted), len(r.M.Conns())
			way := (n/every + n + part) % (len(ends) + 3)
			if way < len(ends) {
				a = s.attempt(fmt.Sprint("end ", ends[way]), context.Background(), func(ps []ref.Packet) *fm.Script {
					cut := 0
					for cut < len(ps) && ps[cut].Done < s.accepted+take {
						cut++
					}
					if take > 0 {
						cut++
					}
					return e2e.ScriptOf(ps[:min(cut+n%3*(1-take), len(ps))], ends[way])
				}, func(n int, _ *gobinlog.Transaction) error {
					if n >= take {
						return e2e.ErrHandler
					}
					return nil
				})
				if ends[way] != fm.EndEOF {
					s.lost(a, ends[way] == fm.EndERR && a.Err == nil, errMasterText)
				}
			} else {
				ctx, cancel := context.WithCancel(context.Background())
				a = s.attempt("stop", ctx, func(ps []ref.Packet) *fm.Script {
					return e2e.ScriptOf(ps[:min(len(ps), 40)], fm.EndEOF)
				}, func(n int, _ *gobinlog.Transaction) error {
					if n >= take {
						if way == len(ends) {
							cancel()
						}
						return e2e.ErrHandler
					}
					return nil
				})
				cancel()
				if a.Err == nil {
					s.fail("the handler's failure is not reported")
				}
			}
			if len(a.Trans) != take {
				s.fail("%d transactions accepted, want %d", len(a.Trans), take)
			}
			handshake(u, r, a, r.M.Conns()[before:], r.ServerID, from, true)
			if n%64 == 63 {
				r.M.Reset()
			}
			u.Eval(1)
			u.Trace(1)
			u.Trans(1)
			u.State(run.Hash("attempt", fmt.Sprint(part, n)))
		}
		s.finish()
		u.Sample("%d attempts, %d transactions, %v", n, s.accepted, f)
	})
}

// streamAll streams a log too long to describe, and compares everything.
func streamAll(u *run.U, r *e2e.Rig, l *ref.Log, desc string) {
	r.Fresh()
	r.ServeLog(l, fm.EndEOF)
	f, o := l.StartPos()
	r.S.SetBinlogPosition(e2e.Pos(f, o))
	a := r.Run(context.Background(), func(int, *gobinlog.Transaction) error { u.Beat(); return nil })
	if a.Panic != nil || a.Err != nil || a.ErrErr != nil {
		u.Fail("%s: panic %v, Stream: %v, Error(): %v", desc, a.Panic, a.Err, a.ErrErr)
	}
	want := append([]ref.Tran(nil), l.Trans...)
	if len(want) > 0 && want[0].NowFile == f {
		want[0].NowOff = o
	}
	if err := e2e.CompareAll(a.Trans, want); err != nil {
		u.Fail("%s: %v", desc, err)
	}
}

// shape is a table and its rows.
type shape struct {
	t *ref.Table
	f func(i int) ref.Image
}

// twinShapes are pairs of two tables each, which logs use under the same ids.
func twinShapes() [][2][2]shape {
	ks := map[string]ref.Kind{}
	for _, k := range ref.Kinds() {
		ks[k.Label] = k
	}
	tab := func(db, name string, labels ...string) (*ref.Table, func(i int) ref.Image) {
		var cols []ref.Col
		for _, l := range labels {
			cols = append(cols, ks[l].Col)
		}
		return named(db, name, cols...), func(i int) ref.Image {
			var im ref.Image
			for c, l := range labels {
				im = append(im, ks[l].Cells[(i+c)%len(ks[l].Cells)])
			}
			return im
		}
	}
	sh := func(db, name string, labels ...string) shape {
		t, f := tab(db, name, labels...)
		return shape{t, f}
	}
	// renamed gives the columns other names
	renamed := func(s shape) shape {
		t := *s.t
		t.Cols = append([]ref.Col(nil), t.Cols...)
		for i := range t.Cols {
			t.Cols[i].Name = fmt.Sprintf("new name %d", i)
		}
		return shape{&t, s.f}
	}
	return [][2][2]shape{
		// the same tables, altered
		{{sh("d", "a", "long", "varchar(10)", "decimal(4,2)"), sh("d", "b", "tiny unsigned", "blob2")},
			{renamed(sh("d", "a", "long", "varchar(10)", "decimal(4,2)")), renamed(sh("d", "b", "tiny", "blob2"))}},
		{{sh("d", "a", "long", "varchar(10)", "decimal(4,2)"), sh("d", "b", "tiny unsigned", "blob2")},
			{sh("e", "x", "blob2", "tiny"), sh("e", "y", "varchar(300)", "long unsigned", "short", "char(10)")}},
		// the same names and widths, other types and signedness
		{{sh("d", "a", "long", "tiny"), sh("d", "b", "short", "longlong")},
			{sh("d", "a", "long unsigned", "tiny unsigned"), sh("d", "b", "varchar(10)", "float")}},
	}
}

// twinLog writes a log of two tables.
func twinLog(f formatT, x, y shape, names int) *ref.Log {
	o := f.opt()
	o.Names = names
	l := ref.NewLog(o)
	l.GTID(false)
	l.Begin("BEGIN")
	l.TableMap(7, x.t)
	l.TableMap(8, y.t)
	l.Rows(ref.Write, 7, nil, imgs(3, x.f), false)
	l.Rows(ref.Update, 8, imgs(2, y.f), imgs(2, x2(y.f)), true)
	l.XID()
	l.Statement("create", "d", "CREATE TABLE t (a int)")
	l.TableMap(7, y.t)
	l.Rows(ref.Delete, 7, imgs(3, y.f), nil, true)
	l.Rotate(ref.FileName(names, 2))
	l.Begin("begin")
	l.TableMap(8, x.t)
	l.Rows(ref.Write, 8, nil, imgs(4, x2(x.f)), true)
	l.Commit("COMMIT")
	return l
}

// againUnits makes one streamer stream two logs, one after the other: nothing
// of the first attempt, however it ended, may show in the second.
func againUnits() []run.Unit {
	return split("one log after another on one streamer", 8, func(u *run.U, part, parts int) {
		var desc string
		u.Cur(func() string { return desc })
		i := 0
		for pi, p := range twinShapes() {
			for _, f := range formats {
				for _, g := range formats {
					if i++; i%parts != part {
						continue
					}
					for swap := 0; swap < 2; swap++ {
						a, b := p[swap], p[1-swap]
						la, lb := twinLog(f, a[0], a[1], 0), twinLog(g, b[0], b[1], swap)
						n := len(mustServe(la))
						r := e2e.NewRig(4)
						for cut := 0; cut <= n; cut++ {
							for _, end := range []fm.End{fm.EndEOF, fm.EndReset} {
								desc = fmt.Sprintf("pair %d/%d, %v after %d packets of %v, end %d", pi, swap, g, cut, f, end)
								r.Fresh()
								r.Mapper.Set(a[0].t)
								r.Mapper.Set(a[1].t)
								r.M.Dump = func(int, fm.Request) *fm.Script { return e2e.ScriptOf(mustServe(la)[:cut], end) }
								r.S.SetBinlogPosition(e2e.Pos(la.StartPos()))
								at := r.Run(context.Background(), nil)
								if at.Panic != nil || at.Err != nil || (at.ErrErr == nil) != (end == fm.EndEOF) {
									u.Fail("first stream: panic %v, Stream: %v, Error(): %v", at.Panic, at.Err, at.ErrErr)
								}
								r.Mapper.Set(b[0].t)
								r.Mapper.Set(b[1].t)
								r.ServeLog(lb, fm.EndEOF)
								r.S.SetBinlogPosition(e2e.Pos(lb.StartPos()))
								at = r.Run(context.Background(), nil)
								if at.Panic != nil || at.Err != nil || at.ErrErr != nil {
									u.Fail("second stream: panic %v, Stream: %v, Error(): %v\nlog: %s", at.Panic, at.Err, at.ErrErr, lb.Describe())
								}
								want := append([]ref.Tran(nil), lb.Trans...)
								if f0, o := lb.StartPos(); want[0].NowFile == f0 {
									want[0].NowOff = o
								}
								if err := e2e.CompareAll(at.Trans, want); err != nil {
									u.Fail("second stream: %v\nlog: %s", err, lb.Describe())
								}
								u.Eval(1)
								u.Trace(2)
								u.Trans(2)
								u.State(run.Hash(desc))
							}
						}
						r.Close()
					}
				}
			}
		}
		u.Sample("%s", desc)
	})
}

// twinUnits runs a whole stream of a second streamer, with tables of other
// shapes under the same ids and another format, within every handler call and
// every table lookup of a first one: nothing of the one may show in the other.
func twinUnits() []run.Unit {
	pairs, write := twinShapes(), twinLog
	return split("two streamers, one streaming within the other's calls", 8, func(u *run.U, part, parts int) {
		var desc string
		u.Cur(func() string { return desc })
		i := 0
		for pi, p := range pairs {
			for _, f := range formats {
				for _, g := range formats {
					if i++; i%parts != part {
						continue
					}
					for swap := 0; swap < 2; swap++ {
						a, b := p[swap], p[1-swap]
						la, lb := write(f, a[0], a[1], 0), write(g, b[0], b[1], 1)
						ra, rb := e2e.NewRig(4, a[0].t, a[1].t), e2e.NewRig(9, b[0].t, b[1].t)
						inner := func(where string) {
							desc = fmt.Sprintf("pair %d/%d, %v within %s of %v", pi, swap, g, where, f)
							streamAll(u, rb, lb, desc)
							u.Eval(1)
							u.Trace(1)
						}
						ra.ServeLog(la, fm.EndEOF)
						ra.S.SetBinlogPosition(e2e.Pos(la.StartPos()))
						lookup := 0
						ra.Mapper.Hook = func() { lookup++; inner(fmt.Sprintf("lookup %d", lookup)) }
						var snaps []string
						at := ra.Run(context.Background(), func(n int, t *gobinlog.Transaction) error {
							snaps = append(snaps, snapshot(t))
							inner(fmt.Sprintf("handler call %d", n))
							return nil
						})
						if at.Panic != nil || at.Err != nil || at.ErrErr != nil {
							u.Fail("outer stream: panic %v, Stream: %v, Error(): %v\nlog: %s", at.Panic, at.Err, at.ErrErr, la.Describe())
						}
						want := append([]ref.Tran(nil), la.Trans...)
						if f0, o := la.StartPos(); want[0].NowFile == f0 {
							want[0].NowOff = o
						}
						if err := e2e.CompareAll(at.Trans, want); err != nil {
							u.Fail("outer stream: %v\nlog: %s", err, la.Describe())
						}
						for k, t := range at.Trans {
							if s := snapshot(t); s != snaps[k] {
								u.Fail("transaction %d changed while another streamer was at work:\nwas %q\nis  %q", k, snaps[k], s)
							}
						}
						ra.Close()
						rb.Close()
					}
				}
			}
		}
		u.Sample("%s", desc)
	})
}

func x2(f func(i int) ref.Image) func(i int) ref.Image {
	return func(i int) ref.Image { return f(i + 2) }
}
