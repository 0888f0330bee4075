package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/Breeze0806/gobinlog"

	"verif/e2e"
	"verif/fm"
	"verif/ref"
	"verif/run"
)

// boundaryOracle streams the log and wants exactly the expected transactions,
// none of them handed over before the master had sent its commit event.
func boundaryOracle(u *run.U, r *e2e.Rig, c *hctx, _ formatT) {
	boundaries(u, r, c.l)
}

func boundaries(u *run.U, r *e2e.Rig, l *ref.Log) {
	r.Fresh()
	f, o := l.StartPos()
	ps, err := l.Serve(f, o)
	if err != nil {
		panic(err)
	}
	r.M.Dump = func(int, fm.Request) *fm.Script { return e2e.ScriptOf(ps, fm.EndEOF) }
	r.S.SetBinlogPosition(e2e.Pos(f, o))
	a := r.Run(context.Background(), nil)
	if a.Panic != nil || a.Err != nil || a.ErrErr != nil {
		u.Fail("panic %v, Stream: %v, Error(): %v\nlog: %s", a.Panic, a.Err, a.ErrErr, l.Describe())
	}
	want := append([]ref.Tran(nil), l.Trans...)
	if len(want) > 0 && want[0].NowFile == f {
		want[0].NowOff = o
	}
	if err := e2e.CompareAll(a.Trans, want); err != nil {
		u.Fail("%v\nlog: %s", err, l.Describe())
	}
	for n, sent := range a.SentAt {
		if sent == 0 || sent <= len(ps) && ps[sent-1].Done <= n {
			u.Fail("transaction %d handed over when the master had sent %d packets only (its commit event comes later)\nlog: %s", n, sent, l.Describe())
		}
	}
}

// letterCases lists every combination of upper and lower case of the word.
func letterCases(w string) []string {
	var out []string
	w = strings.ToLower(w)
	for m := 0; m < 1<<uint(len(w)); m++ {
		b := []byte(w)
		for i := range b {
			if m>>uint(i)&1 == 1 {
				b[i] -= 32
			}
		}
		out = append(out, string(b))
	}
	return out
}

func c02Alphabet() []hop {
	// events, not statements: the table map and its rows are separate
	mapA := hop{"map(a)", anywhere, func(c *hctx) { c.l.TableMap(1, c.h.a) }}
	rowsA := hop{"rows(a)", func(c *hctx) bool { return strings.Contains(c.l.Describe(), "map d.a") }, func(c *hctx) {
		switch c.n % 3 {
		case 0:
			c.l.Rows(ref.Write, 1, nil, c.h.rowA[:1], c.n%2 == 0)
		case 1:
			c.l.Rows(ref.Delete, 1, c.h.rowA[:2], nil, true)
		case 2:
			c.l.Rows(ref.Update, 1, c.h.rowA[:1], c.h.rowA[1:2], true)
		}
	}}
	return []hop{opBegin, opXID, opCommit, opRoll, mapA, rowsA, opCreate, opSet, opInsS, opGTID, opPrev, opBeat, opUnknown, opUnkStmt, opRotate, opCrash}
}

func c02Units(tier string) []run.Unit {
	th := tier == "thorough"
	us := histUnits(tier, "events", c02Alphabet(), 5, 6, boundaryOracle)
	us = append(us, histUnits(tier, "grouping", []hop{opBegin, opXID, opCommit, opRoll, opInsA, opDrop, opUpdS, opBeat}, 7, 8, boundaryOracle)...)
	us = append(us, histUnits(tier, "statements", []hop{opBegin, opXID, opRoll, opCreate, opAlter, opDrop, opTrunc, opRename, opSet, opInsS, opUpdS, opDelS, opUnkStmt}, 5, 6, boundaryOracle)...)
	us = append(us, histUnits(tier, "ignorable events", []hop{opBegin, opXID, opCommit, opInsA, opGTID, opAnon, opPrev, opBeat, opUnknown, opUnkStmt}, 6, 7, boundaryOracle)...)
	// keywords in every letter case, followed by everything that may follow
	type kw struct {
		word string
		kind string
		tail []string
	}
	ws := []string{" ", "\t", "\n", "\r\n", "  ", "\v", "\f", "\r"}
	after := func(rest string) []string {
		var t []string
		for _, w := range ws {
			t = append(t, w+rest)
		}
		return t
	}
	kws := []kw{
		{"begin", "begin", append([]string{""}, after("/* x */")...)},
		{"commit", "commit", append([]string{""}, after("/* COMMIT */")...)},
		{"rollback", "rollback", append([]string{""}, after("/* BEGIN */")...)},
		{"create", "create", after("TABLE begin (a int)")},
		{"alter", "alter", after("TABLE commit ADD x int")},
		{"drop", "drop", after("TABLE rollback")},
		{"truncate", "truncate", after("TABLE t")},
		{"rename", "rename", after("TABLE a TO b")},
		{"set", "set", after("PASSWORD FOR u = 'commit'")},
		{"insert", "insert", after("INTO t VALUES ('rollback')")},
		{"update", "update", after("t SET a = 1")},
		{"delete", "delete", after("FROM t")},
	}
	// texts arrive as they are written
	us = append(us, textUnits(th)...)
	us = append(us, headUnits(th)...)
	for _, k := range kws {
		k := k
		us = append(us, unit("every letter case of "+k.word, func(u *run.U) {
			r := e2e.NewRig(5, hT.a, hT.b)
			defer r.Close()
			var desc string
			u.Cur(func() string { return desc })
			for ci, w := range letterCases(k.word) {
				for _, tail := range k.tail {
					for place := 0; place < 3; place++ {
						f := formats[(ci+place)%len(formats)]
						desc = fmt.Sprintf("%q, case %d, %v", w+tail, place, f)
						l := ref.NewLog(f.opt())
						ins := func(t *ref.Table, rs []ref.Image) {
							l.TableMap(7, t)
							l.Rows(ref.Write, 7, nil, rs, true)
						}
						switch k.kind {
						case "begin":
							ins(hT.b, hT.rowB[:1])
							l.Begin(w + tail)
							ins(hT.a, hT.rowA[:1])
							ins(hT.b, hT.rowB[:1])
							switch place {
							case 0:
								l.XID()
							case 1:
								l.Commit("COMMIT")
							case 2:
								l.Rollback("ROLLBACK")
							}
						case "commit", "rollback":
							end := l.Commit
							if k.kind == "rollback" {
								end = l.Rollback
							}
							l.Begin("BEGIN")
							if place > 0 {
								ins(hT.a, hT.rowA[:1])
							}
							if place > 1 {
								ins(hT.b, hT.rowB[:2])
								l.Statement("set", "d", "set @x=1")
							}
							end(w + tail)
						default:
							if place > 0 {
								l.Begin("BEGIN")
							}
							if place > 1 {
								ins(hT.a, hT.rowA[:1])
							}
							l.Statement(k.kind, "d", w+tail)
							if place > 0 {
								l.Rollback([]string{"", "ROLLBACK", "rollback"}[place])
							}
						}
						l.Begin("BEGIN")
						ins(hT.a, hT.rowA[1:2])
						l.XID()
						ins(hT.a, hT.rowA[:1])
						boundaries(u, r, l)
						u.Eval(1)
						u.Trace(1)
						u.Trans(8)
						u.State(run.Hash(desc))
					}
				}
			}
			u.Sample("%s", desc)
		}))
	}
	// every event type the library does not know, at every place
	us = append(us, unit("every unknown event type at every place", func(u *run.U) {
		r := e2e.NewRig(5, hT.a, hT.b)
		defer r.Close()
		var desc string
		u.Cur(func() string { return desc })
		known := map[int]bool{2: true, 4: true, 5: true, 13: true, 15: true, 16: true, 19: true, 23: true, 24: true, 25: true, 29: true, 30: true, 31: true, 32: true}
		for t := 0; t < 256; t++ {
			if known[t] {
				continue
			}
			for place := 0; place <= 7; place++ {
				for _, n := range []int{0, 1, 4, 8, 44, 200} {
					if !th && n%8 == 4 {
						continue
					}
					f := formats[(t+place+n)%len(formats)]
					desc = fmt.Sprintf("event type %d with %d bytes at place %d, %v", t, n, place, f)
					if f.crc && n == 0 && t == ref.EvStop {
						continue
					}
					l := ref.NewLog(f.opt())
					at := 0
					x := func() {
						if at == place {
							l.Tick()
							l.Raw(byte(t), 0x80, ref.Pat(n, byte(t)), fmt.Sprintf("event type %d", t))
						}
						at++
					}
					x()
					l.Begin("BEGIN")
					x()
					l.TableMap(1, hT.a)
					x()
					l.Rows(ref.Write, 1, nil, hT.rowA[:1], false)
					x()
					l.Rows(ref.Write, 1, nil, hT.rowA[1:2], true)
					x()
					l.XID()
					x()
					l.TableMap(1, hT.a)
					x()
					l.Rows(ref.Delete, 1, hT.rowA[:1], nil, true)
					x()
					l.Statement("create", "", "create table x(a int)")
					boundaries(u, r, l)
					u.Eval(1)
					u.Trace(1)
					u.Trans(9)
					u.State(run.Hash(desc))
				}
			}
		}
		u.Sample("%s", desc)
	}))
	// statements no category knows, at every place
	us = append(us, unit("every unknown statement at every place", func(u *run.U) {
		r := e2e.NewRig(5, hT.a, hT.b)
		defer r.Close()
		var desc string
		u.Cur(func() string { return desc })
		stmts := []string{"", " ", "SAVEPOINT `a`", "savepoint b", "RELEASE SAVEPOINT a", "GRANT ALL ON *.* TO u", "REVOKE ALL ON *.* FROM u", "FLUSH PRIVILEGES", "ANALYZE TABLE t", "OPTIMIZE TABLE t", "REPAIR TABLE t", "BEGINX", "XBEGIN", "COMMITS", "ROLLBACKED", "BEGINCOMMIT", "XID", "END", "REPLACE INTO t VALUES (1)", "LOAD DATA INFILE 'x' INTO TABLE t", "CALL p()", "USE d", "# a comment", "表", "\xff\xfe", "BEG IN", "COM MIT", "b", "be", "begi", "commi", "rollbac", "creat", "se", "sett", "SELECT 1", "INSERTED x", "updates y", "kill 1", "unlock tables", "lock tables t write"}
		for si, s := range stmts {
			for place := 0; place <= 6; place++ {
				for fi, f := range formats {
					if !th && (fi+si+place)%2 != 0 {
						continue
					}
					desc = fmt.Sprintf("%q at place %d, %v", s, place, f)
					l := ref.NewLog(f.opt())
					at := 0
					x := func() {
						if at == place {
							l.Query("d", s)
						}
						at++
					}
					x()
					l.Begin("BEGIN")
					x()
					l.TableMap(1, hT.a)
					l.Rows(ref.Write, 1, nil, hT.rowA[:1], true)
					x()
					l.TableMap(1, hT.a)
					x()
					l.Rows(ref.Write, 1, nil, hT.rowA[1:2], true)
					x()
					l.Commit("COMMIT")
					x()
					l.Statement("drop", "", "drop table x")
					x()
					l.Begin("BEGIN")
					l.TableMap(1, hT.a)
					l.Rows(ref.Delete, 1, hT.rowA[:1], nil, true)
					l.Rollback("ROLLBACK")
					boundaries(u, r, l)
					u.Eval(1)
					u.Trace(1)
					u.Trans(9)
					u.State(run.Hash(desc))
				}
			}
		}
		u.Sample("%s", desc)
	}))
	// transactions of every size
	us = append(us, split("transactions of every size", 8, func(u *run.U, part, parts int) {
		r := e2e.NewRig(5, hT.a, hT.b)
		defer r.Close()
		var desc string
		u.Cur(func() string { return desc })
		max := 70
		if th {
			max = 300
		}
		for n := part; n <= max; n += parts {
			for end := 0; end < 3; end++ {
				f := formats[(n+end)%len(formats)]
				desc = fmt.Sprintf("%d changes, end %d, %v", n, end, f)
				l := ref.NewLog(f.opt())
				for rep := 0; rep < 3; rep++ {
					l.Begin("BEGIN")
					for i := 0; i < n; i++ {
						if i%5 == 4 {
							l.Statement("insert", "d", fmt.Sprintf("insert into t values (%d)", i))
							continue
						}
						l.TableMap(1, hT.a)
						l.Rows(i%3, 1, hT.rowA[i%2:i%2+1], hT.rowA[i%3:i%3+1], true)
						// a write has no before image, a delete no after image
					}
					switch end {
					case 0:
						l.XID()
					case 1:
						l.Commit("COMMIT")
					case 2:
						l.Rollback("ROLLBACK")
					}
				}
				boundaries(u, r, l)
				u.Eval(1)
				u.Trace(1)
				u.Trans(int64(3 * (n + 2)))
				u.State(run.Hash(desc))
			}
		}
		u.Sample("%s", desc)
	})...)
	us = append(us, c02Known()...)
	us = append(us, scaleUnits(th, 1<<20, nil, func(u *run.U, r *e2e.Rig, l *ref.Log, n int, desc string) { boundaries(u, r, l) })...)
	return us
}

// c02Known are the histories the library is known to get wrong. They are
// judged like any other; the driver knows their keys.
func c02Known() []run.Unit {
	one := func(key, what string, mk func(l *ref.Log), alt func(l *ref.Log) []ref.Tran) run.Unit {
		return unit("finding: "+what, func(u *run.U) {
			u.Cur(func() string { return what })
			r := e2e.NewRig(5, hT.a, hT.b)
			defer r.Close()
			l := ref.NewLog(formats[1].opt())
			mk(l)
			r.ServeLog(l, fm.EndEOF)
			f, o := l.StartPos()
			r.S.SetBinlogPosition(e2e.Pos(f, o))
			a := r.Run(context.Background(), func(int, *gobinlog.Transaction) error { return nil })
			err := e2e.CompareAll(a.Trans, l.Trans)
			if err != nil && alt != nil && e2e.CompareAll(a.Trans, alt(l)) == nil {
				err = nil
			}
			if a.Panic != nil || a.Err != nil || a.ErrErr != nil || err != nil {
				u.FailKey(key, "%s: panic %v, Stream: %v, Error(): %v, %v\nlog: %s", what, a.Panic, a.Err, a.ErrErr, err, l.Describe())
			}
			u.Eval(1)
			u.Trace(1)
		})
	}
	ins := func(l *ref.Log, i int) {
		l.TableMap(1, hT.a)
		l.Rows(ref.Write, 1, nil, hT.rowA[i:i+1], true)
	}
	return []run.Unit{
		one("C02/rollback-to-savepoint", "BEGIN, insert, SAVEPOINT, insert, ROLLBACK TO SAVEPOINT, insert, XID", func(l *ref.Log) {
			l.Begin("BEGIN")
			ins(l, 0)
			l.Query("d", "SAVEPOINT `sp`")
			ins(l, 1)
			l.Query("d", "ROLLBACK TO `sp`")
			ins(l, 3)
			l.XID()
		}, func(l *ref.Log) []ref.Tran {
			// what was logged after the savepoint is undone
			t := l.Trans[0]
			t.Changes = append(append([]ref.Change(nil), t.Changes[:1]...), t.Changes[2:]...)
			return []ref.Tran{t}
		}),
		one("C02/xa", "XA START, insert, XA END, XA PREPARE, XA ROLLBACK", func(l *ref.Log) {
			l.GTID(false)
			l.Query("d", "XA START X'31',X'',1")
			ins(l, 0)
			l.Query("d", "XA END X'31',X'',1")
			l.Tick()
			l.Raw(38, 0, []byte{0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, '1'}, "xa prepare")
			l.GTID(false)
			l.Query("d", "XA ROLLBACK X'31',X'',1")
			l.Trans = nil
		}, nil),
	}
}

// textUnits have statements with every byte at the end, in the middle and
// around the first word, and of every length around the powers of two.
// The word is followed by each kind of white space, too.
func textUnits(th bool) []run.Unit {
	white := []string{" ", "\t", "\n", "\v", "\f", "\r", "\r\n", " \n", "\n\t", "  "}
	kinds := []string{"create", "alter", "drop", "truncate", "rename", "set", "insert", "update", "delete"}
	return split("texts of statements", 8, func(u *run.U, part, parts int) {
		r := e2e.NewRig(5, hT.a, hT.b)
		defer r.Close()
		var desc string
		u.Cur(func() string { return desc })
		sep := " "
		play := func(i int, texts ...string) {
			f := formats[i%len(formats)]
			l := ref.NewLog(f.opt())
			for k, t := range texts {
				kind := kinds[(i+k)%len(kinds)]
				if k%2 == 1 {
					l.Begin("BEGIN")
				}
				l.Statement(kind, []string{"", "d", t[:min(len(t), 64)]}[(i+k)%3], kind+sep+t)
				if k%2 == 1 {
					l.XID()
				}
			}
			boundaries(u, r, l)
			u.Eval(int64(len(texts)))
			u.Trace(1)
			u.Trans(int64(len(texts)))
			u.State(run.Hash(desc))
		}
		for b := part; b < 256; b += parts {
			c := string([]byte{byte(b)})
			desc = fmt.Sprintf("byte %#x", b)
			for i := 0; i < 9; i++ {
				play(i, "x"+c, c, c+"x", "a"+c+"b", c+c+c, "'"+c+"'", c+" "+c, "x"+c+c)
			}
			// 10 separators, 9 words: every pair comes up
			for i := 0; i < 90; i++ {
				sep = white[i/9]
				play(i, "x"+c, c, c+"x")
			}
			sep = " "
			if th {
				for b2 := 0; b2 < 256; b2++ {
					d := string([]byte{byte(b2)})
					play(b+b2, "x"+c+d, c+d, c+d+"x", "a"+c+d+"b")
				}
			}
		}
		for i, n := range scales(th, 1<<18+1) {
			if i%parts == part {
				desc = fmt.Sprintf("%d bytes", n)
				play(i, strings.Repeat("x", n), strings.Repeat(" ", n), strings.Repeat("\u00e9", n/2), strings.Repeat("(1,'a'),\n", n/9)+";")
			}
		}
		u.Sample("%s", desc)
	})
}
