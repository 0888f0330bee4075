package main

import (
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	mysql "github.com/Breeze0806/mysql"
	"io"
	"net"
	"os"
	"strings"
	"syscall"

	"github.com/Breeze0806/gobinlog"

	"verif/e2e"
	"verif/fm"
	"verif/ref"
	"verif/run"
)

// richLogs are histories that between them have every kind of transaction,
// rotation and ignorable event.
type richLog struct {
	name string
	make func(f formatT) *ref.Log
}

func richLogs() []richLog {
	h := func(name string, names int, ops ...hop) richLog {
		return richLog{name, func(f formatT) *ref.Log {
			var seq []int
			for i := range ops {
				seq = append(seq, i)
			}
			o := f.opt()
			o.Names = names
			c, ok := writeHist(ops, seq, f, o)
			if !ok {
				panic("history " + name)
			}
			return c.l
		}}
	}
	return []richLog{
		h("three transactions", 0, opBegin, opInsA, opUpdA, opXID, opCreate, opGTID, opBegin, opInsB, opXID),
		h("rotation between transactions", 1, opInsA, opRotate, opBegin, opDelA, opCommit, opHeartRotate, opSet, opRotate),
		h("rollback and autocommitted rows", 0, opBegin, opInsA, opRoll, opDelB, opBeat, opBegin, opUnkStmt, opInsS, opUnknown, opCommit),
		h("restart of the master", 2, opGTID, opBegin, opInsA, opXID, opRestart, opPrev, opAnon, opBegin, opInsZ, opXID, opCrash, opDrop),
	}
}

var opHeartRotate = hop{"heartbeat", outside, func(c *hctx) { c.l.Heartbeat() }}

// failure is one way an attempt ends.
type failure struct {
	name string
	// run makes the attempt and judges what it reports
	run func(s *story)
}

var errMasterText = "injected master error: binlog truncated in the middle of event"

// failures lists every failure at every point of the log. strict also judges
// what is reported about it.
func failures(l *ref.Log, strict bool) []failure {
	ps := mustServe(l)
	var fs []failure
	add := func(name string, f func(s *story)) { fs = append(fs, failure{name, f}) }
	truth := func(end fm.End) func(ps []ref.Packet) *fm.Script {
		return func(ps []ref.Packet) *fm.Script { return e2e.ScriptOf(ps, end) }
	}
	// the index of a packet counts from the end: attempts that resume
	// later still have it
	cut := func(back int, end fm.End) func(ps []ref.Packet) *fm.Script {
		return func(ps []ref.Packet) *fm.Script {
			n := len(ps) - back
			if n < 0 {
				n = 0
			}
			return e2e.ScriptOf(ps[:n], end)
		}
	}
	ends := []struct {
		name string
		end  fm.End
	}{{"EOF", fm.EndEOF}, {"error packet", fm.EndERR}, {"connection closed", fm.EndClose}, {"connection reset", fm.EndReset}, {"half a packet", fm.EndTrunc},
		{"packet out of sequence", fm.EndSeq}, {"packet of no bytes", fm.EndEmpty}, {"half a packet header", fm.EndHeader}, {"packet sent twice", fm.EndSeqBack}}
	for back := 0; back <= len(ps); back++ {
		back := back
		for _, e := range ends {
			e := e
			add(fmt.Sprintf("%s %d packets before the end", e.name, back), func(s *story) {
				a := s.attempt(e.name, context.Background(), cut(back, e.end), nil)
				if strict && e.end != fm.EndEOF {
					s.lost(a, e.end == fm.EndERR, errMasterText)
				}
			})
		}
		if back == 0 {
			continue
		}
		// cancelled when packet len-back is about to arrive
		for _, hang := range []bool{false, true} {
			hang := hang
			add(fmt.Sprintf("cancelled %d packets before the end (master silent after: %v)", back, hang), func(s *story) {
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				s.attempt("cancel", ctx, func(ps []ref.Packet) *fm.Script {
					n := len(ps) - back
					if n < 0 {
						n = 0
					}
					sc := e2e.ScriptOf(ps, fm.EndEOF)
					if hang {
						sc = e2e.ScriptOf(ps[:n], fm.EndHang)
					}
					sc.OnPacket = func(i int) {
						if i == n {
							cancel()
						}
					}
					if hang && n == 0 {
						sc.OnPacket = nil
						cancel()
					} else if hang {
						sc.OnPacket = func(i int) {
							if i == n-1 {
								cancel()
							}
						}
					}
					return sc
				}, nil)
			})
		}
		// something the streamer cannot take, before packet len-back
		for _, x := range []struct {
			name string
			typ  byte
			body []byte
		}{
			{"INTVAR event", ref.EvIntVar, append([]byte{2}, make([]byte, 8)...)},
			{"RAND event", ref.EvRand, make([]byte, 16)},
			{"ROWS_QUERY event", ref.EvRowsQuery, append([]byte{9}, "select 1 "...)},
		} {
			x := x
			add(fmt.Sprintf("%s %d packets before the end", x.name, back), func(s *story) {
				real := false
				a := s.attempt(x.name, context.Background(), func(ps []ref.Packet) *fm.Script {
					n := len(ps) - back
					if n < 0 {
						n = 0
					}
					real = n >= 2
					sc := e2e.ScriptOf(ps, fm.EndEOF)
					crc := s.crcAt(ps, n)
					ev := ref.Event(ref.Header{Timestamp: 1, Type: x.typ, ServerID: 1, NextPos: 4000000000}, x.body, crc)
					sc.Packets = append(append(append([][]byte(nil), sc.Packets[:n]...), ev), sc.Packets[n:]...)
					return sc
				}, nil)
				if strict && a.Err == nil {
					s.fail("an unsupported event did not end the stream (real %v)", real)
				}
			})
		}
		add(fmt.Sprintf("malformed packet %d before the end", back), func(s *story) {
			a := s.attempt("malformed", context.Background(), func(ps []ref.Packet) *fm.Script {
				n := len(ps) - back
				if n < 0 {
					n = 0
				}
				sc := e2e.ScriptOf(ps, fm.EndEOF)
				b := sc.Packets[n]
				sc.Packets[n] = append([]byte(nil), b[:len(b)-1]...)
				return sc
			}, nil)
			if strict && a.Err == nil {
				s.fail("a malformed packet did not end the stream")
			}
		})
	}
	// an event that cannot be decoded in place of the real one
	for back := 1; back <= len(ps); back++ {
		back := back
		n0 := len(ps) - back
		for _, v := range undecodable(ps[n0].Bytes) {
			v := v
			add(fmt.Sprintf("%s %d packets before the end", v.name, back), func(s *story) {
				hit := false
				a := s.attempt(v.name, context.Background(), func(ps []ref.Packet) *fm.Script {
					sc := e2e.ScriptOf(ps, fm.EndEOF)
					n := len(ps) - back
					if n <= 0 || ps[n].Bytes[4] != v.typ {
						return sc
					}
					hit = n+1 < len(ps) || v.typ != ref.EvFDE
					sc.Packets = append(append(append([][]byte(nil), sc.Packets[:n]...), v.make(ps[n].Bytes, s.crcAt(ps, n), s.l.Opt.Four)...), sc.Packets[n+1:]...)
					return sc
				}, nil)
				if strict && hit && a.Err == nil {
					s.fail("an event that cannot be decoded did not end the stream")
				}
			})
		}
	}
	// rows of a table that was never announced
	for back := 1; back <= len(ps); back++ {
		back := back
		if n := len(ps) - back; len(ps[n].Note) < 4 || ps[n].Note[:4] != "map " {
			continue
		}
		add(fmt.Sprintf("table map %d packets before the end lost", back), func(s *story) {
			s.attempt("lost table map", context.Background(), func(ps []ref.Packet) *fm.Script {
				sc := e2e.ScriptOf(ps, fm.EndEOF)
				n := len(ps) - back
				if n < 0 {
					return sc
				}
				sc.Packets = append(append([][]byte(nil), sc.Packets[:n]...), ref.Event(ref.Header{Timestamp: 1, Type: ref.EvIntVar, ServerID: 1, NextPos: 77}, make([]byte, 9), s.crcAt(ps, n)))
				return sc
			}, nil)
		})
	}
	// handler and lookup failures
	nt := len(l.After(l.StartPos()))
	for n := 0; n < nt; n++ {
		n := n
		add(fmt.Sprintf("handler rejects call %d", n), func(s *story) {
			calls := 0
			a := s.attempt("handler error", context.Background(), truth(fm.EndEOF), func(k int, t *gobinlog.Transaction) error {
				calls = k + 1
				s.seen(k, t)
				if k == n {
					return e2e.ErrHandler
				}
				return nil
			})
			if strict && calls == n+1 && a.Err == nil {
				s.fail("the handler's error was not returned")
			}
			if calls > n+1 {
				s.fail("the handler was called again after its error")
			}
		})
		add(fmt.Sprintf("handler panics in call %d", n), func(s *story) {
			s.panics = true
			a := s.attempt("handler panic", context.Background(), truth(fm.EndEOF), func(k int, t *gobinlog.Transaction) error {
				s.seen(k, t)
				if k == n {
					panic(e2e.ErrPanic)
				}
				return nil
			})
			s.panics = false
			if strict && a.Calls > n && a.Panic == nil && a.Err == nil {
				s.fail("the handler's panic is lost")
			}
		})
		for _, reject := range []bool{false, true} {
			reject := reject
			add(fmt.Sprintf("cancelled within handler call %d, rejecting %v", n, reject), func(s *story) {
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				a := s.attempt("cancel in handler", ctx, truth(fm.EndEOF), func(k int, t *gobinlog.Transaction) error {
					s.seen(k, t)
					if k == n {
						cancel()
						if reject {
							return errors.New("handler gives up")
						}
					}
					return nil
				})
				if strict && reject && a.Calls > n && a.Err == nil {
					s.fail("the handler's error was not returned")
				}
			})
		}
	}
	for n := 0; n < 4; n++ {
		n := n
		for _, how := range []string{"fails", "panics", "gives another number of columns"} {
			how := how
			add(fmt.Sprintf("table lookup %d %s", n, how), func(s *story) {
				hit := false
				s.r.Mapper.Reset()
				s.r.Mapper.Fail = func(k int, name gobinlog.MysqlTableName) error {
					if k != n {
						return nil
					}
					hit = true
					if how == "fails" {
						return e2e.ErrMapper
					}
					if how == "panics" {
						panic(e2e.ErrPanic)
					}
					t := hT.tables()[name.TableName]
					short := *t
					short.Cols = t.Cols[:len(t.Cols)-1]
					s.r.Mapper.SetLocked(&short)
					return nil
				}
				s.panics = how == "panics"
				a := s.attempt("lookup "+how, context.Background(), truth(fm.EndEOF), nil)
				s.panics = false
				s.r.Mapper.Fail = nil
				for _, t := range hT.tables() {
					s.r.Mapper.Set(t)
				}
				if strict && hit && a.Err == nil && a.Panic == nil {
					s.fail("a failed table lookup did not end the stream")
				}
			})
		}
	}
	// no dump at all
	for _, x := range faults() {
		x := x
		add("handshake: "+x.name, func(s *story) {
			s.r.M.Fault = func(int) fm.Fault { return x.f }
			a := s.attempt(x.name, context.Background(), truth(fm.EndEOF), nil)
			s.r.M.Fault = nil
			if strict && a.Err == nil {
				s.fail("a failed handshake was not reported")
			}
		})
	}
	add("cancelled before it starts", func(s *story) {
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		s.attempt("cancelled", ctx, truth(fm.EndEOF), nil)
	})
	return fs
}

// refusalErrors are errors a handler or a mapper may come back with. Whatever
// they look like, they are refusals.
func refusalErrors() []error {
	return []error{
		errors.New("no"), errors.New(""), context.Canceled, context.DeadlineExceeded, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe,
		driver.ErrBadConn, driver.ErrSkip, mysql.ErrInvalidConn, mysql.ErrPktSync, os.ErrDeadlineExceeded, net.ErrClosed, syscall.ECONNRESET,
		&mysql.MySQLError{Number: 1236, Message: "stream reached EOF"}, errors.New("stream reached EOF"), errors.New("EOF"),
		fmt.Errorf("wrapped: %w", context.Canceled), fmt.Errorf("wrapped: %w", io.EOF), &gobinlog.Error{}, netErr{}, valueErr("")}
}

// netErr is a temporary network error.
type netErr struct{}

func (netErr) Error() string   { return "temporary" }
func (netErr) Timeout() bool   { return true }
func (netErr) Temporary() bool { return true }

type valueErr string

func (valueErr) Error() string { return "" }

// refusals lists every refusal of every transaction and of every lookup.
func refusals(l *ref.Log, strict bool) []failure {
	var fs []failure
	add := func(name string, f func(s *story)) { fs = append(fs, failure{name, f}) }
	nt := len(l.After(l.StartPos()))
	for _, e := range refusalErrors() {
		e := e
		for n := 0; n < nt; n++ {
			n := n
			for _, cancelled := range []string{"not cancelled", "cancelled before", "cancelled in the call"} {
				cancelled := cancelled
				add(fmt.Sprintf("handler refuses transaction %d with %T %v, %s", n, e, quiet(e), cancelled), func(s *story) {
					ctx, cancel := context.WithCancel(context.Background())
					defer cancel()
					calls := 0
					a := s.attempt("refused", ctx, func(ps []ref.Packet) *fm.Script { return e2e.ScriptOf(ps, fm.EndEOF) }, func(k int, t *gobinlog.Transaction) error {
						calls = k + 1
						if k == n-1 && cancelled == "cancelled before" || k == n && cancelled == "cancelled in the call" {
							cancel()
						}
						if k == n {
							return e
						}
						return nil
					})
					if strict && calls == n+1 && a.Err == nil {
						s.fail("the handler's error was not returned")
					}
					if calls > n+1 {
						s.fail("the handler was called again after its error")
					}
				})
			}
		}
		for n := 0; n < 3; n++ {
			n := n
			add(fmt.Sprintf("table lookup %d refused with %T %v", n, e, quiet(e)), func(s *story) {
				hit := false
				s.r.Mapper.Reset()
				s.r.Mapper.Fail = func(k int, name gobinlog.MysqlTableName) error {
					if k != n {
						return nil
					}
					hit = true
					return e
				}
				a := s.attempt("lookup refused", context.Background(), func(ps []ref.Packet) *fm.Script { return e2e.ScriptOf(ps, fm.EndEOF) }, nil)
				s.r.Mapper.Fail = nil
				if strict && hit && a.Err == nil {
					s.fail("a failed table lookup did not end the stream")
				}
			})
		}
	}
	return fs
}

// quiet renders an error that may not be fit to be rendered.
func quiet(e error) (s string) {
	defer func() { recover() }()
	return e.Error()
}

// refusalUnits plays every refusal by itself and after every other one.
func refusalUnits(strict bool) []run.Unit {
	var us []run.Unit
	for li, rl := range richLogs() {
		li, rl := li, rl
		us = append(us, split("refusals of every kind: "+rl.name, 8, func(u *run.U, part, parts int) {
			r := e2e.NewRig(21, hT.a, hT.b, hT.z)
			defer r.Close()
			f := formats[li%len(formats)]
			l := rl.make(f)
			fs := refusals(l, strict)
			desc := ""
			u.Cur(func() string { return desc })
			for i := range fs {
				if i%parts != part {
					continue
				}
				for j := -1; j < len(fs); j++ {
					if j >= 0 && (i+j)%11 != 0 && !u.Thorough() {
						continue
					}
					s := newStory(u, r, l)
					desc = fs[i].name
					fs[i].run(s)
					if j >= 0 {
						desc += " then " + fs[j].name
						fs[j].run(s)
					}
					s.finish()
					u.State(run.Hash(desc))
					u.Eval(1)
					u.Trace(1)
					u.Trans(3)
				}
			}
			u.Sample("%s", desc)
		})...)
	}
	return us
}

// smallLogs are short enough for every sequence of three failures.
func smallLogs() []richLog {
	h := func(name string, names int, ops ...hop) richLog {
		return richLog{name, func(f formatT) *ref.Log {
			var seq []int
			for i := range ops {
				seq = append(seq, i)
			}
			o := f.opt()
			o.Names = names
			c, ok := writeHist(ops, seq, f, o)
			if !ok {
				panic("history " + name)
			}
			return c.l
		}}
	}
	return []richLog{
		h("a statement", 0, opCreate),
		h("a statement, a rotation and a statement", 1, opCreate, opRotate, opSet),
		h("two transactions", 0, opBegin, opInsA, opXID, opDrop),
		h("a rollback and a crash", 2, opBegin, opInsA, opRoll, opCrash, opCreate),
	}
}

// tripleUnits plays every sequence of three failures on small logs.
func tripleUnits(th bool) []run.Unit {
	var us []run.Unit
	for li, rl := range smallLogs() {
		if !th && li > 0 {
			continue
		}
		rl, f := rl, formats[(li*3+1)%len(formats)]
		n := len(failures(rl.make(f), false))
		us = append(us, split(fmt.Sprintf("three failures: %s, %v", rl.name, f), n, func(u *run.U, i, _ int) {
			r := e2e.NewRig(21, hT.a, hT.b, hT.z)
			defer r.Close()
			l := rl.make(f)
			fs := failures(l, false)
			seq := []int{i, 0, 0}
			u.Cur(func() string { return fs[seq[0]].name + "; " + fs[seq[1]].name + "; " + fs[seq[2]].name })
			for seq[1] = range fs {
				for seq[2] = range fs {
					s := newStory(u, r, l)
					st := ""
					for _, x := range seq {
						fs[x].run(s)
						st += fmt.Sprint(s.accepted, ",")
					}
					s.finish()
					u.State(run.Hash(rl.name, fmt.Sprint(f), st))
					u.Eval(1)
					u.Trace(1)
					u.Trans(4)
				}
			}
			u.Sample("%s, then every pair", fs[i].name)
		})...)
	}
	return us
}

// lost wants the loss of the stream reported, by every call of Error().
func (s *story) lost(a *e2e.Attempt, master bool, text string) {
	if a.Err != nil {
		if master && !strings.Contains(a.Err.Error(), text) {
			s.fail("the master's message %q is missing in Stream's error %q", text, a.Err)
		}
		return
	}
	for i, err := range []error{a.ErrErr, a.Again} {
		if err == nil {
			s.fail("a lost stream is reported as a clean end (Error() call %d)", i+1)
		}
		if master && !strings.Contains(err.Error(), text) {
			s.fail("the master's message %q is missing in Error() call %d: %q", text, i+1, err)
		}
	}
}

type faultT struct {
	name string
	f    fm.Fault
}

// faults are the ways a connection fails before the dump.
func faults() []faultT {
	return []faultT{
		{"dial error", fm.Fault{DialErr: errors.New("injected: connection refused")}},
		{"error packet instead of a greeting", fm.Fault{GreetERR: true}},
		{"closed instead of a greeting", fm.Fault{GreetDrop: true}},
		{"access denied", fm.Fault{AuthERR: true}},
		{"closed at authentication", fm.Fault{AuthDrop: true}},
		{"error packet to the first query", fm.Fault{QueryERR: true}},
		{"closed at the first query", fm.Fault{QueryDrop: true}},
		{"write of the first query fails", fm.Fault{QueryWrErr: true}},
		{"write of the dump request fails", fm.Fault{DumpWrErr: true}},
	}
}

// crcAt tells whether events have checksums before packet n of the stream.
func (s *story) crcAt(ps []ref.Packet, n int) bool {
	crc, k := false, -1
	for i := 0; i < n && i < len(ps); i++ {
		if ps[i].Note == "fde" {
			b := ps[i].Bytes
			crc = b[len(b)-5] == ref.CksumCRC32
			k = i
		}
	}
	_ = k
	return crc
}

// seen checks a transaction at the handler, accepted or not.
func (s *story) seen(k int, t *gobinlog.Transaction) {
	n := s.accepted + k
	if n >= len(s.want) {
		s.fail("handler call beyond the end of the log: %v..%v", t.NowPosition, t.NextPosition)
	}
	w := s.want[n]
	if err := e2e.CompareContent(t, &w); err != nil {
		s.fail("handler call %d with transaction %d: %v", k, n, err)
	}
	if t.NextPosition.Filename != w.NextFile || t.NextPosition.Offset != w.NextOff {
		s.fail("handler call %d with transaction %d: end label %v, want %s:%d", k, n, t.NextPosition, w.NextFile, w.NextOff)
	}
}

func (h *histTables) tables() map[string]*ref.Table {
	return map[string]*ref.Table{h.a.Name: h.a, h.b.Name: h.b, h.z.Name: h.z}
}

func c04Units(tier string) []run.Unit {
	th := tier == "thorough"
	var us []run.Unit
	for li, rl := range richLogs() {
		for fi, f := range formats {
			rl, f := rl, f
			if !th && fi != li && fi != 1 {
				continue
			}
			fs := failures(rl.make(f), false)
			for i := range fs {
				i := i
				us = append(us, unit(fmt.Sprintf("%s, %v, first failure: %s", rl.name, f, fs[i].name), func(u *run.U) {
					r := e2e.NewRig(21, hT.a, hT.b, hT.z)
					defer r.Close()
					l := rl.make(f)
					fs := failures(l, false)
					var seq []int
					u.Cur(func() string {
						d := ""
						for _, x := range seq {
							d += fs[x].name + "; "
						}
						return d
					})
					play := func() {
						s := newStory(u, r, l)
						st := ""
						for _, x := range seq {
							fs[x].run(s)
							st += fmt.Sprint(s.accepted, ",")
							u.State(run.Hash(rl.name, fmt.Sprint(f), st))
						}
						s.finish()
						u.Eval(1)
						u.Trace(1)
						u.Trans(int64(len(seq) + 1))
					}
					seq = []int{i}
					play()
					for j := range fs {
						seq = append(seq[:1], j)
						play()
					}
					u.Sample("%s then %s", fs[i].name, fs[seq[len(seq)-1]].name)
				}))
			}
		}
	}
	us = append(us, refusalUnits(false)...)
	us = append(us, tripleUnits(th)...)
	// every history of a few operations, every packet, every way to end
	ops := []hop{opBegin, opXID, opRoll, opInsA, opCreate, opRotate, opCrash}
	us = append(us, histUnits(tier, "failure anywhere in", ops, 4, 5, func(u *run.U, r *e2e.Rig, c *hctx, f formatT) {
		fs := failures(c.l, false)
		for i := range fs {
			s := newStory(u, r, c.l)
			fs[i].run(s)
			s.finish()
			u.Extra("failures injected into the small histories", 1)
		}
	})...)
	us = append(us, scaleFailures(th)...)
	us = append(us, attemptUnits(th)...)
	return us
}
