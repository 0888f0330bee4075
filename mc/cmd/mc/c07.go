package main

import (
	"context"
	"errors"
	"fmt"
	"regexp"
	"strings"

	"github.com/Breeze0806/gobinlog"

	"verif/e2e"
	"verif/fm"
	"verif/ref"
	"verif/run"
)

var setChecksum = regexp.MustCompile(`(?is)^\s*set\s.*@master_binlog_checksum\s*:?=`)

// handshake judges the requests of one Stream call.
func handshake(u *run.U, r *e2e.Rig, a *e2e.Attempt, conns []*fm.Conn, id uint32, pos map[string]bool, wantDump bool) {
	dumps := 0
	for _, c := range conns {
		announced := false
		for _, q := range c.Requests() {
			switch q.Cmd {
			case 3:
				if setChecksum.MatchString(q.Query) {
					announced = true
				}
			case 0x12:
				dumps++
				if !announced {
					u.Fail("a dump was requested before @master_binlog_checksum was set: %+v", c.Requests())
				}
				if q.ServerID != id {
					u.Fail("the dump carries server id %d, want %d", q.ServerID, id)
				}
				if q.Flags&1 != 0 {
					u.Fail("the dump is not a blocking one: flags %#x", q.Flags)
				}
				if q.Flags != 0 {
					u.Fail("the dump carries flags %#x", q.Flags)
				}
				if !pos[fmt.Sprintf("%s:%d", q.File, q.Pos)] {
					u.Fail("the dump asks for %q:%d, want one of %v", q.File, q.Pos, pos)
				}
			case 0x1e, 0x15:
				u.Fail("unexpected replication command %#x", q.Cmd)
			}
		}
	}
	if dumps > 1 || wantDump && dumps == 0 || !wantDump && dumps > 0 {
		u.Fail("%d dump requests, want one: %v (Stream: %v)", dumps, wantDump, a.Err)
	}
}

func c07Units(tier string) []run.Unit {
	th := tier == "thorough"
	var us []run.Unit
	one := func(u *run.U, r *e2e.Rig, id uint32, file string, off int64) {
		r.ServerID = id
		r.Fresh()
		r.M.Dump = func(int, fm.Request) *fm.Script { return &fm.Script{End: fm.EndEOF} }
		r.S.SetBinlogPosition(e2e.Pos(file, off))
		a := r.Run(context.Background(), nil)
		if a.Panic != nil {
			u.Fail("panic %v", a.Panic)
		}
		handshake(u, r, a, r.M.Conns(), id, map[string]bool{fmt.Sprintf("%s:%d", file, off): true}, true)
		u.Eval(1)
		u.Trace(1)
		u.Trans(2)
		u.State(run.Hash(fmt.Sprint(id, file, off)))
	}
	mk := func(name string, parts int, f func(u *run.U, r *e2e.Rig, part, parts int, cur *string)) {
		us = append(us, split(name, parts, func(u *run.U, part, parts int) {
			var cur string
			u.Cur(func() string { return cur })
			r := e2e.NewRig(1, hT.a, hT.b, hT.z)
			defer r.Close()
			f(u, r, part, parts, &cur)
			u.Sample("%s", cur)
		})...)
	}
	mk("server ids", 4, func(u *run.U, r *e2e.Rig, part, parts int, cur *string) {
		for i, v := range bitsOf(32) {
			if i%parts != part {
				continue
			}
			*cur = fmt.Sprintf("server id %d", v)
			one(u, r, uint32(v), "mysql-bin.000001", 4)
			one(u, r, uint32(v), "b", int64(uint32(v)))
		}
	})
	mk("offsets", 4, func(u *run.U, r *e2e.Rig, part, parts int, cur *string) {
		vs := bitsOf(32)
		for _, b := range []uint64{0, 1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 24, 1 << 31, 1<<32 - 70} {
			for d := uint64(0); d < 64; d++ {
				vs = append(vs, b+d)
			}
		}
		for i, v := range vs {
			if i%parts != part {
				continue
			}
			*cur = fmt.Sprintf("offset %d", v)
			one(u, r, 7, "mysql-bin.000001", int64(v&(1<<32-1)))
		}
	})
	mk("file names", 4, func(u *run.U, r *e2e.Rig, part, parts int, cur *string) {
		var names []string
		for n := 0; n <= 512; n++ {
			names = append(names, strings.Repeat("n", n))
		}
		for b := 1; b < 256; b++ {
			names = append(names, string([]byte{byte(b)}), "a"+string([]byte{byte(b)})+"b")
		}
		names = append(names, "/var/log/mysql/bin log.000001", "mysql-bin.999999", "mysql-bin.1000000", "表.000001", "a'b\"c`d\\e", " lead", "trail ", "MiXed.000001", strings.Repeat("é", 100), strings.Repeat("x", 4000))
		for i, n := range names {
			if i%parts != part {
				continue
			}
			*cur = fmt.Sprintf("file name %.80q (%d bytes)", n, len(n))
			one(u, r, 1<<31+5, n, int64(120+i))
			one(u, r, 3, n, 4)
		}
	})
	mk("data source names", 1, func(u *run.U, r *e2e.Rig, _, _ int, cur *string) {
		defer func() { r.DSN = nil }()
		l := richLogs()[1].make(formats[0])
		for _, user := range []string{"u:p@", "u@", "u:@", "", "u:p@w:o/r?d&=@", "user name:pass word@", "u:" + strings.Repeat("p", 100) + "@"} {
			for _, db := range []string{"", "mysql", "d-b", "ü"} {
				for _, params := range []string{"", "?", "?charset=utf8", "?charset=utf8mb4,utf8&collation=utf8mb4_general_ci", "?timeout=30s", "?readTimeout=10h&writeTimeout=10h", "?parseTime=true&loc=Local",
					"?interpolateParams=true&multiStatements=true", "?clientFoundRows=true&columnsWithAlias=true", "?checkConnLiveness=false&rejectReadOnly=true", "?sql_mode=%27ANSI%27", "?tls=false&allowNativePasswords=true",
					"?maxAllowedPacket=16777216", "?maxAllowedPacket=1048576", "?server_id=3&slave_uuid=%27x%27"} {
					*cur = fmt.Sprintf("user %.40q, database %q, parameters %q", user, db, params)
					r.DSN = func(addr string) string { return user + "mem(" + addr + ")/" + db + params }
					r.ServerID = 1 + uint32(len(*cur))
					r.Fresh()
					r.ServeLog(l, fm.EndEOF)
					f, o := l.StartPos()
					r.S.SetBinlogPosition(e2e.Pos(f, o))
					a := r.Run(context.Background(), nil)
					if a.Panic != nil || a.Err != nil || a.ErrErr != nil {
						u.Fail("panic %v, Stream: %v, Error(): %v", a.Panic, a.Err, a.ErrErr)
					}
					handshake(u, r, a, r.M.Conns(), r.ServerID, map[string]bool{fmt.Sprintf("%s:%d", f, o): true}, true)
					if err := e2e.CompareAll(a.Trans, l.Trans); err != nil {
						u.Fail("%v", err)
					}
					u.Eval(1)
					u.Trace(1)
					u.Trans(2)
					u.State(run.Hash(*cur))
				}
			}
		}
	})
	mk("faults before the dump", 1, func(u *run.U, r *e2e.Rig, _, _ int, cur *string) {
		for _, x := range faults() {
			for rep := 0; rep < 3; rep++ {
				*cur = fmt.Sprintf("%s, %d attempts", x.name, rep+1)
				r.ServerID = 77
				r.Fresh()
				r.M.Fault = func(k int) fm.Fault {
					if k <= rep {
						return x.f
					}
					return fm.Fault{}
				}
				l := richLogs()[0].make(formats[rep])
				r.ServeLog(l, fm.EndEOF)
				f, o := l.StartPos()
				r.S.SetBinlogPosition(e2e.Pos(f, o))
				p := map[string]bool{fmt.Sprintf("%s:%d", f, o): true}
				for k := 0; k <= rep; k++ {
					n := len(r.M.Conns())
					a := r.Run(context.Background(), nil)
					if a.Panic != nil {
						u.Fail("panic %v", a.Panic)
					}
					handshake(u, r, a, r.M.Conns()[n:], 77, p, x.f.DumpWrErr)
				}
				n := len(r.M.Conns())
				a := r.Run(context.Background(), nil)
				handshake(u, r, a, r.M.Conns()[n:], 77, p, true)
				if err := e2e.CompareAll(a.Trans, l.Trans); err != nil {
					u.Fail("%v", err)
				}
				u.Eval(1)
				u.Trace(1)
				u.Trans(int64(rep + 2))
				u.State(run.Hash(*cur))
			}
		}
	})
	// sequences of attempts: every outcome, and new positions in between
	depth := 4
	if th {
		depth = 6
	}
	type act struct {
		name string
		f    func(s *c07Story)
	}
	acts := []act{
		{"clean", func(s *c07Story) { s.stream(nil, -1, fm.EndEOF, nil) }},
		{"reset after 5 packets", func(s *c07Story) { s.stream(nil, 5, fm.EndReset, nil) }},
		{"error packet after 9", func(s *c07Story) { s.stream(nil, 9, fm.EndERR, nil) }},
		{"handler rejects the second", func(s *c07Story) {
			s.stream(nil, -1, fm.EndEOF, func(n int) error {
				if n == 1 {
					return e2e.ErrHandler
				}
				return nil
			})
		}},
		{"set checksum refused", func(s *c07Story) { s.stream(&fm.Fault{QueryERR: true}, -1, fm.EndEOF, nil) }},
		{"dial error", func(s *c07Story) { s.stream(&fm.Fault{DialErr: errors.New("refused")}, -1, fm.EndEOF, nil) }},
		{"dump write fails", func(s *c07Story) { s.stream(&fm.Fault{DumpWrErr: true}, -1, fm.EndEOF, nil) }},
		{"position := start", func(s *c07Story) { s.set(0) }},
		{"position := a later boundary", func(s *c07Story) { s.set(2) }},
		{"position := the last file", func(s *c07Story) { s.set(-1) }},
	}
	for i := range acts {
		i := i
		mk(fmt.Sprintf("sequences of %d starting with %s", depth, acts[i].name), 1, func(u *run.U, r *e2e.Rig, _, _ int, cur *string) {
			var seq []int
			var rec func()
			rec = func() {
				if len(seq) == depth {
					k := 0
					*cur = ""
					for _, x := range seq {
						*cur += acts[x].name + "; "
						k = k*3 + x
					}
					f := formats[k%len(formats)]
					*cur += f.String()
					s := newC07Story(u, r, f, uint32(k*2654435761))
					for _, x := range seq {
						acts[x].f(s)
						u.State(run.Hash(fmt.Sprint(s.pos), f.String()))
					}
					acts[0].f(s)
					u.Eval(1)
					u.Trace(1)
					u.Trans(int64(depth + 1))
					return
				}
				for x := range acts {
					seq = append(seq, x)
					rec()
					seq = seq[:len(seq)-1]
				}
			}
			seq = append(seq, i)
			rec()
		})
	}
	us = append(us, attemptUnits(th)...)
	return us
}

// c07Story follows the position a streamer must ask for.
type c07Story struct {
	u   *run.U
	r   *e2e.Rig
	l   *ref.Log
	id  uint32
	pos map[string]bool // what the next dump may ask for
	cur gobinlog.Position
}

func newC07Story(u *run.U, r *e2e.Rig, f formatT, id uint32) *c07Story {
	r.ServerID = id
	r.Fresh()
	s := &c07Story{u: u, r: r, l: richLogs()[3].make(f), id: id}
	s.set(0)
	return s
}

func (s *c07Story) set(n int) {
	f, o := s.l.StartPos()
	switch {
	case n > 0:
		f, o = s.l.Trans[n-1].NextFile, s.l.Trans[n-1].NextOff
	case n < 0:
		f, o = s.l.Files[len(s.l.Files)-1].Name, 4
	}
	s.r.S.SetBinlogPosition(e2e.Pos(f, o))
	s.cur = e2e.Pos(f, o)
	s.pos = map[string]bool{fmt.Sprintf("%s:%d", f, o): true}
}

func (s *c07Story) stream(fault *fm.Fault, cut int, end fm.End, handler func(n int) error) {
	u, r := s.u, s.r
	r.M.Fault = nil
	if fault != nil {
		r.M.Fault = func(int) fm.Fault { return *fault }
	}
	r.M.Dump = func(_ int, q fm.Request) *fm.Script {
		ps, err := s.l.Serve(q.File, int64(q.Pos))
		if err != nil {
			u.FailKey("", "the master cannot serve %s:%d: %v", q.File, q.Pos, err)
			return &fm.Script{End: fm.EndERR, ErrCode: 1236, ErrMsg: err.Error()}
		}
		if cut >= 0 && cut < len(ps) {
			ps = ps[:cut]
		}
		return e2e.ScriptOf(ps, end)
	}
	n := len(r.M.Conns())
	a := r.Run(context.Background(), func(n int, _ *gobinlog.Transaction) error {
		if handler != nil {
			return handler(n)
		}
		return nil
	})
	if a.Panic != nil {
		u.Fail("panic %v", a.Panic)
	}
	handshake(u, r, a, r.M.Conns()[n:], s.id, s.pos, fault == nil || fault.DumpWrErr)
	// the next dump asks for the boundary after the last accepted
	// transaction, or the target of a rotation read since
	if k := len(a.Trans); k > 0 {
		s.cur = a.Trans[k-1].NextPosition
		s.pos = map[string]bool{}
	}
	s.pos[fmt.Sprintf("%s:%d", s.cur.Filename, s.cur.Offset)] = true
	seen := false
	for _, f := range s.l.Files {
		if seen {
			s.pos[f.Name+":4"] = true
		}
		seen = seen || f.Name == s.cur.Filename
	}
}
