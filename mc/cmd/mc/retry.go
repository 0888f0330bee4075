package main

import (
	"context"
	"fmt"

	"github.com/Breeze0806/gobinlog"

	"verif/e2e"
	"verif/fm"
	"verif/ref"
	"verif/run"
)

// story follows one streamer over several attempts and judges them against
// the log: what was accepted so far, and what the next dump may ask for.
type story struct {
	u        *run.U
	r        *e2e.Rig
	l        *ref.Log
	file     string // initial position
	off      int64
	want     []ref.Tran // all transactions after the initial position
	accepted int
	attempts int
	notes    []string
	keep     func(t *gobinlog.Transaction) // sees every handler call
	panics   bool                          // the handler or the mapper panics, which Stream passes on
}

func newStory(u *run.U, r *e2e.Rig, l *ref.Log) *story {
	f, o := l.StartPos()
	return storyFrom(u, r, l, f, o)
}

func storyFrom(u *run.U, r *e2e.Rig, l *ref.Log, f string, o int64) *story {
	r.Fresh()
	r.S.SetBinlogPosition(e2e.Pos(f, o))
	return &story{u: u, r: r, l: l, file: f, off: o, want: l.After(f, o)}
}

func (s *story) fail(format string, a ...interface{}) {
	s.u.Fail("%s\nattempts: %v\nlog: %s", fmt.Sprintf(format, a...), s.notes, s.l.Describe())
}

// positions lists where an attempt may resume with k transactions accepted:
// the boundary that follows them, or the target of a rotation after it.
func (s *story) positions(k int) map[string]bool {
	f, o := s.file, s.off
	if k > 0 {
		f, o = s.want[k-1].NextFile, s.want[k-1].NextOff
	}
	ok := map[string]bool{fmt.Sprintf("%s:%d", f, o): true}
	last := s.l.Files[len(s.l.Files)-1].Name
	if k < len(s.want) {
		last = s.want[k].NextFile
	}
	seen := false
	for _, x := range s.l.Files {
		if seen {
			ok[x.Name+":4"] = true
		}
		seen = seen || x.Name == f
		if x.Name == last {
			break
		}
	}
	return ok
}

// begin gives the label the next transaction must start with, given the
// position the dump asked for.
func (s *story) label(k int, file string, off int64) ref.Tran {
	w := s.want[k]
	// a rotation between the requested position and the commit event resets
	// the label; without one it is the requested position
	if w.NowFile == file {
		w.NowOff = off
	}
	return w
}

// attempt serves the script and makes one Stream call. serve changes what
// is sent for the truthful packets.
func (s *story) attempt(note string, ctx context.Context, serve func(ps []ref.Packet) *fm.Script, handler func(n int, t *gobinlog.Transaction) error) *e2e.Attempt {
	s.notes = append(s.notes, note)
	s.attempts++
	var req *fm.Request
	dumps := 0
	s.r.M.Dump = func(_ int, q fm.Request) *fm.Script {
		q2 := q
		req = &q2
		dumps++
		ps, err := s.l.Serve(q.File, int64(q.Pos))
		if err != nil {
			return &fm.Script{End: fm.EndERR, ErrCode: 1236, ErrMsg: err.Error()}
		}
		return serve(ps)
	}
	h := handler
	if s.keep != nil {
		h = func(n int, t *gobinlog.Transaction) error {
			s.keep(t)
			if handler != nil {
				return handler(n, t)
			}
			return nil
		}
	}
	a := s.r.Run(ctx, h)
	if a.Panic != nil && !(s.panics && a.Panic == e2e.ErrPanic) {
		s.fail("panic: %v", a.Panic)
	}
	if dumps > 1 {
		s.fail("%d dump requests in one attempt", dumps)
	}
	if req == nil {
		if len(a.Trans) > 0 || a.Calls > 0 {
			s.fail("deliveries without a dump request")
		}
		return a
	}
	if !s.positions(s.accepted)[fmt.Sprintf("%s:%d", req.File, req.Pos)] {
		s.fail("the attempt resumes at %s:%d with %d transactions accepted, want one of %v", req.File, req.Pos, s.accepted, s.positions(s.accepted))
	}
	for i, t := range a.Trans {
		k := s.accepted + i
		if k >= len(s.want) {
			s.fail("transaction accepted beyond the %d of the log: %v..%v", len(s.want), t.NowPosition, t.NextPosition)
		}
		w := s.want[k]
		if i == 0 {
			w = s.label(k, req.File, int64(req.Pos))
		}
		if err := e2e.Compare(t, &w); err != nil {
			s.fail("transaction %d (number %d accepted in this attempt, resumed at %s:%d): %v", k, i, req.File, req.Pos, err)
		}
	}
	s.accepted += len(a.Trans)
	return a
}

// finish makes a clean attempt and wants everything accepted exactly once.
func (s *story) finish() *e2e.Attempt {
	a := s.attempt("clean", context.Background(), func(ps []ref.Packet) *fm.Script { return e2e.ScriptOf(ps, fm.EndEOF) }, nil)
	if a.Err != nil || a.ErrErr != nil || a.Again != nil {
		s.fail("clean attempt: Stream: %v, Error(): %v, then %v", a.Err, a.ErrErr, a.Again)
	}
	if s.accepted != len(s.want) {
		s.fail("%d transactions accepted after all attempts, want %d", s.accepted, len(s.want))
	}
	return a
}
