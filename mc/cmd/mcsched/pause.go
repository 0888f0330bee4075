//go:build verifsched

package main

import (
	"context"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/Breeze0806/gobinlog"

	"verif/e2e"
	"verif/fm"
	"verif/ref"
	"verif/run"
)

// Lives of a streamer in which time passes: at stated places somebody (the
// master, the handler, the table lookup, the caller) takes a stated time. Time
// is simulated, so that a month costs nothing and nothing depends on the speed
// of the machine; the goroutines are not controlled here.

// place is where time passes.
type place struct {
	kind string // silence, handler, lookup, idle (before a Stream call), error (before Error())
	n    int    // which packet, handler call, lookup
	all  bool   // every one
}

func (p place) String() string {
	if p.all {
		return "every " + p.kind
	}
	return fmt.Sprintf("%s %d", p.kind, p.n)
}

type wait struct {
	place
	d time.Duration
}

// try is one Stream call of a life.
type try struct {
	end    fm.End
	cut    int // packets served, -1 all
	fail   int // handler call that fails, -1 none
	lookup bool
	cancel time.Duration // after the call of Stream; 0 never
	waits  []wait
}

func (t try) String() string {
	s := endNames[t.end]
	if t.cut >= 0 {
		s += fmt.Sprintf(" after %d packets", t.cut)
	}
	if t.fail >= 0 {
		s += fmt.Sprintf(", handler call %d fails", t.fail)
	}
	if t.lookup {
		s += ", the lookup fails"
	}
	if t.cancel != 0 {
		s += fmt.Sprintf(", cancelled after %v", t.cancel)
	}
	for _, w := range t.waits {
		s += fmt.Sprintf(", %v at %v", w.d, w.place)
	}
	return "[" + s + "]"
}

// life is what happens to a streamer.
type life struct {
	log        *ref.Log
	tries      []try
	chunk      int
	lag        time.Duration
	timeout    time.Duration // the data source name's read timeout
	background bool          // the caller passes context.Background()
}

func (l *life) String() string {
	s := fmt.Sprint(l.tries)
	if l.chunk > 0 {
		s += fmt.Sprintf(", %d bytes every %v", l.chunk, l.lag)
	}
	if l.timeout > 0 {
		s += fmt.Sprintf(", readTimeout=%v", l.timeout)
	}
	return s
}

// lived is one life being lived.
type lived struct {
	*life
	u       *run.U
	prop    string
	r       *e2e.Rig
	a       int // attempt
	calls   int
	lookups int
	inside  bool
	acc     []*gobinlog.Transaction
	saw     []string // what each looked like when it was delivered
	at      []int    // accepted during attempt
	resumed string
	ps      []ref.Packet
	canced  time.Time
	ended   time.Time // the end of the script was sent
	failed  time.Time // the handler or the lookup failed
	last    time.Time // last handler call or lookup returned
}

func (v *lived) fail(format string, a ...interface{}) {
	v.u.FailNow("fail", "%s", fmt.Sprintf(format, a...))
}

func (v *lived) pause(kind string, n int) time.Duration { return v.tries[v.a].pause(kind, n) }

func (t *try) pause(kind string, n int) time.Duration {
	var d time.Duration
	for _, w := range t.waits {
		if w.kind == kind && (w.all || w.n == n) {
			d += w.d
		}
	}
	return d
}

// The reader, the timer and the caller meet here without being ordered by it.

//go:norace
func (v *lived) noteEnded() { v.ended = time.Now() }

//go:norace
func (v *lived) noteCancelled() { v.canced = time.Now() }

//go:norace
func (v *lived) notePackets(ps []ref.Packet) { v.ps = ps }

//go:norace
func (v *lived) fresh() {
	v.canced, v.ended, v.failed, v.last = time.Time{}, time.Time{}, time.Time{}, time.Time{}
}

//go:norace
func (v *lived) times() (canced, ended time.Time) { return v.canced, v.ended }

const soon = 10 * time.Minute

// long bounds all the waits of the life.
func (l *life) long() time.Duration {
	n := time.Duration(0)
	for _, t := range l.tries {
		for _, w := range t.waits {
			if w.all {
				n += 30 * w.d
			} else {
				n += w.d
			}
		}
		n += t.cancel
		if l.chunk > 0 {
			n += time.Duration(2000/l.chunk) * l.lag
		}
	}
	return n + 3*l.timeout
}

// pauseLog has rows of three tables, statements and a rotation.
func pauseLog(crc bool) *ref.Log {
	l := ref.NewLog(ref.Options{CRC: crc, V2: true})
	l.Begin("BEGIN")
	l.TableMap(7, table)
	l.Rows(ref.Write, 7, nil, []ref.Image{cell(5)}, true)
	l.XID()
	l.Statement("drop", "d", "drop table x")
	l.Rotate(ref.FileName(0, 2))
	l.Begin("BEGIN")
	l.TableMap(8, table2)
	l.Rows(ref.Update, 8, []ref.Image{append(cell(1), cell(2)...)}, []ref.Image{append(cell(3), cell(4)...)}, true)
	l.Commit("COMMIT")
	return l
}

// live lives the life and judges it.
func live(u *run.U, prop string, l *life) {
	u.Cur(func() string { return l.String() })
	if theRig == nil {
		theRig = e2e.NewRig(4, table, table2)
		twinRig = e2e.NewRig(5, table, table2)
	}
	v := &lived{life: l, u: u, prop: prop, r: theRig}
	runtime.VerifReset()
	runtime.VerifOn(false)
	runtime.VerifBubble(func() {
		base := runtime.VerifBubbleTotal()
		// C03 streams again from every label
		forever := time.Duration(len(l.log.Trans)+2)*l.long() + 30*days
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() {
				if p := recover(); p != nil {
					v.u.FailNow("panic", "panic: %v", p)
				}
			}()
			v.run(prop)
		}()
		select {
		case <-done:
		case <-time.After(forever):
			if prop != "C05" {
				v.u.FailNow("fail", "the life does not end: %d attempts made, %d transactions accepted", v.a, len(v.acc))
			}
			buf := make([]byte, 1<<20)
			v.fail("a call never returns (attempt %d)\n%s", v.a, bubbleStacks(buf[:runtime.Stack(buf, true)]))
		}
		for i := 0; ; i++ {
			runtime.VerifWait()
			if runtime.VerifBubbleTotal() == base {
				break
			}
			if i == 4 {
				if prop == "C05" {
					buf := make([]byte, 1<<20)
					v.fail("%d goroutines remain %v after the end\n%s", runtime.VerifBubbleTotal()-base, soon, bubbleStacks(buf[:runtime.Stack(buf, true)]))
				}
				u.FailNow("fail", "goroutines remain")
			}
			time.Sleep([]time.Duration{time.Second, time.Minute, soon, forever}[i])
			if prop == "C05" && i == 3 {
				v.fail("goroutines remain for more than %v after the end", soon)
			}
		}
	})
	v.u.Eval(1)
	v.u.Trace(1)
	v.u.State(run.Hash(l.String()))
}

func (v *lived) run(prop string) {
	r := v.r
	if v.timeout > 0 {
		r.DSN = func(addr string) string {
			return fmt.Sprintf("u:p@mem(%s)/db?readTimeout=%v&writeTimeout=%v", addr, v.timeout, v.timeout)
		}
		defer func() { r.DSN = nil }()
	}
	r.Fresh()
	r.Mapper.Reset()
	r.M.Hook = nil
	r.Mapper.Hook = func() { time.Sleep(v.pause("lookup", v.lookups)) }
	r.Mapper.Fail = func(n int, _ gobinlog.MysqlTableName) error {
		v.lookups++
		v.last = time.Now()
		if v.tries[v.a].lookup {
			v.failed = time.Now()
			return e2e.ErrMapper
		}
		return nil
	}
	f, o := v.log.StartPos()
	r.S.SetBinlogPosition(e2e.Pos(f, o))
	for a, t := range v.tries {
		v.a, v.calls, v.lookups = a, 0, 0
		v.fresh()
		t := t
		r.M.Dump = func(n int, q fm.Request) *fm.Script {
			ps, err := v.log.Serve(q.File, int64(q.Pos))
			if err != nil {
				return &fm.Script{End: fm.EndERR, ErrCode: 1236, ErrMsg: err.Error()}
			}
			if t.cut >= 0 && t.cut < len(ps) {
				ps = ps[:t.cut]
			}
			v.notePackets(ps)
			s := e2e.ScriptOf(ps, t.end)
			s.Pause = func(i int) time.Duration { return t.pause("silence", i) }
			s.Chunk, s.Lag = v.chunk, v.lag
			total := len(ps)
			s.OnPacket = func(i int) {
				if i == total && t.end != fm.EndHang {
					v.noteEnded()
				}
			}
			return s
		}
		time.Sleep(v.pause("idle", 0))
		n0 := len(r.M.Conns())
		k := len(v.acc)
		ctx, cancel := context.Background(), context.CancelFunc(func() {})
		if t.cancel != 0 {
			ctx, cancel = context.WithCancel(ctx)
			tm := time.AfterFunc(t.cancel, func() {
				v.noteCancelled()
				cancel()
			})
			defer tm.Stop()
		} else if !v.background {
			ctx, cancel = context.WithCancel(ctx)
		}
		v.inside = true
		err := r.S.Stream(ctx, v.handle)
		v.inside = false
		back := time.Now()
		canced, _ := v.times()
		wasCancelled := !canced.IsZero()
		time.Sleep(v.pause("error", 0))
		e1 := r.S.Error()
		time.Sleep(v.pause("error", 1))
		e2 := r.S.Error()
		called := time.Now()
		canced, ended := v.times()
		v.u.Trans(1)
		switch prop {
		case "C01":
			if a == len(v.tries)-1 {
				if e := e2e.CompareAll(v.acc, v.log.Trans); e != nil {
					v.fail("%v (Stream: %v, Error(): %v)", e, err, e1)
				}
			}
		case "C02", "C03":
			// what is delivered must be right; that it is complete is C01's
			if e := e2e.CompareAll(v.acc, v.log.Trans[:min(len(v.acc), len(v.log.Trans))]); e != nil {
				v.fail("%v (Stream: %v, Error(): %v)", e, err, e1)
			}
			if prop == "C03" && v.resumed == "" {
				v.resume()
			}
		case "C08":
			time.Sleep(time.Second)
			for i, t := range v.acc {
				if now := looks(t); now != v.saw[i] {
					v.fail("transaction %d was delivered as\n%s\nand is now\n%s", i, v.saw[i], now)
				}
			}
		case "C04":
			v.judgeResume(a, n0, k)
			if a == len(v.tries)-1 {
				if e := e2e.CompareAll(v.acc, v.log.Trans); e != nil {
					v.fail("accepted in attempts %v: %v (last Stream: %v, Error(): %v)", v.at, e, err, e1)
				}
			}
		case "C05":
			since := back
			for _, t := range []time.Time{canced, ended, v.failed} {
				if !t.IsZero() && t.Before(since) {
					since = t
				}
			}
			if v.last.After(since) {
				since = v.last
			}
			if back.Sub(since) > soon && v.timeout == 0 && v.chunk == 0 {
				v.fail("attempt %d: Stream returns %v after the reason to end (cancelled %v, end of the stream %v, failure %v)", a, back.Sub(since), canced, ended, v.failed)
			}
			if wait := called.Sub(back) - v.pause("error", 0) - v.pause("error", 1); wait > soon {
				v.fail("attempt %d: two Error() calls take %v", a, wait)
			}
			if e1 != nil || e2 != nil || err != nil || wasCancelled || !ended.IsZero() {
				// over: by now the connection must go
				time.Sleep(soon)
			}
			for i, c := range r.M.Conns() {
				if !c.Dead && !c.Closed() {
					v.fail("attempt %d: %v after its end connection %d is open", a, soon, i)
				}
			}
		case "C06":
			if err == nil && !v.failed.IsZero() {
				v.fail("attempt %d: the handler or the lookup failed and Stream returned nil", a)
			}
			if err == nil && !wasCancelled && (t.end != fm.EndEOF || ended.IsZero()) {
				for i, e := range []error{e1, e2} {
					if e == nil {
						v.fail("attempt %d: the stream ended without a cancellation or EOF and Error() call %d reports a clean end", a, i+1)
					}
					if t.end == fm.EndERR && !ended.IsZero() && v.timeout == 0 && !strings.Contains(e.Error(), "injected master error") {
						v.fail("attempt %d: Error() call %d does not carry the master's message: %v", a, i+1, e)
					}
				}
			}
		case "C07":
			v.judgeRequests(a, n0, k)
		}
		cancel()
	}
}

// resume starts a stream at every delivered label.
func (v *lived) resume() {
	for i, t := range v.acc {
		v.resumed = fmt.Sprint(t.NextPosition)
		s, err := gobinlog.NewStreamer(v.r.M.DSN(), v.r.ServerID, v.r.Mapper)
		if err != nil {
			v.fail("%v", err)
		}
		s.SetBinlogPosition(t.NextPosition)
		var got []*gobinlog.Transaction
		v.calls = 1000 // no waits
		err = s.Stream(context.Background(), func(t *gobinlog.Transaction) error {
			got = append(got, t)
			return nil
		})
		want := v.log.Trans[i+1:]
		if len(got) < len(want) && err == nil {
			err = s.Error()
		}
		if e := e2e.CompareAll(got, want[:min(len(got), len(want))]); e != nil || len(got) > len(want) {
			v.fail("from %s: %v (%d transactions, want %d)", v.resumed, e, len(got), len(want))
		}
	}
}

// looks is everything a transaction says.
func looks(t *gobinlog.Transaction) string {
	var b strings.Builder
	fmt.Fprint(&b, t.NowPosition, t.NextPosition, t.Timestamp)
	for _, e := range t.Events {
		fmt.Fprint(&b, "; ", e.Type, e.Table, e.Timestamp, fmt.Sprintf("%q %q", e.Query.SQL, e.Query.Database))
		for _, rs := range [][]*gobinlog.RowData{e.RowIdentifies, e.RowValues} {
			fmt.Fprint(&b, " rows ", len(rs))
			for _, r := range rs {
				for _, c := range r.Columns {
					fmt.Fprintf(&b, " %s %v %v %q", c.Filed, c.Type, c.IsEmpty, c.Data)
				}
			}
		}
	}
	return b.String()
}

func (v *lived) handle(t *gobinlog.Transaction) error {
	n := v.calls
	v.calls++
	v.saw = append(v.saw[:len(v.acc)], looks(t))
	if cs := v.r.M.Conns(); v.prop == "C02" && len(v.ps) > 0 {
		done := 0
		if sent := cs[len(cs)-1].Sent(); sent > 0 {
			done = v.ps[min(sent, len(v.ps))-1].Done
		}
		if done < len(v.acc)+1 {
			v.fail("transaction %d is delivered before its commit event has been sent", len(v.acc))
		}
	}
	time.Sleep(v.pause("handler", n))
	v.last = time.Now()
	if v.tries[v.a].fail == n {
		v.failed = time.Now()
		return errLate
	}
	v.acc = append(v.acc, t)
	v.at = append(v.at, v.a)
	return nil
}

// boundary after k accepted transactions.
func (v *lived) boundary(k int) (string, int64) {
	if k == 0 {
		return v.log.StartPos()
	}
	t := v.log.Trans[k-1]
	return t.NextFile, t.NextOff
}

func (v *lived) judgeResume(a, n0, k int) {
	cs := v.r.M.Conns()
	f, o := v.boundary(k)
	for _, c := range cs[n0:] {
		for _, q := range c.Requests() {
			if q.Cmd == 0x12 && (q.File != f || int64(q.Pos) != o) && !(q.Pos == 4 && q.File > f) {
				v.fail("attempt %d resumes at %s:%d, the boundary after the last accepted transaction is %s:%d", a, q.File, q.Pos, f, o)
			}
		}
	}
}

func (v *lived) judgeRequests(a, n0, k int) {
	dumps, sets := 0, 0
	for _, c := range v.r.M.Conns()[n0:] {
		for _, q := range c.Requests() {
			switch {
			case q.Cmd == 3 && strings.Contains(strings.ToLower(q.Query), "@master_binlog_checksum"):
				if dumps == 0 {
					sets++
				}
			case q.Cmd == 0x12:
				if sets == 0 {
					v.fail("attempt %d asks for the dump without having announced checksums", a)
				}
				dumps++
				if q.Flags&1 != 0 {
					v.fail("attempt %d: a non-blocking dump", a)
				}
				if q.ServerID != v.r.ServerID {
					v.fail("attempt %d: server id %d, want %d", a, q.ServerID, v.r.ServerID)
				}
			}
		}
	}
	if dumps != 1 {
		v.fail("attempt %d: %d dump requests", a, dumps)
	}
	v.judgeResume(a, n0, k)
}

var days = 24 * time.Hour

func durations(tier string) []time.Duration {
	ds := []time.Duration{time.Millisecond, 100 * time.Millisecond, time.Second, 3 * time.Second, 10 * time.Second, 31 * time.Second, time.Minute + time.Second,
		6 * time.Minute, 11 * time.Minute, 31 * time.Minute, time.Hour + time.Second, 9 * time.Hour, 25 * time.Hour, 31 * days, 400 * days}
	return ds
}

// causes that end a try after its waits
var pauseEnds = []fm.End{fm.EndEOF, fm.EndERR, fm.EndClose, fm.EndReset, fm.EndTrunc, fm.EndSeq, fm.EndEmpty}

func pauseUnits(prop string) func(tier string) []run.Unit {
	return func(tier string) []run.Unit {
		th := tier == "thorough"
		var us []run.Unit
		ds := durations(tier)
		full := try{end: fm.EndEOF, cut: -1, fail: -1}
		for _, crc := range []bool{false, true} {
			crc := crc
			l := pauseLog(crc)
			f, o := l.StartPos()
			ps, err := l.Serve(f, o)
			if err != nil {
				panic(err)
			}
			var places []place
			for i := 0; i <= len(ps); i++ {
				places = append(places, place{kind: "silence", n: i})
			}
			for i := range l.Trans {
				places = append(places, place{kind: "handler", n: i})
			}
			for i := 0; i < 2; i++ {
				places = append(places, place{kind: "lookup", n: i}, place{kind: "error", n: i})
			}
			places = append(places, place{kind: "idle"})
			for _, k := range []string{"silence", "handler", "lookup"} {
				places = append(places, place{kind: k, all: true})
			}
			name := func(s string) string { return fmt.Sprintf("time passes, %s, checksums %v", s, crc) }
			do := func(s string, run1 func(u *run.U, lv func(*life))) {
				us = append(us, run.Unit{Name: name(s), Run: func(u *run.U) {
					var lives []*life
					run1(u, func(x *life) {
						x.log = l
						lives = append(lives, x)
					})
					// short ones first
					sort.SliceStable(lives, func(i, j int) bool { return lives[i].long() < lives[j].long() })
					for _, x := range lives {
						live(u, prop, x)
					}
				}})
			}
			ends := pauseEnds
			if prop == "C01" || prop == "C03" {
				ends = ends[:1]
			}
			for _, bg := range []bool{false, true} {
				bg := bg
				do(fmt.Sprintf("one place, background context %v", bg), func(u *run.U, lv func(*life)) {
					for _, p := range places {
						for _, d := range ds {
							for _, e := range ends {
								t := full
								t.end, t.waits = e, []wait{{p, d}}
								x := &life{tries: []try{t}, background: bg}
								if prop == "C04" {
									x.tries = append(x.tries, full)
								}
								lv(x)
							}
						}
					}
				})
			}
			do("two places", func(u *run.U, lv func(*life)) {
				for i, p := range places {
					for _, q := range places[i+1:] {
						for _, d := range []time.Duration{time.Second, 31 * time.Second, time.Hour, 25 * time.Hour} {
							for _, d2 := range []time.Duration{time.Second, 31 * time.Second, time.Hour, 25 * time.Hour} {
								if !th && d != d2 && d != time.Second && d2 != time.Second {
									continue
								}
								t := full
								t.waits = []wait{{p, d}, {q, d2}}
								lv(&life{tries: []try{t}})
							}
						}
					}
				}
			})
			if th {
				for k, e := range []fm.End{fm.EndEOF, fm.EndReset} {
					if k >= len(ends) {
						continue
					}
					e := e
					do("three places, ends with "+endNames[e], func(u *run.U, lv func(*life)) {
						dd := []time.Duration{time.Second, 31 * time.Second, 11 * time.Minute, time.Hour, 25 * time.Hour}
						for i, p := range places {
							for j := i + 1; j < len(places); j++ {
								for k := j + 1; k < len(places); k++ {
									for n := 0; n < len(dd)*len(dd)*len(dd); n++ {
										t := full
										t.end = e
										t.waits = []wait{{p, dd[n%len(dd)]}, {places[j], dd[n/len(dd)%len(dd)]}, {places[k], dd[n/len(dd)/len(dd)]}}
										lv(&life{tries: []try{t}})
									}
								}
							}
						}
					})
				}
			}
			do("packets in pieces", func(u *run.U, lv func(*life)) {
				for _, c := range []int{1, 2, 3, 4, 5, 7, 16, 50} {
					for _, d := range ds {
						if d > 25*time.Hour {
							continue
						}
						for _, e := range ends {
							t := full
							t.end = e
							x := &life{tries: []try{t}, chunk: c, lag: d}
							if prop == "C04" {
								x.tries = append(x.tries, full)
							}
							lv(x)
						}
					}
				}
			})
			if prop == "C02" || prop == "C03" {
				continue
			}
			do("many attempts", func(u *run.U, lv func(*life)) {
				for _, d := range ds {
					for n := 1; n <= 12; n++ {
						var ts []try
						for i := 0; i < n; i++ {
							t := full
							t.end, t.cut = pauseEnds[(i+n)%len(pauseEnds)], i
							t.waits = []wait{{place{kind: "idle"}, d}}
							ts = append(ts, t)
						}
						lv(&life{tries: append(ts, full)})
					}
				}
			})
			if prop == "C01" {
				continue
			}
			// stops in the middle of the waits
			do("cancelled in between", func(u *run.U, lv func(*life)) {
				for _, p := range places {
					if p.kind == "idle" || p.kind == "error" {
						continue
					}
					for _, d := range ds {
						for _, c := range []time.Duration{d / 2, d, d + 1, 2 * d} {
							for _, e := range []fm.End{fm.EndHang, fm.EndEOF, fm.EndReset} {
								t := full
								t.end, t.cancel, t.waits = e, c, []wait{{p, d}}
								x := &life{tries: []try{t}}
								if prop == "C04" {
									x.tries = append(x.tries, full)
								}
								lv(x)
							}
						}
					}
				}
			})
			do("failures after waits", func(u *run.U, lv func(*life)) {
				for _, p := range places {
					for _, d := range ds {
						for k := 0; k <= len(l.Trans); k++ {
							t := full
							t.waits = []wait{{p, d}}
							if k < len(l.Trans) {
								t.fail = k
							} else {
								t.lookup = true
							}
							s := full
							s.waits = []wait{{place{kind: "idle"}, d}}
							lv(&life{tries: []try{t, s}})
							if k < len(l.Trans) {
								t.end = fm.EndReset
								lv(&life{tries: []try{t, s}})
							}
						}
					}
				}
			})
			do("read timeouts", func(u *run.U, lv func(*life)) {
				for _, p := range places {
					for _, d := range ds {
						for _, lim := range []time.Duration{time.Second, time.Minute, time.Hour, 24 * time.Hour} {
							t := full
							t.waits = []wait{{p, d}}
							lv(&life{tries: []try{t, full}, timeout: lim})
							t.cancel = d / 2
							lv(&life{tries: []try{t, full}, timeout: lim})
						}
					}
				}
			})
			do("two attempts, ends and waits", func(u *run.U, lv func(*life)) {
				for cut := 0; cut <= len(ps); cut++ {
					for _, e := range pauseEnds {
						for i, d := range ds {
							t := full
							t.cut, t.end, t.waits = cut, e, []wait{{place{kind: "silence", n: cut}, d}, {place{kind: "error", n: 0}, ds[(i+3)%len(ds)]}}
							s := full
							s.waits = []wait{{place{kind: "idle"}, d}, {place{kind: "silence", n: cut}, d}}
							lv(&life{tries: []try{t, s}})
						}
					}
				}
			})
		}
		return us
	}
}
