//go:build verifsched

package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/Breeze0806/gobinlog"

	"verif/e2e"
	"verif/fm"
	"verif/ref"
	"verif/run"
)

// scen is one closed system to explore.
type scen struct {
	name     string
	prop     string
	log      *ref.Log
	cut      int // packets served, -1 all
	end      fm.End
	fault    fm.Fault
	connect  bool // scheduling points from the start, not only from the dump on
	cancel   bool // a thread that cancels
	custom   bool // a context type of the caller's own
	expires  bool // which does not say cancelled, but that its deadline has passed
	handler  string
	at       int // transaction the handler behaviour applies to
	mapFail  bool
	garble   int // packet made invalid, -1 none
	alien    int // packet preceded by an unsupported event, -1 none
	attempts int
	late     bool   // the cancellation may come during the second attempt
	second   fm.End // how the second attempt's stream ends
	secondFl fm.Fault
	mute     bool   // the caller never asks for the error
	twin     bool   // a second streamer of the process streams meanwhile
	delay    bool   // bound all deviations from the default schedule, not only preemptions
	bound    [2]int // preemptions, quick and thorough
	parts    int
}

type outcome struct {
	err, e1, e2 error
	returned    bool
	errored     int // Error() calls that returned
}

type world struct {
	sc     *scen
	rig    *e2e.Rig
	base   int
	armed  chan struct{}
	arming bool
	ctx    context.Context
	cancel context.CancelFunc

	clock    int
	tCancel  int // when cancel was called, 0 never
	tEnd     [2]int
	tFault   int
	attempt  int
	inStream bool
	inHand   int
	handErr  [2]bool
	mapErr   [2]bool
	bad      string
	acc      []*gobinlog.Transaction
	posted   []int // attempt each was accepted in
	res      [2]outcome
	callDone bool
	cancDone bool
	canced   chan struct{}
	panicked string
	twinDone bool
	twinAcc  []*gobinlog.Transaction
	twinRes  outcome
}

var errLate = errors.New("injected handler failure")

// ownCtx is a context type the standard library does not know.
type ownCtx struct {
	c       context.Context
	expires bool // it says its deadline has passed
}

func (o ownCtx) Deadline() (time.Time, bool)     { return o.c.Deadline() }
func (o ownCtx) Done() <-chan struct{}           { return o.c.Done() }
func (o ownCtx) Value(k interface{}) interface{} { return nil }

func (o ownCtx) Err() error {
	err := o.c.Err()
	if err != nil && o.expires {
		return context.DeadlineExceeded
	}
	return err
}

func newWorld(sc *scen) *world {
	w := &world{sc: sc, rig: theRig}
	return w
}

var theRig, twinRig *e2e.Rig

//go:norace
func (w *world) tick() int {
	w.clock++
	return w.clock
}

// start runs on the bubble's main goroutine.
func (w *world) start() {
	sc := w.sc
	r := w.rig
	r.Fresh()
	r.Mapper.Reset()
	r.Mapper.Hook = func() { runtime.VerifYield(tagMapper, 0) }
	r.Mapper.Fail = nil
	if sc.mapFail {
		r.Mapper.Fail = func(n int, _ gobinlog.MysqlTableName) error {
			if w.attempt == 0 {
				w.noteMap()
				return e2e.ErrMapper
			}
			return nil
		}
	}
	w.armed, w.canced = make(chan struct{}), make(chan struct{})
	w.ctx, w.cancel = context.WithCancel(context.Background())
	f, o := sc.log.StartPos()
	r.S.SetBinlogPosition(e2e.Pos(f, o))
	r.M.Hook = hook{}
	r.M.Fault = func(n int) fm.Fault {
		if n == 0 {
			return sc.fault
		}
		return sc.secondFl
	}
	r.M.Dump = func(n int, q fm.Request) *fm.Script {
		if n == 0 && !sc.connect {
			// control arms, once everything else has come to rest
			w.arming = true
			<-w.armed
		}
		ps, err := sc.log.Serve(q.File, int64(q.Pos))
		if err != nil {
			return &fm.Script{End: fm.EndERR, ErrCode: 1236, ErrMsg: err.Error()}
		}
		end := sc.end
		if n > 0 {
			end = sc.second
		} else if sc.cut >= 0 && sc.cut < len(ps) {
			ps = ps[:sc.cut]
		}
		s := e2e.ScriptOf(ps, end)
		if n == 0 && sc.garble >= 0 {
			b := s.Packets[sc.garble]
			s.Packets[sc.garble] = b[: len(b)-1 : len(b)-1]
		}
		if n == 0 && sc.alien >= 0 {
			ev := ref.Event(ref.Header{Timestamp: 1, Type: ref.EvRand, ServerID: 1, NextPos: 4000000000}, make([]byte, 16), sc.log.Opt.CRC)
			s.Packets = append(append(append([][]byte(nil), s.Packets[:sc.alien]...), ev), s.Packets[sc.alien:]...)
		}
		total := len(s.Packets)
		s.OnPacket = func(i int) {
			if i == total && (end == fm.EndEOF || end == fm.EndERR || end == fm.EndSeq || end == fm.EndEmpty) {
				w.noteEnd(n)
			}
		}
		s.OnLost = func() { w.noteEnd(n) }
		return s
	}
	runtime.VerifReset()
	runtime.VerifOn(sc.connect)
	go w.caller()
	if sc.cancel {
		go w.canceller()
	} else {
		w.cancDone = true
	}
	if sc.twin {
		t := twinRig
		t.Fresh()
		t.Mapper.Reset()
		t.Mapper.Hook = func() { runtime.VerifYield(tagMapper, 0) }
		t.M.Hook = hook{}
		t.ServeLog(twinLog, fm.EndEOF)
		t.S.SetBinlogPosition(e2e.Pos(twinLog.StartPos()))
		go w.twin()
	} else {
		w.twinDone = true
	}
}

// twin is the caller of the second streamer.
func (w *world) twin() {
	defer func() {
		if p := recover(); p != nil {
			w.panicked = fmt.Sprint("second streamer: ", p)
		}
		w.twinDone = true
	}()
	<-w.armed
	o := &w.twinRes
	o.err = twinRig.S.Stream(context.Background(), func(t *gobinlog.Transaction) error {
		runtime.VerifYield(tagHandler, 0)
		w.twinAcc = append(w.twinAcc, t)
		return nil
	})
	o.returned = true
	o.e1 = twinRig.S.Error()
	o.errored = 1
	o.e2 = twinRig.S.Error()
	o.errored = 2
}

//go:norace
func (w *world) noteMap() { w.mapErr[w.attempt] = true }

//go:norace
func (w *world) noteEnd(n int) {
	if n < 2 && w.tEnd[n] == 0 {
		w.tEnd[n] = w.tick()
	}
}

//go:norace
func (w *world) noteCancel() {
	if w.tCancel == 0 {
		w.tCancel = w.tick()
	}
}

func (w *world) canceller() {
	if !w.sc.connect {
		<-w.armed
	}
	runtime.VerifYield(tagCancel, 0)
	w.noteCancel()
	w.cancel()
	runtime.VerifYield(tagCancelled, 0)
	w.cancDone = true
	close(w.canced)
}

// stream is a Stream call that survives the panic of its handler.
func (w *world) stream(ctx context.Context) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if p != e2e.ErrPanic {
				panic(p)
			}
			err = e2e.ErrPanic
		}
	}()
	return w.rig.S.Stream(ctx, w.handle)
}

func (w *world) caller() {
	defer func() {
		if p := recover(); p != nil {
			w.panicked = fmt.Sprint(p)
		}
		w.callDone = true
	}()
	n := w.sc.attempts
	if n == 0 {
		n = 1
	}
	for a := 0; a < n; a++ {
		w.attempt = a
		ctx := w.ctx
		if a > 0 {
			if w.sc.cancel && !w.sc.late {
				<-w.canced
			}
			ctx = context.Background()
		} else if w.sc.custom {
			ctx = ownCtx{ctx, w.sc.expires}
		}
		w.enter(true)
		err := w.stream(ctx)
		w.enter(false)
		o := &w.res[a]
		o.err, o.returned = err, true
		if w.sc.mute {
			continue
		}
		runtime.VerifYield(tagReturned, 0)
		o.e1 = w.rig.S.Error()
		o.errored = 1
		o.e2 = w.rig.S.Error()
		o.errored = 2
	}
}

//go:norace
func (w *world) enter(b bool) { w.inStream = b }

//go:norace
func (w *world) handIn() {
	if !w.inStream {
		w.bad = "the handler is called while no Stream call is running"
	}
	if w.inHand++; w.inHand > 1 {
		w.bad = "two handler calls at a time"
	}
}

//go:norace
func (w *world) handOut() {
	w.inHand--
	if !w.inStream {
		w.bad = "Stream returned while a handler call was running"
	}
}

func (w *world) handle(t *gobinlog.Transaction) (err error) {
	w.handIn()
	runtime.VerifYield(tagHandler, 0)
	defer func() {
		w.handOut()
		w.noteHand(t, err)
	}()
	err = e2e.ErrPanic // unless it returns
	if w.attempt > 0 || len(w.acc) != w.sc.at {
		return nil
	}
	switch w.sc.handler {
	case "fails":
		return errLate
	case "panics":
		panic(e2e.ErrPanic)
	case "cancels and panics":
		w.noteCancel()
		w.cancel()
		panic(e2e.ErrPanic)
	case "cancels":
		w.noteCancel()
		w.cancel()
		return nil
	case "cancels and fails":
		w.noteCancel()
		w.cancel()
		return context.Canceled
	case "waits for the cancellation and fails":
		<-w.ctx.Done()
		return w.ctx.Err()
	case "waits for the cancellation":
		<-w.ctx.Done()
		return nil
	}
	return nil
}

//go:norace
func (w *world) noteHand(t *gobinlog.Transaction, err error) {
	if err != nil {
		w.handErr[w.attempt] = true
		return
	}
	w.acc = append(w.acc, t)
	w.posted = append(w.posted, w.attempt)
}

//go:norace
func (w *world) done() bool { return w.callDone && w.cancDone && w.twinDone }

//go:norace
func (w *world) stateKey() string {
	s := fmt.Sprint(w.clock, w.tCancel, len(w.acc), w.inStream, w.inHand, w.attempt, w.callDone)
	for _, c := range rawConns(w.rig.M) {
		a, b, d := c.RawState()
		s += fmt.Sprint("/", a, b, d)
	}
	if w.sc.twin {
		s += fmt.Sprint("|", len(w.twinAcc), w.twinRes.returned, w.twinRes.errored)
		for _, c := range w.twinRaw() {
			a, b, d := c.RawState()
			s += fmt.Sprint("/", a, b, d)
		}
	}
	return s
}

func (w *world) twinRaw() []*fm.Conn { return twinRig.M.RawConns() }

func rawConns(m *fm.Master) []*fm.Conn { return m.RawConns() }

// stuck says what is wrong when nothing can move any more.
func (w *world) stuck() string {
	switch {
	case !w.callDone && !w.res[w.attempt].returned:
		return fmt.Sprintf("Stream (attempt %d) never returns", w.attempt)
	case !w.callDone:
		return fmt.Sprintf("Error() call %d of attempt %d never returns", w.res[w.attempt].errored+1, w.attempt)
	case !w.twinDone:
		return "a call of the second streamer never returns"
	case !w.cancDone:
		return "the cancelling goroutine never gets on"
	}
	return fmt.Sprintf("%d goroutines remain after Stream has returned", runtime.VerifBubbleTotal()-w.base)
}

func (w *world) outcome() string {
	var b strings.Builder
	for a := 0; a <= w.attempt && a < 2; a++ {
		o := w.res[a]
		fmt.Fprintf(&b, "attempt %d: returned %v, Stream: %v; %d Error() calls returned: %v, %v; ", a, o.returned, o.err, o.errored, o.e1, o.e2)
	}
	fmt.Fprintf(&b, "cancelled at %d, ends read at %v, %d accepted %v, handler failed %v, lookup failed %v", w.tCancel, w.tEnd, len(w.acc), w.posted, w.handErr, w.mapErr)
	for i, c := range w.rig.M.RawConns() {
		s, r, cl := c.RawState()
		fmt.Fprintf(&b, "; connection %d: %d packets sent, %d requests, closed %v", i, s, r, cl)
	}
	return b.String()
}

// driverLeak is the known deviation: the driver's Connect gives up when its
// context is done right after the dial, and then neither closes the
// connection nor ends the watcher it started.
const driverLeakKey = "C05/driver-cancelled-after-dial"

// excused tells whether a stuck end is not this property's to judge, or a
// known finding (which is reported as such).
func (w *world) excused(x *exec) bool {
	if w.sc.prop != "C05" {
		stuckRuns++
		x.u.Extra("executions that do not end (judged by C05)", 1)
		return true
	}
	if !w.callDone || !w.cancDone {
		return false
	}
	buf := make([]byte, 1<<21)
	st := bubbleStacks(buf[:runtime.Stack(buf, true)])
	left := 0
	for _, g := range strings.Split(st, "\n\n") {
		switch {
		case strings.Contains(g, "main.once.func"):
		case strings.Contains(g, "created by github.com/Breeze0806/mysql.(*mysqlConn).startWatcher"):
			left++
		default:
			return false
		}
	}
	conns := w.rig.M.RawConns()
	if left != 1 || len(conns) != 1 || w.res[0].err == nil || w.tCancel == 0 {
		return false
	}
	if sent, reqs, closed := conns[0].RawState(); sent != 0 || reqs != 0 || closed {
		return false
	}
	x.u.Extra("executions with the known leak of the driver", 1)
	x.u.FailKey(driverLeakKey, "the context is cancelled between the dial and the driver's watch: NewDumpConn fails, its connection stays open and its watcher goroutine stays\n%s\n%s", w.outcome(), st)
	return true
}

var stuckRuns int

// judge is the oracle of the scenario's property, once nothing moves.
func (w *world) judge(u *run.U, leak bool) string {
	if w.panicked != "" {
		return "panic: " + w.panicked
	}
	switch w.sc.prop {
	case "C05":
		if w.bad != "" {
			return w.bad
		}
		if leak {
			return ""
		}
		for i, c := range w.rig.M.RawConns() {
			if !c.Dead && !c.Closed() {
				return fmt.Sprintf("connection %d is left open", i)
			}
		}
		if w.sc.twin {
			for _, c := range w.twinRaw() {
				if !c.Closed() {
					return "the second streamer's connection is left open"
				}
			}
			if o := w.twinRes; o.err != nil || o.e1 != nil || o.e2 != nil {
				return fmt.Sprintf("second streamer: Stream: %v, Error(): %v, %v", o.err, o.e1, o.e2)
			}
			if err := e2e.CompareAll(w.twinAcc, twinLog.Trans); err != nil {
				return fmt.Sprintf("second streamer: %v", err)
			}
		}
	case "C06":
		if leak {
			return ""
		}
		return w.reported()
	case "C04":
		if leak {
			return ""
		}
		return w.exactlyOnce()
	}
	return ""
}

func (w *world) reported() string {
	for a := 0; a <= w.attempt; a++ {
		o := w.res[a]
		if !o.returned {
			continue
		}
		if o.err == nil && w.handErr[a] {
			return fmt.Sprintf("attempt %d: the handler failed and Stream returned nil", a)
		}
		if o.err == nil && w.mapErr[a] {
			return fmt.Sprintf("attempt %d: the table lookup failed and Stream returned nil", a)
		}
		cancelled := a == 0 && w.tCancel != 0
		if a == 0 && !cancelled && o.err == nil && (w.sc.garble >= 0 || w.sc.alien >= 0) {
			return "an undecodable event and Stream returned nil"
		}
		fl, end := w.sc.fault, w.sc.end
		if a > 0 {
			fl, end = w.sc.secondFl, w.sc.second
		}
		if o.err == nil && fl != (fm.Fault{}) && !cancelled {
			if o.e1 == nil || o.e2 == nil {
				return fmt.Sprintf("attempt %d: the connection failed before the dump; Stream and Error() report nothing", a)
			}
		}
		if o.err == nil && w.tEnd[a] != 0 && end != fm.EndEOF && (!cancelled || w.tEnd[a] < w.tCancel) {
			for i, e := range []error{o.e1, o.e2} {
				if e == nil {
					return fmt.Sprintf("attempt %d: the stream was lost and Error() call %d reports a clean end", a, i+1)
				}
				if end == fm.EndERR && !strings.Contains(e.Error(), "injected master error") {
					return fmt.Sprintf("attempt %d: Error() call %d does not carry the master's message: %v", a, i+1, e)
				}
			}
		}
		if o.err == nil && (o.e1 == nil || o.e2 == nil) && !cancelled && w.tEnd[a] == 0 {
			return fmt.Sprintf("attempt %d: Stream and Error() report a clean end with the stream still going", a)
		}
	}
	return ""
}

// exactlyOnce makes a clean attempt and compares all that was accepted.
func (w *world) exactlyOnce() string {
	w.attempt = 1
	sc := w.sc
	n := len(w.rig.M.RawConns())
	f, o := sc.log.StartPos()
	if k := len(w.acc); k > 0 {
		t := sc.log.Trans[k-1]
		f, o = t.NextFile, t.NextOff
	}
	w.rig.M.Hook = nil
	w.rig.M.Fault = nil
	ctx, stop := context.WithTimeout(context.Background(), time.Hour)
	defer stop()
	w.enter(true)
	err := w.rig.S.Stream(ctx, w.handle)
	w.enter(false)
	cs := w.rig.M.RawConns()
	if len(cs) == n+1 {
		for _, q := range cs[n].Requests() {
			if q.Cmd == 0x12 && (q.File != f || int64(q.Pos) != o) {
				return fmt.Sprintf("the next attempt resumes at %s:%d, the boundary after the last accepted transaction is %s:%d", q.File, q.Pos, f, o)
			}
		}
	}
	if err != nil {
		return fmt.Sprintf("the clean attempt fails: %v", err)
	}
	want := append([]ref.Tran(nil), sc.log.Trans...)
	if err := e2e.CompareAll(w.acc, want); err != nil {
		return fmt.Sprintf("accepted over all attempts %v: %v", w.posted, err)
	}
	return ""
}
