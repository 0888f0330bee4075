//go:build verifsched

package main

import (
	"bytes"
	"context"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"
	"unsafe"

	"verif/fm"
	"verif/run"
)

// Tags of the harness's own scheduling points.
const (
	tagDial = iota + 1
	tagRead
	tagWrite
	tagClose
	tagHandler
	tagMapper
	tagCancel
	tagCancelled
	tagReturned
	tagDialed
)

var tagNames = map[int]string{tagDial: "dial", tagRead: "read", tagWrite: "write", tagClose: "close", tagHandler: "handler", tagMapper: "lookup",
	tagCancel: "before cancel", tagCancelled: "after cancel", tagReturned: "returned", tagDialed: "dialled"}

var kindNames = map[int]string{runtime.VerifSend: "send", runtime.VerifRecv: "receive", runtime.VerifClose: "close chan", runtime.VerifSelect: "select",
	runtime.VerifSendNB: "try send", runtime.VerifRecvNB: "try receive", runtime.VerifAfter: "after"}

// hook makes every operation of a connection a scheduling point.
type hook struct{}

func (hook) Dial(ctx context.Context, c *fm.Conn) {
	runtime.VerifYield(tagDial, uintptr(unsafe.Pointer(c)))
}
func (hook) Dialed(c *fm.Conn) {
	runtime.VerifYield(tagDialed, uintptr(unsafe.Pointer(c)))
}
func (hook) Read(c *fm.Conn)  { runtime.VerifYield(tagRead, uintptr(unsafe.Pointer(c))) }
func (hook) Write(c *fm.Conn) { runtime.VerifYield(tagWrite, uintptr(unsafe.Pointer(c))) }
func (hook) Close(c *fm.Conn) { runtime.VerifYield(tagClose, uintptr(unsafe.Pointer(c))) }

// step is one decision point of an execution.
type step struct {
	nalt   int
	cost   []int // of each alternative
	choice int
}

// thread is a goroutine as the exploration knows it.
type thread struct {
	goid uint64
	name string
}

// exec is one execution under control.
type exec struct {
	u       *run.U
	sc      *scen
	prefix  []int
	steps   []step
	trace   []string
	threads []thread
	cur     int // index of the thread released last, -1 none
	nsteps  int
	diverge string
	stuck   string
	world   *world
	quiet   bool
}

const horizon = 20000

func (x *exec) threadOf(p *runtime.VerifPointInfo) int {
	for i := range x.threads {
		if x.threads[i].goid == p.Goid {
			return i
		}
	}
	name := "?"
	if f := runtime.FuncForPC(p.Start); f != nil {
		name = f.Name()
		name = name[strings.LastIndexByte(name, '/')+1:]
	}
	x.threads = append(x.threads, thread{p.Goid, fmt.Sprintf("%s#%d", name, len(x.threads))})
	return len(x.threads) - 1
}

type alt struct {
	th, slot, sel int
	desc          string
}

func describe(p *runtime.VerifPointInfo) string {
	if p.Kind == runtime.VerifUser {
		return tagNames[p.Tag]
	}
	where := ""
	if f := runtime.FuncForPC(p.PC); f != nil {
		_, line := f.FileLine(p.PC)
		n := f.Name()
		where = fmt.Sprintf(" %s:%d", n[strings.LastIndexByte(n, '/')+1:], line)
	}
	return kindNames[p.Kind] + where
}

// control runs the bubble's other goroutines one step at a time until
// nothing can move; it is called on the bubble's main goroutine.
func (x *exec) control() {
	var pts []runtime.VerifPointInfo
	idle := 0
	if runtime.VerifWait(); x.world.arming {
		runtime.VerifOn(true)
		close(x.world.armed)
	}
	for {
		runtime.VerifWait()
		pts = runtime.VerifPoints(pts)
		sort.Slice(pts, func(i, j int) bool { return pts[i].Goid < pts[j].Goid })
		for i := range pts {
			x.threadOf(&pts[i])
		}
		// an operation that blocks anyway only queues its goroutine
		auto := false
		for i := range pts {
			p := &pts[i]
			if p.NReady == 0 && p.Block && (p.Kind == runtime.VerifSend || p.Kind == runtime.VerifRecv || p.Kind == runtime.VerifSelect) {
				runtime.VerifRelease(p.Slot, -1)
				x.nsteps++
				auto = true
				break
			}
		}
		if auto {
			continue
		}
		var alts []alt
		curEnabled := 0
		order := make([]int, 0, len(pts))
		for i := range pts {
			if x.threadOf(&pts[i]) == x.cur {
				order = append([]int{i}, order...)
			} else {
				order = append(order, i)
			}
		}
		var key []string
		for _, i := range order {
			p := &pts[i]
			th := x.threadOf(p)
			if p.Kind == runtime.VerifUser && p.Tag == tagRead && !(*fm.Conn)(unsafe.Pointer(p.Obj)).ReadyRaw() {
				continue
			}
			d := x.threads[th].name + ": " + describe(p)
			if p.Kind == runtime.VerifSelect && p.NReady > 1 {
				for j := 0; j < p.NCases && j < 8; j++ {
					if p.Ready[j] {
						alts = append(alts, alt{th, p.Slot, j, fmt.Sprintf("%s, case %d", d, j)})
					}
				}
			} else {
				alts = append(alts, alt{th, p.Slot, -1, d})
			}
			if th == x.cur {
				curEnabled = len(alts)
			}
		}
		if len(alts) == 0 {
			if x.world.done() && runtime.VerifBubbleTotal() == x.world.base {
				return
			}
			// nothing can move: let time pass
			idle++
			if idle > 4 {
				x.stuck = x.world.stuck()
				return
			}
			time.Sleep([]time.Duration{0, time.Second, time.Minute, 10 * time.Minute, time.Hour}[idle])
			continue
		}
		idle = 0
		if x.nsteps++; x.nsteps > horizon {
			x.stuck = "no end after " + fmt.Sprint(horizon) + " steps: livelock"
			return
		}
		x.u.Trans(1)
		for _, a := range alts {
			key = append(key, a.desc)
		}
		x.u.State(run.Hash(append(key, x.world.stateKey(), x.sc.name)...))
		c := 0
		if len(alts) > 1 {
			st := step{nalt: len(alts), cost: make([]int, len(alts))}
			for i := range alts {
				if curEnabled > 0 && i >= curEnabled || x.sc.delay && i > 0 {
					st.cost[i] = 1
				}
			}
			n := len(x.steps)
			if n < len(x.prefix) {
				c = x.prefix[n]
				if c >= len(alts) {
					x.diverge = fmt.Sprintf("choice %d of %d at decision %d", c, len(alts), n)
					c = 0
				}
			}
			st.choice = c
			x.steps = append(x.steps, st)
		}
		x.cur = alts[c].th
		if !x.quiet {
			x.trace = append(x.trace, alts[c].desc)
		}
		runtime.VerifRelease(alts[c].slot, alts[c].sel)
	}
}

func (x *exec) choices() []int {
	var c []int
	for _, s := range x.steps {
		c = append(c, s.choice)
	}
	return c
}

// once runs one execution and judges it.
func once(u *run.U, sc *scen, prefix []int) *exec {
	x := &exec{u: u, sc: sc, prefix: prefix, cur: -1}
	u.Cur(func() string {
		return fmt.Sprintf("scenario %s, choices %v, schedule: %s", sc.name, x.choices(), strings.Join(x.trace, "; "))
	})
	w := newWorld(sc)
	x.world = w
	leak := false
	func() {
		defer func() {
			if p := recover(); p != nil {
				if !leak {
					u.FailNow("panic", "panic: %v", p)
				}
			}
		}()
		runtime.VerifBubble(func() {
			w.base = runtime.VerifBubbleTotal()
			w.start()
			x.control()
			if x.stuck != "" {
				leak = true
				if !w.excused(x) {
					buf := make([]byte, 1<<21)
					buf = buf[:runtime.Stack(buf, true)]
					u.FailNow("fail", "%s\n%s\nstacks:\n%s", x.stuck, w.outcome(), bubbleStacks(buf))
				}
				runtime.VerifReset()
			}
			runtime.VerifOn(false)
			if msg := w.judge(u, leak); msg != "" {
				u.FailNow("fail", "%s\n%s", msg, w.outcome())
			}
		})
	}()
	return x
}

// bubbleStacks keeps the goroutines of the bubble whose goroutine is running
// (earlier executions may have left goroutines in their own).
func bubbleStacks(b []byte) string {
	all := bytes.Split(b, []byte("\n\n"))
	mine := ""
	bubble := func(g []byte) string {
		i := bytes.IndexByte(g, '\n')
		if i < 0 {
			i = len(g)
		}
		j := bytes.Index(g[:i], []byte("synctest bubble "))
		if j < 0 {
			return ""
		}
		return strings.Trim(strings.SplitN(string(g[j+len("synctest bubble "):i]), ",", 2)[0], "]: ")
	}
	for _, g := range all {
		if i := bytes.IndexByte(g, '\n'); i > 0 && bytes.Contains(g[:i], []byte("[running")) && bubble(g) != "" {
			mine = bubble(g)
		}
	}
	var out [][]byte
	for _, g := range all {
		if n := bubble(g); n != "" && n == mine {
			out = append(out, g)
		}
	}
	return string(bytes.Join(out, []byte("\n\n")))
}

// explore runs every execution of the scenario with at most bound
// preemptions. Every part runs the executions with at most one deviation from
// the default schedule; those with more are shared out.
func explore(u *run.U, sc *scen, bound, part, parts int, max int64) {
	type item struct {
		prefix []int
		cost   int
		depth  int // deviations
	}
	stack := []item{{nil, 0, 0}}
	var n, longest int64
	k := 0
	for len(stack) > 0 {
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if n++; n > max {
			u.Cap("%s: %d executions at %d preemptions, %d branches left", sc.name, max, bound, len(stack)+1)
			return
		}
		x := once(u, sc, it.prefix)
		for try := 0; x.diverge != "" && try < 5; try++ {
			u.Extra("replays repeated", 1)
			x = once(u, sc, it.prefix)
		}
		if part == 0 || it.depth > 1 {
			u.Trace(1)
			u.Eval(1)
		} else {
			u.Beat()
		}
		if x.diverge != "" {
			u.Extra("diverged replays", 1)
			u.Cap("a replay diverged: %s", x.diverge)
			continue
		}
		if stuckRuns > 200 {
			u.Cap("%s: too many executions do not end", sc.name)
			return
		}
		if it.depth == 0 && part == 0 {
			u.Sample("default schedule of %d decisions: %s", len(x.steps), strings.Join(x.trace, "; "))
		}
		ch := x.choices()
		for i := len(it.prefix); i < len(x.steps); i++ {
			for a := 1; a < x.steps[i].nalt; a++ {
				c := it.cost + x.steps[i].cost[a]
				if c > bound {
					continue
				}
				if it.depth == 1 {
					k++
					if k%parts != part {
						continue
					}
				}
				stack = append(stack, item{append(append([]int(nil), ch[:i]...), a), c, it.depth + 1})
			}
		}
		if n := int64(len(x.steps)); n > longest {
			longest = n
		}
	}
	u.Extra("max decisions in an execution", longest)
}
