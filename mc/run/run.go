// Package run is the frame of the exhaustive explorations: units of work are
// spread over workers, everything explored is counted, and violations are
// reported with the unit that reproduces them.
package run

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Unit is an independently replayable part of an exploration.
type Unit struct {
	Name string
	Run  func(u *U)
}

// Violation is one reported failure.
type Violation struct {
	Unit   string `json:"unit"`
	Case   string `json:"case"`
	Detail string `json:"detail"`
	Kind   string `json:"kind"` // fail, panic, hang
	Key    string `json:"key,omitempty"`
}

// Result is what a run reports.
type Result struct {
	Property    string           `json:"property"`
	Tier        string           `json:"tier"`
	Evaluations int64            `json:"evaluations"`
	Distinct    int64            `json:"distinct"`
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	Units       int              `json:"units"`
	UnitsDone   int              `json:"units_done"`
	Exhaustive  bool             `json:"exhaustive"`
	Capped      []string         `json:"capped"`
	Samples     []string         `json:"samples"`
	Extra       map[string]int64 `json:"extra"`
	Rule        string           `json:"rule"`
	Violations  []Violation      `json:"violations"`
	Wall        float64          `json:"wall_s"`
}

// Check is one property's exploration.
type Check struct {
	ID    string
	Rule  string
	Units func(tier string) []Unit
	// Samples is how many samples to keep (default 12).
	Samples int
}

// U is the context of a running unit.
type U struct {
	Tier  string
	Name  string
	r     *Result
	mu    *sync.Mutex
	eval  int64
	dist  int64
	trans int64
	trace int64
	seen  map[uint64]struct{}
	state map[uint64]struct{}
	extra map[string]int64
	cur   func() string
	beat  atomic.Int64
	samp  []string
	cap   []string
	fails []Violation
}

type stop struct{}

// Thorough tells the tier.
func (u *U) Thorough() bool { return u.Tier == "thorough" }

// Cur registers the description of the current case.
func (u *U) Cur(f func() string) { u.cur = f }

// Eval counts n executions that are pairwise distinct by construction.
func (u *U) Eval(n int64) {
	u.eval += n
	u.dist += n
	u.beat.Add(1)
}

// EvalDup counts n executions that are not new cases.
func (u *U) EvalDup(n int64) {
	u.eval += n
	u.beat.Add(1)
}

// EvalHash counts one execution and, when the hash is new in this unit, one
// distinct case.
func (u *U) EvalHash(h uint64) {
	u.eval++
	if u.seen == nil {
		u.seen = map[uint64]struct{}{}
	}
	u.seen[h] = struct{}{}
	u.beat.Add(1)
}

// Beat says the unit is alive.
func (u *U) Beat() { u.beat.Add(1) }

// State counts a model or implementation state.
func (u *U) State(h uint64) {
	if u.state == nil {
		u.state = map[uint64]struct{}{}
	}
	u.state[h] = struct{}{}
}

// Trans and Trace count transitions and model traces replayed on the code.
func (u *U) Trans(n int64) { u.trans += n }

// Trace counts traces.
func (u *U) Trace(n int64) { u.trace += n }

// Extra adds to a named counter.
func (u *U) Extra(k string, n int64) {
	if u.extra == nil {
		u.extra = map[string]int64{}
	}
	u.extra[k] += n
}

// Sample keeps a case for the report.
func (u *U) Sample(format string, a ...interface{}) {
	if len(u.samp) < 2 {
		u.samp = append(u.samp, u.Name+": "+fmt.Sprintf(format, a...))
	}
}

// Cap notes that a bound cut the enumeration.
func (u *U) Cap(format string, a ...interface{}) {
	u.cap = append(u.cap, u.Name+": "+fmt.Sprintf(format, a...))
}

// Fail reports a violation and ends the unit.
func (u *U) Fail(format string, a ...interface{}) {
	u.FailKey("", format, a...)
	panic(stop{})
}

// abort ends the program with the results so far.
var abort func(f Violation, u *U)

// FailNow reports a violation that leaves the process unusable: the program
// writes its results and exits.
func (u *U) FailNow(kind, format string, a ...interface{}) {
	c := ""
	if u.cur != nil {
		c = u.cur()
	}
	abort(Violation{Unit: u.Name, Case: c, Detail: clip(fmt.Sprintf(format, a...)), Kind: kind}, u)
}

// FailKey reports a violation that known findings may match, and goes on.
func (u *U) FailKey(key, format string, a ...interface{}) {
	c := ""
	if u.cur != nil {
		c = u.cur()
	}
	for _, f := range u.fails {
		if key != "" && f.Key == key {
			return
		}
	}
	u.fails = append(u.fails, Violation{Unit: u.Name, Case: c, Detail: clip(fmt.Sprintf(format, a...)), Kind: "fail", Key: key})
}

func clip(s string) string {
	if len(s) > 5000 {
		return s[:5000] + "..."
	}
	return s
}

var seed = maphash.MakeSeed()

// Hash of strings.
func Hash(parts ...string) uint64 {
	var h maphash.Hash
	h.SetSeed(seed)
	for _, p := range parts {
		h.WriteString(p)
		h.WriteByte(0)
	}
	return h.Sum64()
}

// HashBytes of a byte slice.
func HashBytes(b []byte) uint64 { return maphash.Bytes(seed, b) }

// Catch runs f and returns its panic, if any.
func Catch(f func()) (p interface{}, st string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				panic(r)
			}
			p = r
			st = string(debug.Stack())
		}
	}()
	f()
	return
}

// HangAfter is how long a unit may stay silent before it counts as hung.
var HangAfter = 60 * time.Second

// Main runs the check named on the command line.
func Main(checks ...*Check) {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	out := flag.String("out", "", "result file")
	cur := flag.String("cur", "", "directory for current units")
	only := flag.String("unit", "", "run only this unit")
	shard := flag.String("shard", "0/1", "run units i mod n")
	workers := flag.Int("workers", runtime.GOMAXPROCS(0), "workers")
	list := flag.Bool("list", false, "list units")
	flag.Parse()
	var c *Check
	for _, x := range checks {
		if x.ID == *prop {
			c = x
		}
	}
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	debug.SetMemoryLimit(12 << 30)
	start := time.Now()
	units := c.Units(*tier)
	var si, sn int
	fmt.Sscanf(*shard, "%d/%d", &si, &sn)
	var sel []Unit
	for i, x := range units {
		if *only != "" {
			if x.Name == *only {
				sel = append(sel, x)
			}
			continue
		}
		if i%sn == si {
			sel = append(sel, x)
		}
	}
	if *list {
		for _, x := range sel {
			fmt.Println(x.Name)
		}
		return
	}
	res := &Result{Property: c.ID, Tier: *tier, Units: len(sel), Rule: c.Rule, Extra: map[string]int64{}, Exhaustive: true}
	var mu sync.Mutex
	var next atomic.Int64
	var stopAll atomic.Bool
	states := map[uint64]struct{}{}
	var wg sync.WaitGroup
	running := make([]atomic.Pointer[U], *workers)
	finish := func(code int) {
		if stopAll.Load() {
			res.Exhaustive = false
		}
		res.States += int64(len(states))
		res.Wall = time.Since(start).Seconds()
		sort.Strings(res.Samples)
		n := c.Samples
		if n == 0 {
			n = 12
		}
		if len(res.Samples) > n {
			step := len(res.Samples) / n
			var s []string
			for i := 0; i < n; i++ {
				s = append(s, res.Samples[i*step])
			}
			res.Samples = s
		}
		if len(res.Capped) > 0 {
			res.Exhaustive = false
		}
		b, _ := json.MarshalIndent(res, "", " ")
		if *out != "" {
			tmp := *out + ".tmp"
			os.WriteFile(tmp, b, 0o644)
			os.Rename(tmp, *out)
		} else {
			os.Stdout.Write(append(b, '\n'))
		}
		os.Exit(code)
	}
	abort = func(f Violation, u *U) {
		mu.Lock()
		res.Evaluations += u.eval
		res.Distinct += u.dist + int64(len(u.seen))
		for h := range u.state {
			states[h] = struct{}{}
		}
		res.Transitions += u.trans
		res.Traces += u.trace
		res.Samples = append(res.Samples, u.samp...)
		res.Violations = append(res.Violations, f)
		res.Exhaustive = false
		finish(0)
	}
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for !stopAll.Load() {
				i := int(next.Add(1)) - 1
				if i >= len(sel) {
					return
				}
				u := &U{Tier: *tier, Name: sel[i].Name, r: res, mu: &mu}
				running[w].Store(u)
				if *cur != "" {
					os.WriteFile(filepath.Join(*cur, fmt.Sprintf("cur.%d", w)), []byte(u.Name), 0o644)
				}
				runUnit(u, sel[i])
				running[w].Store(nil)
				if *cur != "" {
					os.WriteFile(filepath.Join(*cur, fmt.Sprintf("cur.%d", w)), nil, 0o644)
				}
				mu.Lock()
				res.UnitsDone++
				res.Evaluations += u.eval
				res.Distinct += u.dist + int64(len(u.seen))
				for h := range u.state {
					states[h] = struct{}{}
				}
				res.Transitions += u.trans
				res.Traces += u.trace
				for k, n := range u.extra {
					if strings.HasPrefix(k, "max ") {
						if n > res.Extra[k] {
							res.Extra[k] = n
						}
						continue
					}
					res.Extra[k] += n
				}
				res.Samples = append(res.Samples, u.samp...)
				res.Capped = append(res.Capped, u.cap...)
				fatal := false
				for _, f := range u.fails {
					dup := false
					for _, v := range res.Violations {
						dup = dup || f.Key != "" && v.Key == f.Key
					}
					if dup {
						continue
					}
					res.Violations = append(res.Violations, f)
					fatal = fatal || f.Key == ""
				}
				if fatal {
					res.Exhaustive = false
					stopAll.Store(true)
				}
				mu.Unlock()
			}
		}(w)
	}
	done := make(chan struct{})
	go func() {
		type seenBeat struct {
			u *U
			b int64
			t time.Time
		}
		last := make([]seenBeat, *workers)
		for {
			select {
			case <-done:
				return
			case <-time.After(500 * time.Millisecond):
			}
			for w := range running {
				u := running[w].Load()
				if u == nil {
					last[w] = seenBeat{}
					continue
				}
				b := u.beat.Load()
				if last[w].u != u || last[w].b != b {
					last[w] = seenBeat{u, b, time.Now()}
					continue
				}
				if time.Since(last[w].t) > HangAfter {
					mu.Lock()
					buf := make([]byte, 1<<16)
					buf = buf[:runtime.Stack(buf, true)]
					cs := ""
					if u.cur != nil {
						cs = u.cur()
					}
					res.Violations = append(res.Violations, Violation{Unit: u.Name, Case: cs, Kind: "hang", Detail: clip(fmt.Sprintf("no progress for %v\n%s", HangAfter, buf))})
					res.Exhaustive = false
					finish(0)
				}
			}
		}
	}()
	wg.Wait()
	close(done)
	mu.Lock()
	finish(0)
}

func runUnit(u *U, x Unit) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(stop); ok {
				return
			}
			c := ""
			if u.cur != nil {
				func() {
					defer func() { recover() }()
					c = u.cur()
				}()
			}
			u.fails = append(u.fails, Violation{Unit: u.Name, Case: c, Kind: "panic", Detail: clip(fmt.Sprintf("panic: %v\n%s", p, debug.Stack()))})
		}
	}()
	x.Run(u)
}
