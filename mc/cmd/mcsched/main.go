//go:build verifsched

// mcsched explores, exhaustively up to a preemption bound, the interleavings
// of the streamer's goroutines with packet arrival, handler progress and
// cancellation, on the real code under a controlled scheduler.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"strings"

	"github.com/Breeze0806/go/log"
	"github.com/Breeze0806/gobinlog"

	"verif/e2e"
	"verif/fm"
	"verif/ref"
	"verif/run"
)

var (
	table  = &ref.Table{DB: "d", Name: "t", Cols: []ref.Col{{Name: "a", Type: 3}}}
	table2 = &ref.Table{DB: "d", Name: "u", Cols: []ref.Col{{Name: "a", Type: 3}, {Name: "b", Type: 3}}}
)

func cell(v byte) ref.Image { return ref.Image{{Enc: []byte{v, 0, 0, 0}, Text: []byte(fmt.Sprint(v))}} }

// tinyLog: one DDL transaction (3 packets with the fake rotation and format).
func tinyLog(crc bool) *ref.Log {
	l := ref.NewLog(ref.Options{CRC: crc})
	l.Statement("create", "d", "create table x (a int)")
	return l
}

// smallLog: a transaction of rows and a DDL statement (7 packets).
func smallLog(crc bool) *ref.Log {
	l := ref.NewLog(ref.Options{CRC: crc})
	l.Begin("BEGIN")
	l.TableMap(7, table)
	l.Rows(ref.Write, 7, nil, []ref.Image{cell(5)}, true)
	l.XID()
	l.Statement("drop", "d", "drop table x")
	return l
}

// twoLog: two autocommitted statements (4 packets).
func twoLog() *ref.Log {
	l := ref.NewLog(ref.Options{CRC: true})
	l.Statement("create", "d", "create table x (a int)")
	l.Statement("drop", "d", "drop table x")
	return l
}

// twinLog is what the second streamer reads: other tables under the same id.
var twinLog = func() *ref.Log {
	l := ref.NewLog(ref.Options{CRC: false, V2: true, Names: 2})
	l.Begin("BEGIN")
	l.TableMap(7, table2)
	l.Rows(ref.Write, 7, nil, []ref.Image{append(cell(6), cell(7)...)}, true)
	l.XID()
	return l
}()

var endNames = map[fm.End]string{fm.EndEOF: "EOF", fm.EndERR: "error packet", fm.EndClose: "close", fm.EndReset: "reset", fm.EndHang: "silence", fm.EndTrunc: "half a packet", fm.EndSeq: "a packet out of sequence", fm.EndEmpty: "a packet of no bytes", fm.EndHeader: "half a header"}

func scenarios(prop string) []*scen {
	var out []*scen
	add := func(s scen) *scen {
		s.prop = prop
		x := &s
		out = append(out, x)
		return x
	}
	base := scen{cut: -1, garble: -1, alien: -1, bound: [2]int{2, 3}, parts: 8}
	// how streams end, with and without a cancellation at any time
	for _, lg := range []struct {
		n string
		l *ref.Log
	}{{"one statement", tinyLog(false)}, {"rows and a statement", smallLog(true)}} {
		for _, end := range []fm.End{fm.EndEOF, fm.EndERR, fm.EndClose, fm.EndReset, fm.EndTrunc, fm.EndSeq, fm.EndEmpty, fm.EndHang} {
			for _, cancel := range []bool{false, true} {
				if end == fm.EndHang && !cancel {
					continue
				}
				s := base
				s.log, s.end, s.cancel = lg.l, end, cancel
				s.name = fmt.Sprintf("%s, ends with %s, cancel %v", lg.n, endNames[end], cancel)
				if lg.n != "one statement" {
					s.bound = [2]int{1, 2}
				}
				add(s)
			}
		}
	}
	// handlers
	for _, h := range []string{"fails", "panics", "cancels and panics", "cancels", "cancels and fails", "waits for the cancellation", "waits for the cancellation and fails"} {
		if prop == "C06" && strings.HasSuffix(h, "panics") {
			continue // nothing is returned
		}
		for at := 0; at < 2; at++ {
			for _, end := range []fm.End{fm.EndEOF, fm.EndERR, fm.EndHang} {
				s := base
				s.log, s.end, s.handler, s.at = twoLog(), end, h, at
				s.cancel = h[0] == 'w'
				s.name = fmt.Sprintf("two statements, handler %s at %d, ends with %s", h, at, endNames[end])
				s.bound = [2]int{2, 3}
				if s.cancel || strings.HasSuffix(h, "panics") {
					s.bound = [2]int{1, 2}
				}
				add(s)
				if h == "fails" {
					s.cancel = true
					s.name += ", cancel true"
					s.bound = [2]int{1, 2}
					add(s)
				}
			}
		}
	}
	// lookups and events that end the stream
	for _, cancel := range []bool{false, true} {
		for _, end := range []fm.End{fm.EndEOF, fm.EndReset, fm.EndHang} {
			b := base
			b.end, b.cancel = end, cancel
			b.bound = [2]int{2, 3}
			if cancel {
				b.bound = [2]int{1, 2}
			}
			s := b
			s.log, s.mapFail = smallLog(true), true
			s.name = fmt.Sprintf("lookup fails, ends with %s, cancel %v", endNames[end], cancel)
			add(s)
			for _, k := range []int{0, 2} {
				s = b
				s.log, s.garble = tinyLog(true), k
				s.name = fmt.Sprintf("packet %d malformed, ends with %s, cancel %v", k, endNames[end], cancel)
				add(s)
			}
			s = b
			s.log, s.alien = twoLog(), 3
			s.name = fmt.Sprintf("unsupported event, ends with %s, cancel %v", endNames[end], cancel)
			add(s)
		}
	}
	// an own context type
	for _, end := range []fm.End{fm.EndEOF, fm.EndHang} {
		s := base
		s.log, s.end, s.cancel, s.custom, s.bound = tinyLog(true), end, true, true, [2]int{1, 2}
		s.name = fmt.Sprintf("caller's own context type, ends with %s, cancel true", endNames[end])
		add(s)
		if prop != "C06" { // whether an expiry is a cancellation is left open
			s.expires = true
			s.name = fmt.Sprintf("the caller's context expires, ends with %s", endNames[end])
			add(s)
		}
	}
	if prop == "C04" {
		return out
	}
	// a caller who never calls Error()
	if prop == "C05" {
		for _, end := range []fm.End{fm.EndEOF, fm.EndERR, fm.EndReset, fm.EndHang} {
			for _, h := range []string{"", "fails", "cancels"} {
				if end == fm.EndHang && h == "" {
					continue
				}
				s := base
				s.log, s.end, s.handler, s.mute, s.bound = twoLog(), end, h, true, [2]int{1, 2}
				s.name = fmt.Sprintf("Error() is never called, handler %s, ends with %s", h, endNames[end])
				add(s)
				if h == "" {
					s.cancel = true
					s.name += ", cancel true"
					add(s)
					s.attempts, s.second = 2, end
					s.bound = [2]int{0, 1}
					s.name += ", two attempts"
					add(s)
				}
			}
		}
	}
	// two streamers in one process
	if prop == "C05" {
		for _, end := range []fm.End{fm.EndEOF, fm.EndReset, fm.EndHang} {
			for _, cancel := range []bool{false, true} {
				if cancel != (end == fm.EndHang) && (cancel || end == fm.EndHang) {
					continue
				}
				s := base
				s.log, s.end, s.cancel, s.twin, s.delay, s.bound = smallLog(true), end, cancel, true, true, [2]int{2, 3}
				s.name = fmt.Sprintf("two streamers, the first ends with %s, cancel %v", endNames[end], cancel)
				add(s)
			}
		}
	}
	// the connection phase
	for _, f := range []struct {
		n    string
		f    fm.Fault
		hang bool
	}{
		{"no fault", fm.Fault{}, false},
		{"dial fails", fm.Fault{DialErr: fmt.Errorf("connection refused")}, false},
		{"dial hangs", fm.Fault{DialHang: true}, true},
		{"error instead of a greeting", fm.Fault{GreetERR: true}, false},
		{"closed instead of a greeting", fm.Fault{GreetDrop: true}, false},
		{"no greeting", fm.Fault{GreetHang: true}, true},
		{"access denied", fm.Fault{AuthERR: true}, false},
		{"closed after the authentication", fm.Fault{AuthDrop: true}, false},
		{"no answer to the authentication", fm.Fault{AuthHang: true}, true},
		{"SET refused", fm.Fault{QueryERR: true}, false},
		{"closed after SET", fm.Fault{QueryDrop: true}, false},
		{"no answer to SET", fm.Fault{QueryHang: true}, true},
		{"write of SET fails", fm.Fault{QueryWrErr: true}, false},
		{"write of the dump request fails", fm.Fault{DumpWrErr: true}, false},
	} {
		for _, cancel := range []bool{false, true} {
			if f.hang && !cancel {
				continue
			}
			s := base
			s.log, s.end, s.fault, s.connect, s.cancel = tinyLog(false), fm.EndEOF, f.f, true, cancel
			s.bound = [2]int{1, 2}
			s.parts = 4
			s.name = fmt.Sprintf("connecting: %s, cancel %v", f.n, cancel)
			add(s)
		}
	}
	// two attempts on one streamer
	for _, first := range []fm.End{fm.EndEOF, fm.EndERR, fm.EndReset, fm.EndHang} {
		for _, second := range []fm.End{fm.EndEOF, fm.EndERR, fm.EndReset} {
			for _, cancel := range []bool{false, true} {
				if first == fm.EndHang && !cancel || cancel && first != fm.EndHang && first != second {
					continue
				}
				s := base
				s.log, s.end, s.cancel, s.attempts, s.second = tinyLog(true), first, cancel, 2, second
				s.bound = [2]int{1, 2}
				s.parts = 4
				s.name = fmt.Sprintf("two attempts, ending with %s then %s, cancel %v", endNames[first], endNames[second], cancel)
				add(s)
				if cancel && first != fm.EndHang {
					s.late, s.bound = true, [2]int{0, 1}
					s.name += ", possibly late"
					add(s)
				}
			}
		}
	}
	for _, f := range []struct {
		n string
		f fm.Fault
	}{{"dial fails", fm.Fault{DialErr: fmt.Errorf("connection refused")}}, {"SET refused", fm.Fault{QueryERR: true}}, {"write of the dump request fails", fm.Fault{DumpWrErr: true}}} {
		for _, first := range []fm.End{fm.EndEOF, fm.EndReset} {
			s := base
			s.log, s.end, s.attempts, s.secondFl = tinyLog(true), first, 2, f.f
			s.bound = [2]int{1, 2}
			s.parts = 4
			s.name = fmt.Sprintf("two attempts, the first ends with %s, then %s", endNames[first], f.n)
			add(s)
		}
	}
	return out
}

func units(prop string) func(tier string) []run.Unit {
	return func(tier string) []run.Unit {
		var us []run.Unit
		for _, s := range scenarios(prop) {
			s := s
			if *paused {
				break
			}
			b, max := s.bound[0], int64(60000)
			if tier == "thorough" {
				b, max = s.bound[1], 3000000
			}
			b = max0(b - *less)
			parts := s.parts
			if b == 0 {
				parts = 1
			}
			what := "preemptions"
			if s.delay {
				what = "deviations"
			}
			for i := 0; i < parts; i++ {
				i := i
				us = append(us, run.Unit{Name: fmt.Sprintf("%s, %d %s, part %d/%d", s.name, b, what, i, parts), Run: func(u *run.U) {
					if theRig == nil {
						theRig = e2e.NewRig(4, table, table2)
						twinRig = e2e.NewRig(5, table, table2)
					}
					explore(u, s, b, i, parts, max)
				}})
			}
		}
		for _, x := range pauseUnits(prop)(tier) {
			// the race detector needs no schedule of its own to see a race
			if *less == 0 || strings.Contains(x.Name, "one place") || strings.Contains(x.Name, "attempts") || strings.Contains(x.Name, "cancelled") || strings.Contains(x.Name, "failures") {
				us = append(us, x)
			}
		}
		return us
	}
}

var less = flag.Int("less", 0, "explore this many preemptions fewer")

var paused = flag.Bool("paused", false, "only the lives in which time passes")

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

// touching formats every message it is given, as a real logger does, without
// ordering the goroutines that log.
type touching struct{ log.DefaultLogger }

func (touching) Debugf(f string, a ...interface{})   { _ = fmt.Sprintf(f, a...) }
func (touching) Infof(f string, a ...interface{})    { _ = fmt.Sprintf(f, a...) }
func (touching) Warnf(f string, a ...interface{})    { _ = fmt.Sprintf(f, a...) }
func (touching) Warningf(f string, a ...interface{}) { _ = fmt.Sprintf(f, a...) }
func (touching) Errorf(f string, a ...interface{})   { _ = fmt.Sprintf(f, a...) }

func main() {
	if os.Getenv("GOMAXPROCS") != "1" {
		runtime.GOMAXPROCS(1)
	}
	gobinlog.SetLogger(touching{})
	runtime.VerifPrefix("github.com/Breeze0806/")
	run.Main(
		&run.Check{ID: "C01", Units: pauseUnits("C01")},
		&run.Check{ID: "C02", Units: pauseUnits("C02")},
		&run.Check{ID: "C03", Units: pauseUnits("C03")},
		&run.Check{ID: "C07", Units: pauseUnits("C07")},
		&run.Check{ID: "C08", Units: pauseUnits("C08")},
		&run.Check{ID: "C04", Units: units("C04")},
		&run.Check{ID: "C05", Units: units("C05")},
		&run.Check{ID: "C06", Units: units("C06")},
	)
}
