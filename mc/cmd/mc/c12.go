package main

import (
	"fmt"
	"sync"
	"time"
	_ "time/tzdata"

	"verif/ref"
	"verif/run"
)

// tzMu guards time.Local: the zone units change it, the end-to-end units rely
// on it.
var tzMu sync.RWMutex

func lockTZ(u *run.U, try func() bool) {
	for !try() {
		u.Beat()
		time.Sleep(2 * time.Millisecond)
	}
}

var zones = []string{"UTC", "America/New_York", "Asia/Shanghai", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Apia", "America/St_Johns", "Asia/Kathmandu", "Pacific/Kiritimati", "Africa/Monrovia"}

func fracSet(fsp int, all bool) []int {
	unit := 1
	for i := fsp; i < 6; i++ {
		unit *= 10
	}
	n := 1000000 / unit
	if all {
		var o []int
		for i := 0; i < n; i++ {
			o = append(o, i*unit)
		}
		return o
	}
	seen := map[int]bool{}
	var o []int
	for _, v := range []int{0, 1, 2, 5, 9, 10, 11, 25, 50, 90, 99, 100, 101, 123, 127, 128, 129, 199, 255, 256, 257, 500, 999, 1000, 1001, 4999, 5000, 9999, 10000, 12345, 32767, 32768, 50000, 65535, 65536, 65537, 99999, 100000, 123456, 500000, 900000, 999999} {
		if v >= n {
			continue
		}
		for _, w := range []int{v, n - 1 - v} {
			if !seen[w] {
				seen[w] = true
				o = append(o, w*unit)
			}
		}
	}
	return o
}

func c12Units(tier string) []run.Unit {
	th := tier == "thorough"
	var us []run.Unit
	for _, t := range []byte{ref.TDate, ref.TNewDate} {
		t := t
		us = append(us, split(fmt.Sprintf("DATE type %d every date", t), 4, func(u *run.U, i, n int) {
			c := newCellT(u)
			var y, m, d int
			u.Cur(func() string { return fmt.Sprintf("%04d-%02d-%02d", y, m, d) })
			var enc, want []byte
			for y = i; y <= 9999; y += n {
				for m = 0; m <= 12; m++ {
					for d = 0; d <= 31; d++ {
						enc = ref.LE(enc[:0], uint64(d|m<<5|y<<9), 3)
						want = ref.AppendDate(want[:0], y, m, d)
						c.text(t, 0, false, enc, want)
					}
				}
				u.Eval(13 * 32)
			}
			u.Sample("%x -> %s", enc, want)
		})...)
	}
	us = append(us, split("TIME (old) every value", 8, func(u *run.U, i, n int) {
		c := newCellT(u)
		var h, m, s, sg int
		u.Cur(func() string { return fmt.Sprintf("neg=%v %d:%02d:%02d", sg == 1, h, m, s) })
		var enc, want []byte
		for h = i; h <= 838; h += n {
			for m = 0; m < 60; m++ {
				for s = 0; s < 60; s++ {
					for sg = 0; sg < 2; sg++ {
						if sg == 1 && h+m+s == 0 {
							continue
						}
						v := int64(h*10000 + m*100 + s)
						want = want[:0]
						if sg == 1 {
							v = -v
							want = append(want, '-')
						}
						enc = ref.LE(enc[:0], uint64(v), 3)
						want = ref.AppendClock(want, h, m, s, 0, 0)
						c.text(ref.TTime, 0, false, enc, want)
					}
				}
			}
			u.Eval(7200)
		}
		u.Sample("%x -> %s", enc, want)
	})...)
	time2 := func(u *run.U, c *cellT, enc, want *[]byte, neg bool, h, m, s, us, fsp int) {
		if neg && h+m+s+us == 0 {
			return
		}
		*want = (*want)[:0]
		if neg {
			*want = append(*want, '-')
		}
		*enc = ref.AppendTime2((*enc)[:0], neg, h, m, s, us, fsp)
		*want = ref.AppendClock(*want, h, m, s, us, fsp)
		c.text(ref.TTime2, uint16(fsp), false, *enc, *want)
	}
	for fsp := 0; fsp <= 6; fsp++ {
		fsp := fsp
		parts := 2
		if fsp == 0 || th {
			parts = 8
		}
		us = append(us, split(fmt.Sprintf("TIME(%d) every h:m:s, boundary fractions", fsp), parts, func(u *run.U, i, n int) {
			c := newCellT(u)
			var h, m, s, f int
			var neg bool
			u.Cur(func() string { return fmt.Sprintf("TIME(%d) neg=%v %d:%02d:%02d.%06d", fsp, neg, h, m, s, f) })
			fr := fracSet(fsp, false)
			if !th && len(fr) > 6 {
				fr = append(append([]int(nil), fr[:3]...), fr[len(fr)-3:]...)
			}
			step := 1
			if !th && fsp > 0 {
				step = 7
			}
			var enc, want []byte
			for h = i; h <= 838; h += n {
				k := int64(0)
				for ms := h % step; ms < 3600; ms += step {
					m, s = ms/60, ms%60
					for _, f = range fr {
						for _, neg = range []bool{false, true} {
							time2(u, c, &enc, &want, neg, h, m, s, f, fsp)
							k++
						}
					}
				}
				u.Eval(k)
			}
			u.Sample("%x -> %s", enc, want)
		})...)
		if fsp > 0 {
			us = append(us, split(fmt.Sprintf("TIME(%d) every fraction, boundary h:m:s", fsp), parts, func(u *run.U, i, n int) {
				c := newCellT(u)
				var f int
				var t [3]int
				var neg bool
				u.Cur(func() string { return fmt.Sprintf("TIME(%d) neg=%v %v.%06d", fsp, neg, t, f) })
				all := fracSet(fsp, true)
				var enc, want []byte
				for k := i; k < len(all); k += n {
					f = all[k]
					for _, t = range [][3]int{{0, 0, 0}, {0, 0, 1}, {0, 0, 59}, {0, 1, 0}, {0, 59, 59}, {1, 0, 0}, {511, 59, 59}, {512, 0, 0}, {838, 59, 58}, {838, 59, 59}} {
						if t[0] == 838 && t[2] == 59 && f != 0 {
							continue
						}
						for _, neg = range []bool{false, true} {
							time2(u, c, &enc, &want, neg, t[0], t[1], t[2], f, fsp)
						}
					}
					u.Eval(20)
				}
				u.Sample("%x -> %s", enc, want)
			})...)
		}
	}
	clocks := [][3]int{{0, 0, 0}, {0, 0, 1}, {0, 1, 0}, {1, 0, 0}, {9, 9, 9}, {12, 34, 56}, {23, 59, 59}}
	dates := [][3]int{{0, 0, 0}, {0, 0, 1}, {0, 1, 0}, {1, 1, 1}, {999, 9, 9}, {1000, 1, 1}, {1970, 1, 1}, {2000, 2, 29}, {2021, 12, 31}, {2021, 0, 0}, {9999, 12, 31}}
	us = append(us, split("DATETIME (old) every date, every clock", 8, func(u *run.U, i, n int) {
		c := newCellT(u)
		var d, t [3]int
		u.Cur(func() string { return fmt.Sprint(d, t) })
		var enc, want []byte
		one := func() {
			v := uint64(d[0])*1e10 + uint64(d[1])*1e8 + uint64(d[2])*1e6 + uint64(t[0])*1e4 + uint64(t[1])*100 + uint64(t[2])
			enc = ref.LE(enc[:0], v, 8)
			want = append(ref.AppendDate(want[:0], d[0], d[1], d[2]), ' ')
			want = ref.AppendClock(want, t[0], t[1], t[2], 0, 0)
			c.text(ref.TDateTime, 0, false, enc, want)
		}
		cl := clocks
		if !th {
			cl = [][3]int{clocks[0], clocks[6]}
		}
		for y := i; y <= 9999; y += n {
			k := int64(0)
			for m := 0; m <= 12; m++ {
				for dd := 0; dd <= 31; dd++ {
					d = [3]int{y, m, dd}
					for _, t = range cl {
						one()
						k++
					}
				}
			}
			u.Eval(k)
		}
		for s := i; s < 86400; s += n {
			t = [3]int{s / 3600, s / 60 % 60, s % 60}
			for _, d = range dates {
				one()
			}
			u.EvalDup(int64(len(dates)))
		}
		u.Sample("%x -> %s", enc, want)
	})...)
	for fsp := 0; fsp <= 6; fsp++ {
		fsp := fsp
		us = append(us, split(fmt.Sprintf("DATETIME(%d) every date, every clock, every fraction", fsp), 4, func(u *run.U, i, n int) {
			c := newCellT(u)
			var d, t [3]int
			var f int
			u.Cur(func() string { return fmt.Sprintf("DATETIME(%d) %v %v.%06d", fsp, d, t, f) })
			var enc, want []byte
			one := func() {
				enc = ref.AppendDateTime2(enc[:0], d[0], d[1], d[2], t[0], t[1], t[2], f, fsp)
				want = append(ref.AppendDate(want[:0], d[0], d[1], d[2]), ' ')
				want = ref.AppendClock(want, t[0], t[1], t[2], f, fsp)
				c.text(ref.TDateTime2, uint16(fsp), false, enc, want)
			}
			fr := fracSet(fsp, false)
			last := fr[len(fr)-1]
			step := 1
			if !th && fsp != 6 && fsp != 0 {
				step = 5
			}
			for y := i; y <= 9999; y += n * step {
				for m := 0; m <= 12; m++ {
					for dd := 0; dd <= 31; dd++ {
						d, t, f = [3]int{y, m, dd}, clocks[dd%len(clocks)], 0
						one()
						f = last
						one()
					}
				}
				u.Eval(13 * 32 * 2)
			}
			for s := i; s < 86400; s += n {
				t = [3]int{s / 3600, s / 60 % 60, s % 60}
				for _, d = range dates {
					f = fr[s%len(fr)]
					one()
				}
				u.EvalDup(int64(len(dates)))
			}
			all := fracSet(fsp, true)
			for k := i; k < len(all); k += n {
				f = all[k]
				for _, d = range dates[:2] {
					for _, t = range [][3]int{{0, 0, 0}, {23, 59, 59}} {
						one()
					}
				}
				u.EvalDup(4)
			}
			u.Sample("%x -> %s", enc, want)
		})...)
	}
	for zi, z := range zones {
		z := z
		zi := zi
		us = append(us, unit("TIMESTAMP in "+z, func(u *run.U) {
			loc, err := time.LoadLocation(z)
			if err != nil {
				u.Cap("no zone %s: %v", z, err)
				return
			}
			lockTZ(u, tzMu.TryLock)
			defer tzMu.Unlock()
			old := time.Local
			time.Local = loc
			defer func() { time.Local = old }()
			c := newCellT(u)
			var sec uint32
			var f, fsp int
			u.Cur(func() string { return fmt.Sprintf("TIMESTAMP %d.%06d fsp %d in %s", sec, f, fsp, z) })
			var enc, want []byte
			one := func() {
				want = ref.AppendTimestampText(want[:0], sec, 0, 0)
				enc = ref.LE(enc[:0], uint64(sec), 4)
				c.text(ref.TTimestamp, 0, false, enc, want)
				enc = ref.BE(enc[:0], uint64(sec), 4)
				c.text(ref.TTimestamp2, 0, false, enc, want)
				u.Eval(2)
			}
			frac := func(all bool) {
				for fsp = 1; fsp <= 6; fsp++ {
					for _, f = range fracSet(fsp, all) {
						if sec == 0 && f != 0 {
							continue
						}
						want = ref.AppendTimestampText(want[:0], sec, f, fsp)
						enc = ref.AppendFrac(ref.BE(enc[:0], uint64(sec), 4), f, fsp)
						c.text(ref.TTimestamp2, uint16(fsp), false, enc, want)
						u.Eval(1)
					}
				}
				f, fsp = 0, 0
			}
			// around every transition of the zone
			const max = 1<<31 - 1
			_, po := time.Unix(0, 0).In(loc).Zone()
			step := uint32(86400)
			for s := step; s < max-step; s += step {
				_, o := time.Unix(int64(s), 0).In(loc).Zone()
				if o == po {
					continue
				}
				lo, hi := s-step, s
				for hi-lo > 1 {
					mid := lo + (hi-lo)/2
					if _, m := time.Unix(int64(mid), 0).In(loc).Zone(); m == po {
						lo = mid
					} else {
						hi = mid
					}
				}
				for sec = hi - 3; sec <= hi+3; sec++ {
					one()
				}
				po = o
				u.Extra("zone transitions", 1)
			}
			stride := uint32(86400*3 + 3607)
			if th {
				stride = 2411
			}
			for s := uint64(1); s <= max; s += uint64(stride) {
				sec = uint32(s)
				one()
			}
			// an unsigned 32-bit number of seconds: MySQL stores the lower half,
			// newer MariaDB servers the upper half too
			for s := uint64(1) << 31; s < 1<<32; s += uint64(stride) {
				sec = uint32(s)
				one()
			}
			for _, sec = range []uint32{0, 1, 2, 59, 60, 86399, 86400, 1<<30 - 1, 1 << 30, 1<<31 - 1, 1 << 31, 1<<31 + 1, 3 << 30, 1<<32 - 2, 1<<32 - 1} {
				one()
				frac(false)
			}
			sec = 1620900000
			frac(th || zi == 0)
			u.Sample("%s: %d -> %s", z, sec, ref.AppendTimestampText(nil, sec, 0, 0))
		}))
	}
	us = append(us, e2eTypeUnits(tier, "end to end", []byte{ref.TDate, ref.TNewDate, ref.TTime, ref.TTime2, ref.TDateTime, ref.TDateTime2, ref.TTimestamp, ref.TTimestamp2}, nil)...)
	return us
}
