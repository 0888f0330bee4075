package main

import (
	"encoding/hex"
	"fmt"
	"sort"
	"strconv"
	"strings"
	_ "unsafe"

	rep "github.com/Breeze0806/gobinlog/replication"

	"verif/ref"
	"verif/run"
)

//go:linkname setParsers github.com/Breeze0806/gobinlog/replication.gtidSetParsers
var setParsers map[string]func(string) (rep.GTIDSet, error)

// sidText is the canonical text of a server UUID.
func sidText(s rep.SID) string {
	h := hex.EncodeToString(s[:])
	return h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
}

// universe is the space of the model: sets of (uuid, number) pairs as bit sets.
type universe struct {
	sids []rep.SID
	seqs []int64
}

func (v *universe) n() int { return len(v.sids) * len(v.seqs) }

func (v *universe) gtid(i int) rep.Mysql56GTID {
	return rep.Mysql56GTID{Server: v.sids[i/len(v.seqs)], Sequence: v.seqs[i%len(v.seqs)]}
}

type iv struct{ a, b int64 }

func (v *universe) intervals(set uint64, s int) []iv {
	var out []iv
	for q := range v.seqs {
		if set>>(uint(s*len(v.seqs)+q))&1 == 0 {
			continue
		}
		x := v.seqs[q]
		if n := len(out); n > 0 && out[n-1].b == x-1 {
			out[n-1].b = x
			continue
		}
		out = append(out, iv{x, x})
	}
	return out
}

func (v *universe) order() []int {
	o := make([]int, len(v.sids))
	for i := range o {
		o[i] = i
	}
	sort.Slice(o, func(a, b int) bool { return string(v.sids[o[a]][:]) < string(v.sids[o[b]][:]) })
	return o
}

// text is the canonical text of a set.
func (v *universe) text(set uint64) string {
	var p []string
	for _, s := range v.order() {
		ivs := v.intervals(set, s)
		if len(ivs) == 0 {
			continue
		}
		t := sidText(v.sids[s])
		for _, x := range ivs {
			if x.a == x.b {
				t += fmt.Sprintf(":%d", x.a)
			} else {
				t += fmt.Sprintf(":%d-%d", x.a, x.b)
			}
		}
		p = append(p, t)
	}
	return strings.Join(p, ",")
}

// block is the SID-block form.
func (v *universe) block(set uint64) []byte {
	n := 0
	var body []byte
	for _, s := range v.order() {
		ivs := v.intervals(set, s)
		if len(ivs) == 0 {
			continue
		}
		n++
		body = append(body, v.sids[s][:]...)
		body = ref.LE(body, uint64(len(ivs)), 8)
		for _, x := range ivs {
			body = ref.LE(body, uint64(x.a), 8)
			body = ref.LE(body, uint64(x.b+1), 8)
		}
	}
	return append(ref.LE(nil, uint64(n), 8), body...)
}

func sid(b ...byte) rep.SID {
	var s rep.SID
	copy(s[:], b)
	return s
}

func fromBlock(u *run.U, b []byte) rep.Mysql56GTIDSet {
	s, err := rep.NewMysql56GTIDSetFromSIDBlock(append([]byte(nil), b...))
	if err != nil {
		u.Fail("SID block %x: %v", b, err)
	}
	return s
}

// build makes the real set for a model set, by the given route.
func (v *universe) build(u *run.U, set uint64, route int) rep.GTIDSet {
	switch route {
	case 0:
		return fromBlock(u, v.block(set))
	case 1:
		if p := setParsers["MySQL56"]; p != nil {
			s, err := p(v.text(set))
			if err != nil {
				u.Fail("parsing %q: %v", v.text(set), err)
			}
			return s
		}
		return fromBlock(u, v.block(set))
	case 5, 6:
		// as servers show it: a line for each uuid; and with blanks
		t := strings.Replace(v.text(set), ",", [2]string{",\n", ", "}[route-5], -1)
		if p := setParsers["MySQL56"]; p != nil {
			s, err := p(t)
			if err != nil {
				u.Fail("parsing %q: %v", t, err)
			}
			return s
		}
		return fromBlock(u, v.block(set))
	case 2, 3:
		var s rep.GTIDSet = rep.Mysql56GTIDSet{}
		for k := 0; k < v.n(); k++ {
			i := k
			if route == 3 {
				i = v.n() - 1 - k
			}
			if set>>uint(i)&1 == 1 {
				s = s.AddGTID(v.gtid(i))
			}
		}
		return s
	}
	// evens, then odds: merges in the middle
	var s rep.GTIDSet = rep.Mysql56GTIDSet{}
	for r := 0; r < 2; r++ {
		for i := r; i < v.n(); i += 2 {
			if set>>uint(i)&1 == 1 {
				s = s.AddGTID(v.gtid(i))
			}
		}
	}
	return s
}

var routes = []string{"SID block", "text", "adding up", "adding down", "adding evens then odds", "text of several lines", "text with blanks"}

func c18Units(tier string) []run.Unit {
	th := tier == "thorough"
	s1, s2, s3 := sid(0x00, 0x11, 0x22, 0x33, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12), sid(0xff, 0xee, 1), sid(0x00, 0x11, 0x22, 0x33, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13)
	mx := int64(1<<63 - 1)
	type uni struct {
		name string
		v    *universe
		pair bool
	}
	us := []uni{
		{"2 uuids x 6 numbers", &universe{[]rep.SID{s1, s2}, []int64{1, 2, 3, 4, 5, 6}}, true},
		{"3 uuids x 4 numbers", &universe{[]rep.SID{s2, s1, s3}, []int64{1, 2, 3, 4}}, true},
		{"1 uuid x 11 numbers", &universe{[]rep.SID{s1}, []int64{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}}, true},
		{"2 uuids x 5 numbers at powers", &universe{[]rep.SID{s1, s2}, []int64{1, 2, 1 << 31, 1<<31 + 1, mx - 3}}, true},
		{"1 uuid x 10 high numbers", &universe{[]rep.SID{s2}, []int64{9, 10, 11, 1<<32 - 1, 1 << 32, 1<<32 + 1, mx - 4, mx - 3, mx - 2, mx - 1}}, true},
	}
	us = append(us, uni{"4 uuids x 3 numbers", &universe{[]rep.SID{s3, s2, s1, sid(0x00, 0x11, 0x22, 0x34)}, []int64{1, 2, 3}}, true})
	if th {
		us[0] = uni{"2 uuids x 7 numbers", &universe{[]rep.SID{s1, s2}, []int64{1, 2, 3, 4, 5, 6, 7}}, true}
		us[1] = uni{"3 uuids x 5 numbers", &universe{[]rep.SID{s2, s1, s3}, []int64{1, 2, 3, 4, 5}}, false}
		us[2] = uni{"1 uuid x 14 numbers", &universe{[]rep.SID{s1}, []int64{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}}, true}
	}
	var out []run.Unit
	for _, x := range us {
		x := x
		v := x.v
		total := uint64(1) << uint(v.n())
		parts := 16
		for rt := range routes {
			rt := rt
			out = append(out, split(fmt.Sprintf("%s, built by %s: membership, addition", x.name, routes[rt]), parts, func(u *run.U, part, parts int) {
				var set uint64
				var g int
				u.Cur(func() string { return fmt.Sprintf("set %q, gtid %v", v.text(set), v.gtid(g)) })
				for set = uint64(part); set < total; set += uint64(parts) {
					u.State(run.Hash(x.name, fmt.Sprint(set)))
					s := v.build(u, set, rt)
					want := v.text(set)
					if got := s.String(); got != want {
						u.Fail("text %q, want %q", got, want)
					}
					// what was derived from the set stays as it was whatever else is derived from it
					kids := make([]rep.GTIDSet, v.n())
					for g = 0; g < v.n(); g++ {
						has := set>>uint(g)&1 == 1
						if got := s.ContainsGTID(v.gtid(g)); got != has {
							u.Fail("ContainsGTID = %v, want %v", got, has)
						}
						t := s.AddGTID(v.gtid(g))
						if got, w := t.String(), v.text(set|1<<uint(g)); got != w {
							u.Fail("after AddGTID %q, want %q", got, w)
						}
						if got := s.String(); got != want {
							u.Fail("AddGTID changed the original into %q", got)
						}
						if !t.ContainsGTID(v.gtid(g)) || !t.Contains(s) || has != s.Equal(t) || has != t.Equal(s) || has != s.Contains(t) {
							u.Fail("after AddGTID: contains=%v superset=%v equal=%v/%v reverse superset=%v, gtid was present: %v", t.ContainsGTID(v.gtid(g)), t.Contains(s), s.Equal(t), t.Equal(s), s.Contains(t), has)
						}
						u.Trans(1)
						kids[g] = t
						// two further additions branching from the same set
						var grand [3]rep.GTIDSet
						for k := 1; k <= 2; k++ {
							h := (g + k*3 + 1) % v.n()
							t2 := t.AddGTID(v.gtid(h))
							if got, w := t2.String(), v.text(set|1<<uint(g)|1<<uint(h)); got != w {
								u.Fail("after a second AddGTID(%v) %q, want %q", v.gtid(h), got, w)
							}
							if got, w := t.String(), v.text(set|1<<uint(g)); got != w {
								u.Fail("a second AddGTID(%v) changed its receiver into %q, want %q", v.gtid(h), got, w)
							}
							grand[k] = t2
							u.Trans(1)
						}
						if got, w := grand[1].String(), v.text(set|1<<uint(g)|1<<uint((g+4)%v.n())); got != w {
							u.Fail("adding %v beside it changed %q into %q", v.gtid((g+7)%v.n()), w, got)
						}
						if got := s.String(); got != want {
							u.Fail("later additions changed the original into %q", got)
						}
						u.EvalDup(3)
						u.Trace(1)
					}
					for g = 0; g < v.n(); g++ {
						if got, w := kids[g].String(), v.text(set|1<<uint(g)); got != w {
							u.Fail("additions beside it changed %q into %q", w, got)
						}
					}
					g = 0
					// neighbours of the universe
					for _, q := range []int64{v.seqs[0] - 1, v.seqs[len(v.seqs)-1] + 1, 0} {
						if q == mx {
							continue
						}
						if s.ContainsGTID(rep.Mysql56GTID{Server: v.sids[0], Sequence: q}) {
							u.Fail("contains %d", q)
						}
					}
					if s.ContainsGTID(rep.Mysql56GTID{Server: sid(0xAB), Sequence: v.seqs[0]}) {
						u.Fail("contains a number of an unknown uuid")
					}
				}
				u.Sample("set %q", v.text(set-uint64(parts)))
			})...)
		}
		if !x.pair {
			continue
		}
		for _, rts := range [][2]int{{0, 0}, {1, 3}, {4, 2}, {3, 1}} {
			rts := rts
			out = append(out, split(fmt.Sprintf("%s, every pair, built by %s and %s", x.name, routes[rts[0]], routes[rts[1]]), parts, func(u *run.U, part, parts int) {
				if u.Tier != "thorough" && total > 4096 {
					return
				}
				rs := make([]rep.GTIDSet, total)
				for i := range rs {
					rs[i] = v.build(u, uint64(i), rts[1])
				}
				var a, b uint64
				u.Cur(func() string { return fmt.Sprintf("%q and %q", v.text(a), v.text(b)) })
				for a = uint64(part); a < total; a += uint64(parts) {
					s := v.build(u, a, rts[0])
					for b = 0; b < total; b++ {
						if got, w := s.Contains(rs[b]), b&^a == 0; got != w {
							u.Fail("Contains = %v, want %v", got, w)
						}
						if got, w := s.Equal(rs[b]), a == b; got != w {
							u.Fail("Equal = %v, want %v", got, w)
						}
					}
					u.Trans(int64(2 * total))
					u.EvalDup(int64(2 * total))
				}
				b = 1
				u.Sample("%q against all %d sets", v.text(a-uint64(parts)), total)
			})...)
		}
	}
	// sets of many intervals: long lists, every number at and around every end
	us18 := []struct{ width, gap int64 }{{1, 1}, {2, 1}, {3, 2}, {1, 4}}
	maxN := 24
	if th {
		maxN = 70
	}
	for _, x := range us18 {
		x := x
		out = append(out, split(fmt.Sprintf("up to %d intervals of %d numbers with gaps of %d", maxN, x.width, x.gap), 4, func(u *run.U, part, parts int) {
			var n int
			var q int64
			u.Cur(func() string { return fmt.Sprintf("%d intervals, number %d", n, q) })
			per := x.width + x.gap
			for n = 1 + part; n <= maxN; n += parts {
				top := int64(n)*per + 3
				for base := 0; base < 2; base++ {
					var seqs []int64
					for q = 0; q <= top; q++ {
						seqs = append(seqs, q+1+int64(base)*(1<<40))
					}
					for other := 0; other < 2; other++ {
						// membership as a predicate over the window
						in := map[int64]bool{}
						var ivs []iv
						for k := int64(0); k < int64(n); k++ {
							ivs = append(ivs, iv{seqs[0] + 1 + k*per, seqs[0] + k*per + x.width})
							for j := int64(0); j < x.width; j++ {
								in[seqs[0]+1+k*per+j] = true
							}
						}
						s := wideSet(u, ivs, s1, other == 1)
						want := wideText(ivs, s1, other == 1)
						if got := s.String(); got != want {
							u.Fail("text %q, want %q", got, want)
						}
						u.State(run.Hash("wide", want))
						var kids []rep.GTIDSet
						for _, q = range seqs {
							g := rep.Mysql56GTID{Server: s1, Sequence: q}
							if got := s.ContainsGTID(g); got != in[q] {
								u.Fail("ContainsGTID = %v, want %v, set %s", got, in[q], want)
							}
							t := s.AddGTID(g)
							w := wideText(insertIv(ivs, q), s1, other == 1)
							kids = append(kids, t)
							if got := t.String(); got != w {
								u.Fail("after AddGTID %q, want %q", got, w)
							}
							if got := s.String(); got != want {
								u.Fail("AddGTID changed the original into %q", got)
							}
							if !t.Contains(s) || in[q] != s.Contains(t) || in[q] != s.Equal(t) || in[q] != t.Equal(s) || !t.ContainsGTID(g) {
								u.Fail("relations of %s and %s", want, w)
							}
							// the set without the interval holding q, and with that interval cut short
							for k, y := range ivs {
								if q != y.a && q != y.b {
									continue
								}
								less := append(append([]iv(nil), ivs[:k]...), ivs[k+1:]...)
								sub := wideSet(u, less, s1, other == 1)
								if !s.Contains(sub) || sub.Contains(s) || s.Equal(sub) || sub.Equal(s) || sub.ContainsGTID(g) {
									u.Fail("relations of %s and the same without %d-%d", want, y.a, y.b)
								}
								u.Trans(5)
								more := append([]iv(nil), ivs...)
								more[k].b = y.b + x.gap - 1
								if x.gap > 1 {
									sup := wideSet(u, more, s1, other == 1)
									if s.Contains(sup) || !sup.Contains(s) || s.Equal(sup) {
										u.Fail("relations of %s and the same with %d-%d", want, more[k].a, more[k].b)
									}
									u.Trans(3)
								}
							}
							u.Trans(6)
							u.Eval(1)
							u.Trace(1)
						}
						for i := range kids {
							q = seqs[i]
							if got, w := kids[i].String(), wideText(insertIv(ivs, q), s1, other == 1); got != w {
								u.Fail("additions beside it changed %q into %q", w, got)
							}
						}
					}
				}
			}
			u.Sample("up to %d intervals", maxN)
		})...)
	}
	// long lists, and many uuids
	long := []int{25, 31, 32, 33, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 9999, 10000, 10001, 16384, 32767, 32768, 65535, 65536, 65537}
	if th {
		long = append(long, 1<<17, 1<<18, 1000000)
	}
	for _, n := range long {
		n := n
		out = append(out, run.Unit{Name: fmt.Sprintf("a uuid of %d intervals", n), Run: func(u *run.U) {
			k := 0
			u.Cur(func() string { return fmt.Sprintf("%d intervals 2-3, 6-7, 10-11 ..., interval %d", n, k) })
			list := func(n int) []iv {
				x := make([]iv, n)
				for i := range x {
					x[i] = iv{int64(2 + 4*i), int64(3 + 4*i)}
				}
				return x
			}
			ivs := list(n)
			s := wideSet(u, ivs, s1, false)
			if got, w := s.String(), wideText(ivs, s1, false); got != w {
				u.Fail("text of %d bytes, want %d", len(got), len(w))
			}
			for _, k = range ends(n, 1100) {
				for q := ivs[k].a - 2; q <= ivs[k].b+2; q++ {
					g := rep.Mysql56GTID{Server: s1, Sequence: q}
					has := q%4 >= 2 && q < int64(2+4*n) && q > 1
					if got := s.ContainsGTID(g); got != has {
						u.Fail("ContainsGTID(%d) = %v, want %v", q, got, has)
					}
					u.Trans(1)
				}
				less := wideSet(u, append(append([]iv(nil), ivs[:k]...), ivs[k+1:]...), s1, false)
				cut := append([]iv(nil), ivs...)
				cut[k].b--
				part := wideSet(u, cut, s1, false)
				for i, x := range []rep.GTIDSet{less, part} {
					if s.Equal(x) || x.Equal(s) || !s.Contains(x) || x.Contains(s) {
						u.Fail("case %d: Equal %v %v, Contains %v %v, want false false true false", i, s.Equal(x), x.Equal(s), s.Contains(x), x.Contains(s))
					}
				}
				back := part.AddGTID(rep.Mysql56GTID{Server: s1, Sequence: ivs[k].b})
				if !back.Equal(s) || !s.Equal(back) || !back.Contains(s) || !s.Contains(back) {
					u.Fail("adding what was missing does not give the set")
				}
				if part.ContainsGTID(rep.Mysql56GTID{Server: s1, Sequence: ivs[k].b}) {
					u.Fail("AddGTID changed the set")
				}
				for _, q := range []int64{ivs[k].a - 1, ivs[k].b + 1} {
					t := s.AddGTID(rep.Mysql56GTID{Server: s1, Sequence: q})
					if k%(n/16+1) == 0 || k == n-1 {
						if got, w := t.String(), wideText(insertIv(ivs, q), s1, false); got != w {
							u.Fail("adding %d gives another text", q)
						}
					}
					if !t.Contains(s) || s.Contains(t) || !t.ContainsGTID(rep.Mysql56GTID{Server: s1, Sequence: q}) {
						u.Fail("adding %d: relations", q)
					}
				}
				u.Trans(20)
				u.State(run.Hash("long", fmt.Sprint(n), fmt.Sprint(k)))
				u.Eval(1)
				u.Trace(1)
			}
			if n > 20000 {
				return
			}
			// as many uuids
			k = -1
			var b []byte
			at := func(i int) rep.SID { return sid(byte(i>>16), byte(i>>8), byte(i), 7) }
			for i := 0; i < n; i++ {
				x := at(i)
				b = ref.LE(append(b, x[:]...), 1, 8)
				b = ref.LE(ref.LE(b, uint64(i+1), 8), uint64(i+3), 8)
			}
			m := fromBlock(u, append(ref.LE(nil, uint64(n), 8), b...))
			if got := strings.Count(m.String(), ","); got != n-1 {
				u.Fail("%d uuids, want %d", got+1, n)
			}
			for _, k = range ends(n, 130) {
				y := m.AddGTID(rep.Mysql56GTID{Server: at(k), Sequence: int64(k + 3)})
				z := m.AddGTID(rep.Mysql56GTID{Server: at(n + 5), Sequence: 1})
				for _, x := range []rep.GTIDSet{y, z} {
					if !x.Contains(m) || m.Contains(x) || m.Equal(x) || x.Equal(m) {
						u.Fail("%d uuids: relations after an addition", n)
					}
				}
				if y.Contains(z) || z.Contains(y) || y.Equal(z) || !m.ContainsGTID(rep.Mysql56GTID{Server: at(k), Sequence: int64(k + 2)}) || m.ContainsGTID(rep.Mysql56GTID{Server: at(k), Sequence: int64(k + 3)}) {
					u.Fail("%d uuids: relations", n)
				}
				u.Trans(12)
				u.Eval(1)
				u.Trace(1)
			}
			u.Sample("%d intervals, %d uuids", n, n)
		}})
	}
	return out
}

// ends lists the indices of n things: all when they are few, else those at the ends and around the powers of two.
func ends(n, few int) []int {
	var out []int
	for i := 0; i < n; i++ {
		j := n - 1 - i
		if n <= few || i < 3 || j < 3 || i&(i-1) == 0 || (i+1)&i == 0 || (i-1)&(i-2) == 0 {
			out = append(out, i)
		}
	}
	return out
}

// insertIv is the canonical interval list with q added.
func insertIv(ivs []iv, q int64) []iv {
	var out []iv
	add := func(x iv) {
		if n := len(out); n > 0 && x.a <= out[n-1].b+1 {
			if x.b > out[n-1].b {
				out[n-1].b = x.b
			}
			return
		}
		out = append(out, x)
	}
	done := false
	for _, x := range ivs {
		if !done && q < x.a {
			add(iv{q, q})
			done = true
		}
		add(x)
		if q <= x.b && q >= x.a {
			done = true
		}
	}
	if !done {
		add(iv{q, q})
	}
	return out
}

// wideSet decodes a set of the given intervals (and one of another uuid).
func wideSet(u *run.U, ivs []iv, s rep.SID, other bool) rep.GTIDSet {
	n, body := uint64(0), []byte(nil)
	if other {
		o := s
		o[0] ^= 0x80
		if len(ivs) > 0 {
			n++
			body = ref.LE(append(body, s[:]...), uint64(len(ivs)), 8)
			for _, x := range ivs {
				body = ref.LE(ref.LE(body, uint64(x.a), 8), uint64(x.b+1), 8)
			}
		}
		n++
		body = ref.LE(append(body, o[:]...), 1, 8)
		body = ref.LE(ref.LE(body, 1, 8), 9, 8)
		return fromBlock(u, append(ref.LE(nil, n, 8), body...))
	}
	if len(ivs) > 0 {
		n++
		body = ref.LE(append(body, s[:]...), uint64(len(ivs)), 8)
		for _, x := range ivs {
			body = ref.LE(ref.LE(body, uint64(x.a), 8), uint64(x.b+1), 8)
		}
	}
	return fromBlock(u, append(ref.LE(nil, n, 8), body...))
}

func wideText(ivs []iv, s rep.SID, other bool) string {
	var p []byte
	if len(ivs) > 0 {
		p = append(p, sidText(s)...)
	}
	for _, x := range ivs {
		p = strconv.AppendInt(append(p, ':'), x.a, 10)
		if x.a != x.b {
			p = strconv.AppendInt(append(p, '-'), x.b, 10)
		}
	}
	t := string(p)
	if other {
		o := s
		o[0] ^= 0x80
		if t != "" {
			t += ","
		}
		t += sidText(o) + ":1-8"
	}
	return t
}
