package main

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"

	rep "github.com/Breeze0806/gobinlog/replication"

	"verif/ref"
	"verif/run"
)

func eventFormat(u *run.U, crc bool) rep.BinlogFormat {
	f := ref.FDE{BinlogVersion: 4, Server: "5.7.30-log", HeaderLen: 19, Sizes: ref.Sizes(57, false)}
	if crc {
		f.Alg = ref.CksumCRC32
	}
	bf, err := rep.NewMysql56BinlogEvent(f.Event(ref.Header{ServerID: 1})).Format()
	if err != nil {
		u.Fail("format description: %v", err)
	}
	return bf
}

func mustStrip(u *run.U, ev rep.BinlogEvent, f rep.BinlogFormat) rep.BinlogEvent {
	e, _, err := ev.StripChecksum(f)
	if err != nil {
		u.Fail("StripChecksum: %v", err)
	}
	return e
}

func c19Units(tier string) []run.Unit {
	th := tier == "thorough"
	var out []run.Unit
	var sids []rep.SID
	for _, b := range []byte{0, 0xff, 0x0a, 0xa0, 0x5c} {
		var s rep.SID
		for i := range s {
			s[i] = b
		}
		sids = append(sids, s)
	}
	for i := 0; i < 16; i++ {
		for _, b := range []byte{1, 0x7f, 0x80, 0xf0} {
			var s rep.SID
			s[i] = b
			sids = append(sids, s)
		}
	}
	var inc rep.SID
	for i := range inc {
		inc[i] = byte(0x10*i + 15 - i)
	}
	sids = append(sids, inc)
	seqs := []int64{}
	for _, p := range patterns(8, 1, 3) {
		if int64(p) > 0 {
			seqs = append(seqs, int64(p))
		}
	}
	roundTrip := func(u *run.U, g rep.GTID, text string) {
		if got := g.String(); got != text {
			u.Fail("prints as %q, want %q", got, text)
		}
		p, err := rep.ParseGTID(g.Flavor(), g.String())
		if err != nil || p != g {
			u.Fail("ParseGTID(%q) = %v, %v", g.String(), p, err)
		}
		e := rep.EncodeGTID(g)
		p, err = rep.DecodeGTID(e)
		if err != nil || p != g {
			u.Fail("DecodeGTID(%q) = %v, %v", e, p, err)
		}
	}
	out = append(out, unit("MySQL GTIDs: every uuid shape x sequence numbers", func(u *run.U) {
		var g rep.Mysql56GTID
		u.Cur(func() string { return fmt.Sprintf("uuid %x sequence %d", g.Server, g.Sequence) })
		f0, f1 := eventFormat(u, false), eventFormat(u, true)
		for _, s := range sids {
			for _, q := range seqs {
				g = rep.Mysql56GTID{Server: s, Sequence: q}
				roundTrip(u, g, fmt.Sprintf("%s:%d", sidText(s), q))
				if p, err := rep.ParseSID(s.String()); err != nil || p != s {
					u.Fail("ParseSID(%q) = %v, %v", s.String(), p, err)
				}
				if up := strings.ToUpper(s.String()); true {
					if p, err := rep.ParseSID(up); err != nil || p != s {
						u.Fail("ParseSID(%q) = %v, %v", up, p, err)
					}
				}
				for k, f := range []rep.BinlogFormat{f0, f1} {
					for _, ext := range []bool{false, true} {
						b := ref.Event(ref.Header{Type: ref.EvGTID, ServerID: 9}, ref.GTIDBody(1, s, q, ext), k == 1)
						ev := rep.NewMysql56BinlogEvent(b)
						if !ev.IsGTID() {
							u.Fail("GTID event not recognised")
						}
						ev = mustStrip(u, ev, f)
						got, _, err := ev.GTID(f)
						if err != nil || got != rep.GTID(g) {
							u.Fail("GTID event decodes to %v, %v", got, err)
						}
						u.EvalDup(1)
					}
				}
				if got := g.GTIDSet().String(); got != g.String() {
					u.Fail("single-GTID set prints as %q", got)
				}
				u.Eval(1)
			}
		}
		u.Sample("%s", g)
	}))
	s1, s2 := sids[len(sids)-1], sids[3]
	mx := int64(1<<63 - 1)
	unis := map[string]*universe{
		"2 uuids x 6 numbers":     {[]rep.SID{s1, s2}, []int64{1, 2, 3, 4, 5, 6}},
		"3 uuids x 4 numbers":     {[]rep.SID{sids[1], s1, s2}, []int64{1, 2, 3, 4}},
		"1 uuid x 9 wide numbers": {[]rep.SID{s1}, []int64{1, 9, 10, 99, 100, 1<<31 - 1, 1 << 32, mx - 2, mx - 1}},
	}
	if th {
		unis["2 uuids x 8 numbers"] = &universe{[]rep.SID{s1, s2}, []int64{1, 2, 3, 4, 5, 6, 7, 8}}
	}
	for name, v := range unis {
		v := v
		out = append(out, split("MySQL sets of "+name+": text, SID block, previous-GTIDs event", 4, func(u *run.U, part, parts int) {
			f0, f1 := eventFormat(u, false), eventFormat(u, true)
			var set uint64
			u.Cur(func() string { return fmt.Sprintf("set %q", v.text(set)) })
			for set = uint64(part); set < 1<<uint(v.n()); set += uint64(parts) {
				u.State(run.Hash(name, fmt.Sprint(set)))
				for rt := range routes {
					s := v.build(u, set, rt)
					if got := s.String(); got != v.text(set) {
						u.Fail("(%s) prints as %q", routes[rt], got)
					}
					m, ok := s.(rep.Mysql56GTIDSet)
					if !ok {
						u.Fail("set of type %T", s)
					}
					if b := m.SIDBlock(); !bytes.Equal(b, v.block(set)) {
						u.Fail("(%s) SID block %x, want %x", routes[rt], b, v.block(set))
					}
					back, err := rep.NewMysql56GTIDSetFromSIDBlock(m.SIDBlock())
					if err != nil || !back.Equal(s) || !s.Equal(back) {
						u.Fail("(%s) SID block decodes to %v, %v", routes[rt], back, err)
					}
					if p := setParsers["MySQL56"]; p != nil && set != 0 {
						t, err := p(s.String())
						if err != nil || !t.Equal(s) || !s.Equal(t) || t.String() != s.String() {
							u.Fail("(%s) text parses back to %v, %v", routes[rt], t, err)
						}
					}
					u.Trans(3)
					u.EvalDup(3)
				}
				for k, f := range []rep.BinlogFormat{f0, f1} {
					ev := rep.NewMysql56BinlogEvent(ref.Event(ref.Header{Type: ref.EvPrevGTIDs}, v.block(set), k == 1))
					if !ev.IsPreviousGTIDs() {
						u.Fail("previous-GTIDs event not recognised")
					}
					got, err := mustStrip(u, ev, f).PreviousGTIDs(f)
					if err != nil || got.String() != v.text(set) || !got.Equal(v.build(u, set, 0)) {
						u.Fail("previous-GTIDs event (crc=%v) decodes to %v, %v", k == 1, got, err)
					}
				}
				u.Trace(1)
				u.Trans(2)
				u.Eval(2)
			}
			u.Sample("%q", v.text(set-uint64(parts)))
		})...)
	}
	// large sets: as many intervals, uuids or both as a long-lived server has
	large := [][2]int{{1, 25}, {1, 100}, {1, 255}, {1, 256}, {1, 257}, {1, 1000}, {1, 1023}, {1, 1024}, {1, 1025}, {1, 4096}, {1, 4097}, {1, 65535}, {1, 65536}, {1, 70000},
		{25, 1}, {100, 1}, {127, 1}, {128, 1}, {255, 1}, {256, 1}, {257, 1}, {300, 1}, {1000, 1}, {1024, 1}, {1025, 1}, {4097, 1}, {32768, 1}, {65535, 1}, {65536, 1}, {65537, 1},
		{2, 2}, {3, 100}, {40, 40}, {256, 256}, {300, 300}, {2, 65536}, {65536, 2}}
	if th {
		large = append(large, [2]int{1, 1 << 18}, [2]int{1, 1000000}, [2]int{1 << 18, 1}, [2]int{1000, 1000})
	}
	for _, d := range large {
		nu, ni := d[0], d[1]
		out = append(out, unit(fmt.Sprintf("MySQL sets of %d uuids of %d intervals", nu, ni), func(u *run.U) {
			kind := 0
			u.Cur(func() string { return fmt.Sprintf("%d uuids of %d intervals, kind %d", nu, ni, kind) })
			f0, f1 := eventFormat(u, false), eventFormat(u, true)
			// intervals that are single numbers, ranges, both, wide numbers
			for kind = 0; kind < 4; kind++ {
				body, text := ref.LE(nil, uint64(nu), 8), []byte(nil)
				var last rep.Mysql56GTID
				for i := 0; i < nu; i++ {
					x := sid(byte(i>>16), byte(i>>8), byte(i), byte(kind))
					body = ref.LE(append(body, x[:]...), uint64(ni), 8)
					if i > 0 {
						text = append(text, ',')
					}
					text = append(text, sidText(x)...)
					for j := 0; j < ni; j++ {
						a, w := int64(1+5*j), int64(0)
						switch kind {
						case 1:
							w = 2
						case 2:
							w = int64(i+j) % 3
						case 3:
							a, w = mx-int64(5*(ni-j)), 3
						}
						body = ref.LE(ref.LE(body, uint64(a), 8), uint64(a+w+1), 8)
						text = strconv.AppendInt(append(text, ':'), a, 10)
						if w != 0 {
							text = strconv.AppendInt(append(text, '-'), a+w, 10)
						}
						last = rep.Mysql56GTID{Server: x, Sequence: a + w}
					}
				}
				s := fromBlock(u, body)
				if got := s.String(); got != string(text) {
					u.Fail("prints as %d bytes, want %d", len(got), len(text))
				}
				if b := s.SIDBlock(); !bytes.Equal(b, body) {
					u.Fail("SID block of %d bytes, want %d", len(b), len(body))
				}
				if !s.ContainsGTID(last) {
					u.Fail("does not contain %v", last)
				}
				if p := setParsers["MySQL56"]; p != nil {
					t, err := p(string(text))
					if err != nil || t.String() != string(text) || !t.Equal(s) || !s.Equal(t) {
						u.Fail("text parses back to a different set (%v)", err)
					}
					if b := t.(rep.Mysql56GTIDSet).SIDBlock(); !bytes.Equal(b, body) {
						u.Fail("SID block of the parsed set has %d bytes, want %d", len(b), len(body))
					}
				}
				for k, f := range []rep.BinlogFormat{f0, f1} {
					ev := rep.NewMysql56BinlogEvent(ref.Event(ref.Header{Type: ref.EvPrevGTIDs}, body, k == 1))
					if !ev.IsValid() || !ev.IsPreviousGTIDs() {
						u.Fail("previous-GTIDs event not recognised")
					}
					got, err := mustStrip(u, ev, f).PreviousGTIDs(f)
					if err != nil || got.String() != string(text) || !got.Equal(s) || !s.Equal(got) {
						u.Fail("previous-GTIDs event (crc=%v) decodes to a different set (%v)", k == 1, err)
					}
				}
				u.State(run.Hash("large", fmt.Sprint(nu, ni, kind)))
				u.Trans(5)
				u.Trace(1)
				u.Eval(1)
			}
			u.Sample("%d uuids of %d intervals", nu, ni)
		}))
	}
	if setParsers == nil {
		out = append(out, unit("set text parsers", func(u *run.U) {
			u.Cap("the set parser registry is not reachable; sets are built from SID blocks and additions only")
		}))
	}
	out = append(out, unit("MariaDB GTIDs: text and events", func(u *run.U) {
		var g rep.MariadbGTID
		u.Cur(func() string { return fmt.Sprintf("%d-%d-%d", g.Domain, g.Server, g.Sequence) })
		f0, f1 := eventFormat(u, false), eventFormat(u, true)
		var w32, w64 []uint64
		for _, p := range patterns(4, 1, 1) {
			if p < 12 || p&(p-1) == 0 || p > 1<<32-3 {
				w32 = append(w32, p)
			}
		}
		for _, p := range patterns(8, 1, 1) {
			if p < 12 || p&(p-1) == 0 || ^p < 3 {
				w64 = append(w64, p)
			}
		}
		for _, d := range w32 {
			for _, s := range w32 {
				for _, q := range w64 {
					g = rep.MariadbGTID{Domain: uint32(d), Server: uint32(s), Sequence: q}
					roundTrip(u, g, fmt.Sprintf("%d-%d-%d", d, s, q))
					if d < 4 || s < 4 {
						for k, f := range []rep.BinlogFormat{f0, f1} {
							for _, fl := range []byte{0, 1, 4, 5} {
								body := append(ref.LE(ref.LE(nil, q, 8), d, 4), fl)
								body = append(body, 0, 0, 0, 0, 0, 0)
								ev := rep.NewMariadbBinlogEvent(ref.Event(ref.Header{Type: ref.EvMariaGTID, ServerID: uint32(s)}, body, k == 1))
								if !ev.IsGTID() {
									u.Fail("MariaDB GTID event not recognised")
								}
								got, begin, err := mustStrip(u, ev, f).GTID(f)
								if err != nil || got != rep.GTID(g) || begin != (fl&1 == 0) {
									u.Fail("MariaDB GTID event (flags %d) decodes to %v begin=%v %v", fl, got, begin, err)
								}
								u.EvalDup(1)
							}
						}
					}
					u.Eval(1)
				}
			}
		}
		u.Sample("%s", g)
	}))
	// MariaDB sets: every sequence of additions up to a depth; every set ever
	// made is watched.
	depth := 4
	if th {
		depth = 5
	}
	var alpha []rep.MariadbGTID
	for _, d := range []uint32{0, 1, 7} {
		for _, s := range []uint32{1, 2} {
			for _, q := range []uint64{1, 2, 10} {
				alpha = append(alpha, rep.MariadbGTID{Domain: d, Server: s, Sequence: q})
			}
		}
	}
	type mset map[uint32]rep.MariadbGTID
	check := func(u *run.U, s rep.GTIDSet, m mset) {
		x, ok := s.(rep.MariadbGTIDSet)
		if !ok {
			u.Fail("set of type %T", s)
		}
		if len(x) != len(m) {
			u.Fail("set %v, want one position for each of %d domains", s, len(m))
		}
		for _, g := range x {
			w, ok := m[g.Domain]
			if !ok || g.Sequence != w.Sequence {
				u.Fail("set %v keeps %v for domain %d, want sequence %d", s, g, g.Domain, w.Sequence)
			}
		}
		for _, g := range alpha {
			w, ok := m[g.Domain]
			if got, want := s.ContainsGTID(g), ok && w.Sequence >= g.Sequence; got != want {
				u.Fail("set %v ContainsGTID(%v) = %v, want %v", s, g, got, want)
			}
		}
	}
	for i := range alpha {
		first := alpha[i]
		out = append(out, unit(fmt.Sprintf("MariaDB sets: every sequence of %d additions starting with %v", depth, first), func(u *run.U) {
			var hist []rep.MariadbGTID
			u.Cur(func() string { return fmt.Sprintf("additions %v", hist) })
			type held struct {
				s    rep.GTIDSet
				text string
			}
			var stack []held
			// recorded texts of all sets on the current path and their siblings
			var rec func(s rep.GTIDSet, m mset, d int)
			rec = func(s rep.GTIDSet, m mset, d int) {
				u.State(run.Hash(s.String()))
				check(u, s, m)
				if p := setParsers["MariaDB"]; p != nil && len(m) > 0 {
					t, err := p(s.String())
					if err != nil || !t.Equal(s) || !s.Equal(t) || t.String() != s.String() {
						u.Fail("text %q parses back to %v, %v", s.String(), t, err)
					}
				}
				if d == 0 {
					return
				}
				base := len(stack)
				for _, g := range alpha {
					hist = append(hist, g)
					t := s.AddGTID(g)
					m2 := mset{}
					for k, v := range m {
						m2[k] = v
					}
					if w, ok := m2[g.Domain]; !ok || g.Sequence > w.Sequence {
						m2[g.Domain] = g
					}
					if !t.ContainsGTID(g) || !t.Contains(s) {
						u.Fail("after adding %v to %v: %v does not contain it or the original", g, s, t)
					}
					stack = append(stack, held{t, t.String()})
					for _, h := range stack {
						if got := h.s.String(); got != h.text {
							u.Fail("adding %v changed another set from %q to %q", g, h.text, got)
						}
					}
					u.Trans(1)
					u.Eval(1)
					rec(t, m2, d-1)
					hist = hist[:len(hist)-1]
				}
				stack = stack[:base]
			}
			hist = append(hist, first)
			s := first.GTIDSet()
			stack = append(stack, held{s, s.String()})
			rec(s, mset{first.Domain: first}, depth-1)
			u.Trace(1)
			u.Sample("%d additions from %v", depth, first)
		}))
	}
	out = append(out, unit("MariaDB sets: every pair of sets", func(u *run.U) {
		type ms struct {
			s rep.MariadbGTIDSet
			m mset
		}
		var all []ms
		doms := []uint32{0, 1, 7}
		var rec func(i int, s rep.MariadbGTIDSet, m mset)
		rec = func(i int, s rep.MariadbGTIDSet, m mset) {
			if i == len(doms) {
				c := mset{}
				for k, v := range m {
					c[k] = v
				}
				all = append(all, ms{append(rep.MariadbGTIDSet(nil), s...), c})
				return
			}
			rec(i+1, s, m)
			for _, q := range []uint64{1, 2, 3, 1<<64 - 1} {
				g := rep.MariadbGTID{Domain: doms[i], Server: uint32(1 + q%2), Sequence: q}
				m[doms[i]] = g
				rec(i+1, append(s, g), m)
				delete(m, doms[i])
			}
		}
		rec(0, nil, mset{})
		sort.SliceStable(all, func(i, j int) bool { return len(all[i].s) < len(all[j].s) })
		var a, b ms
		u.Cur(func() string { return fmt.Sprintf("%v and %v", a.s, b.s) })
		for _, a = range all {
			for _, b = range all {
				want := true
				eq := len(a.m) == len(b.m)
				for d, g := range b.m {
					w, ok := a.m[d]
					want = want && ok && w.Sequence >= g.Sequence
					eq = eq && ok && w == g
				}
				if got := a.s.Contains(b.s); got != want {
					u.Fail("Contains = %v, want %v", got, want)
				}
				if got := a.s.Equal(b.s); got != eq {
					u.Fail("Equal = %v, want %v", got, eq)
				}
				u.Eval(2)
				u.Trans(2)
			}
		}
		u.Sample("%d sets, all pairs", len(all))
	}))
	return out
}
