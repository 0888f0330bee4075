package main

import (
	"fmt"
	"strings"

	"verif/e2e"
	"verif/ref"
	"verif/run"
)

// headUnits vary what the header of each event says besides its type, time and
// position: which server it was first written on - any other server of the
// topology, the streamer's own id among them - and the flags a master sets on
// events of its log. None of it changes what is committed.
func headUnits(th bool) []run.Unit {
	flags := []uint16{0, 0x4, 0x8, 0x10, 0x40, 0x100, 0x200}
	return append(bodyUnits(th), split("origins and flags of events", 8, func(u *run.U, part, parts int) {
		r := e2e.NewRig(9, hT.a, hT.b, hT.z)
		defer r.Close()
		var desc string
		u.Cur(func() string { return desc })
		ids := []uint32{0, 1, 2, 8, 9, 10, 0x109, 0x80000009, 1<<31 - 1, 1 << 31, 1<<32 - 1}
		play := func(f formatT, head func(n int, h *ref.Header)) {
			o := f.opt()
			o.Head = head
			tour(u, r, f, o)
		}
		i := 0
		for _, f := range formats {
			n := 0
			play(f, func(k int, h *ref.Header) {
				if k >= n {
					n = k + 1
				}
			})
			for _, id := range ids {
				for _, fl := range flags {
					// every event, each alone, all up to one, all from one on
					for k := -2; k < n; k++ {
						for how := 0; how < 3; how++ {
							if k == -2 && how > 0 {
								continue
							}
							if i++; i%parts != part || !th && fl != 0 && id != 9 && id != 1 {
								continue
							}
							desc = fmt.Sprintf("server %d, flags %#x, events %s %d of %d, %v", id, fl, [...]string{"only", "up to", "from"}[how], k, n, f)
							play(f, func(j int, h *ref.Header) {
								if k == -2 || how == 0 && j == k || how == 1 && j <= k || how == 2 && j >= k {
									h.ServerID = id
									if j >= 0 {
										h.Flags |= fl
									}
								}
							})
						}
					}
				}
			}
			// origins that take turns
			for _, id := range ids {
				for m := 1; m < 8; m++ {
					if i++; i%parts != part {
						continue
					}
					desc = fmt.Sprintf("server %d by turns %b, %v", id, m, f)
					play(f, func(j int, h *ref.Header) {
						if m>>uint((j+3)%3)&1 == 1 {
							h.ServerID = id
						}
					})
				}
			}
		}
		u.Sample("%s", desc)
	})...)
}

// tour streams a log that has a bit of everything.
func tour(u *run.U, r *e2e.Rig, f formatT, o ref.Options) {
	ops := []hop{opGTID, opBegin, opInsA3, opUpdB, opDelB, opMulti, opXID, opCreate, opInsZ, opGTID, opBegin, opInsS, opCommit, opBeat, opRotate, opBegin, opDelB, opRoll, opUpdA, opUnknown, opBegin, opInsA3, opXID, opUnkStmt, opCrash, opSet, opBegin, opUpdB, opXID, opDrop, opBegin, opDelS, opUpdS, opXID}
	idx := make([]int, len(ops))
	for i := range idx {
		idx[i] = i
	}
	c, ok := writeHist(ops, idx, f, o)
	if !ok {
		panic("history")
	}
	streamOracle(u, r, c, f)
	u.Eval(1)
	u.Trace(1)
}

// bodyUnits vary the fields of query events besides the statement - the thread
// that ran it, how long it took, how it ended, its default database and its
// status variables -, the flags of table maps and rows events and the numbers
// of XID events.
func bodyUnits(th bool) []run.Unit {
	return split("fields of queries, flags of rows, numbers of XIDs", 8, func(u *run.U, part, parts int) {
		r := e2e.NewRig(9, hT.a, hT.b, hT.z)
		defer r.Close()
		var desc string
		u.Cur(func() string { return desc })
		i := 0
		mine := func() bool { i++; return i%parts == part }
		u32 := []uint32{0, 1, 4, 9, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1}
		// every code a server gives a statement that failed in part, and more
		errs := []uint16{0, 1, 1000, 1022, 1053, 1062, 1146, 1180, 1184, 1205, 1213, 1317, 1590, 3024, 32767, 32768, 65535}
		cs := func(c [3]int32) ref.StatusVar {
			return ref.StatusVar{Code: 4, Data: ref.LE(ref.LE(ref.LE(nil, uint64(c[0]), 2), uint64(c[1]), 2), uint64(c[2]), 2)}
		}
		type vs struct {
			vars []ref.StatusVar
			cs   *[3]int32
		}
		var sets []vs
		add := func(c *[3]int32, v ...ref.StatusVar) { sets = append(sets, vs{v, c}) }
		flags2 := ref.StatusVar{Code: 0, Data: []byte{0, 0, 0, 0}}
		mode := ref.StatusVar{Code: 1, Data: []byte{0, 0, 0xa0, 0x55, 0, 0, 0, 0}}
		cat := ref.StatusVar{Code: 6, Data: []byte{3, 's', 't', 'd'}}
		inc := ref.StatusVar{Code: 3, Data: []byte{1, 0, 1, 0}}
		after := []ref.StatusVar{
			{Code: 5, Data: append([]byte{6}, "SYSTEM"...)},
			{Code: 7, Data: []byte{2, 0}},
			{Code: 8, Data: []byte{33, 0}},
			{Code: 9, Data: []byte{1, 0, 0, 0, 0, 0, 0, 0}},
			{Code: 10, Data: []byte{1, 0, 0, 0}},
			{Code: 11, Data: append(append([]byte{4}, "root"...), append([]byte{9}, "localhost"...)...)},
			{Code: 12, Data: append([]byte{1}, "db\x00"...)},
			{Code: 13, Data: []byte{1, 2, 3}},
			{Code: 16, Data: []byte{1}},
			{Code: 17, Data: []byte{9, 0, 0, 0, 0, 0, 0, 0}},
			{Code: 18, Data: []byte{255, 0}},
			{Code: 128, Data: []byte{1, 2, 3}},
		}
		add(nil)
		add(nil, flags2)
		add(nil, flags2, mode, cat)
		for _, c := range [][3]int32{{33, 33, 8}, {0, 0, 0}, {8, 8, 8}, {45, 45, 45}, {255, 255, 255}, {256, 300, 308}, {32767, 32768, 65535}} {
			c := c
			add(&c, cs(c))
			add(&c, flags2, mode, cat, cs(c))
			add(&c, flags2, mode, cat, inc, cs(c))
			for _, a := range after {
				add(&c, flags2, mode, cat, cs(c), a)
			}
			add(&c, append([]ref.StatusVar{flags2, mode, cat, inc, cs(c)}, after...)...)
		}
		for _, f := range formats {
			for k, v := range u32 {
				if !mine() {
					continue
				}
				desc = fmt.Sprintf("threads and times around %d, XIDs up to %d, %v", v, uint64(v)<<32, f)
				o := f.opt()
				o.Quest = func(n int, q *ref.QueryInfo) { q.Thread, q.Exec = v+uint32(n), u32[(k+n)%len(u32)] }
				o.Xid = func(n int) uint64 { return []uint64{uint64(v), uint64(v) << 32, 1<<64 - 1 - uint64(v)}[n%3] }
				tour(u, r, f, o)
			}
			for _, e := range errs {
				for k := -1; k < 60; k++ {
					if !mine() {
						continue
					}
					desc = fmt.Sprintf("error code %d, event %d, %v", e, k, f)
					o := f.opt()
					o.Quest = func(n int, q *ref.QueryInfo) {
						if k < 0 || k == n {
							q.Err = e
						}
					}
					tour(u, r, f, o)
				}
			}
			for _, db := range []string{"", "d", "D", "mysql", "performance_schema", "information_schema", "sys", "test", " ", "a.b", "\u00e9", "`", "BEGIN", "d\xff", strings.Repeat("x", 64), strings.Repeat("\u4e2d", 64), strings.Repeat("y", 255)} {
				if !mine() {
					continue
				}
				desc = fmt.Sprintf("default database %q, %v", db, f)
				o := f.opt()
				o.Quest = func(n int, q *ref.QueryInfo) { q.DB = db }
				tour(u, r, f, o)
			}
			for k, s := range sets {
				if !mine() {
					continue
				}
				desc = fmt.Sprintf("status variables %v, %v", s.vars, f)
				o := f.opt()
				o.Quest = func(n int, q *ref.QueryInfo) { q.Vars, q.Charset = s.vars, s.cs }
				tour(u, r, f, o)
				// next to others
				o.Quest = func(n int, q *ref.QueryInfo) {
					t := sets[(k+n)%len(sets)]
					q.Vars, q.Charset = t.vars, t.cs
				}
				tour(u, r, f, o)
			}
			// rows: end of statement, no foreign keys, relaxed unique checks,
			// complete rows; table maps: bit lengths exact, referred database,
			// with hidden primary key
			for fl := uint16(0); fl < 16; fl++ {
				for k := -1; k < 60; k++ {
					if !mine() || k >= 0 && !th && fl&(fl-1) != 0 {
						continue
					}
					desc = fmt.Sprintf("flags %#x of table maps and rows, event %d, %v", fl, k, f)
					o := f.opt()
					o.Mark = func(n int, typ byte, old uint16) uint16 {
						if k >= 0 && k != n {
							return old
						}
						if typ == 0 {
							return fl
						}
						return fl | 1
					}
					tour(u, r, f, o)
				}
			}
		}
		u.Sample("%s", desc)
	})
}
