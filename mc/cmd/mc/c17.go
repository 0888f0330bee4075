package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"

	rep "github.com/Breeze0806/gobinlog/replication"

	"verif/e2e"
	"verif/fm"
	"verif/ref"
	"verif/run"
)

// gateT judges the validity test on one buffer.
type gateT struct {
	u   *run.U
	cur func() string
}

func (g *gateT) one(b []byte) {
	u := g.u
	want := len(b) >= 19 && uint64(binary.LittleEndian.Uint32(b[9:])) == uint64(len(b))
	for _, fl := range flavors {
		var got bool
		if p, st := run.Catch(func() { got = fl.mk(b).IsValid() }); p != nil {
			u.Fail("%s: validity test panics: %v\n%s", fl.name, p, st)
		}
		if got != want {
			u.Fail("%s: %d bytes with length field %v: valid=%v, want %v", fl.name, len(b), lenField(b), got, want)
		}
		if !want {
			continue
		}
		if p, st := run.Catch(func() { accessors(fl.mk(b)) }); p != nil {
			u.Fail("%s: header accessor panics on an accepted buffer: %v\n%s", fl.name, p, st)
		}
	}
}

func lenField(b []byte) interface{} {
	if len(b) < 13 {
		return "missing"
	}
	return binary.LittleEndian.Uint32(b[9:])
}

func accessors(ev rep.BinlogEvent) {
	ev.Timestamp()
	ev.NextPosition()
	ev.IsFormatDescription()
	ev.IsQuery()
	ev.IsXID()
	ev.IsGTID()
	ev.IsRotate()
	ev.IsIntVar()
	ev.IsRand()
	ev.IsPreviousGTIDs()
	ev.IsTableMap()
	ev.IsWriteRows()
	ev.IsUpdateRows()
	ev.IsDeleteRows()
	ev.IsRowsQuery()
	ev.IsPseudo()
	ev.Bytes()
	if h, ok := ev.(header); ok {
		h.Type()
		h.ServerID()
		h.Length()
		h.Flags()
	}
}

// mangle is a malformed packet in place of, or before, a real one.
type mangle struct {
	name   string
	insert bool // before the packet instead of in its place
	make   func(b []byte) []byte
}

func setLen(b []byte, n uint32) []byte {
	c := append([]byte(nil), b...)
	binary.LittleEndian.PutUint32(c[9:], n)
	return c
}

// mangles lists malformed variants of a packet; all fail the validity test.
func mangles(n int, all bool) []mangle {
	var ms []mangle
	for k := 0; k < n; k++ {
		k := k
		ms = append(ms, mangle{fmt.Sprintf("truncated to %d bytes", k), false, func(b []byte) []byte { return append([]byte(nil), b[:k]...) }})
		if k < 19 {
			ms = append(ms, mangle{fmt.Sprintf("truncated to %d bytes, length field agreeing", k), false, func(b []byte) []byte {
				c := append([]byte(nil), b[:k]...)
				if k >= 13 {
					c = setLen(c, uint32(k))
				}
				return c
			}})
		}
	}
	exts := []int{1, 2, 4, 19, 255, 256, 65536}
	if all {
		exts = append(exts, 3, 5, 8, 20, 100, 257, 4096, 65535, 1<<24-2, 1<<24)
	}
	for _, k := range exts {
		k := k
		ms = append(ms, mangle{fmt.Sprintf("%d bytes too long", k), false, func(b []byte) []byte { return append(append([]byte(nil), b...), ref.Pat(k, 3)...) }})
	}
	// every wrong length field of the same low byte, and its neighbours
	for _, d := range []int64{-256, -19, -8, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 8, 19, 256, 512, 65536, 1 << 24, 1 << 31, 1<<32 - 1} {
		d := d
		ms = append(ms, mangle{fmt.Sprintf("length field off by %d", d), false, func(b []byte) []byte { return setLen(b, uint32(int64(len(b))+d)) }})
	}
	for i := 0; i < 32; i++ {
		i := i
		ms = append(ms, mangle{fmt.Sprintf("length field bit %d flipped", i), false, func(b []byte) []byte { return setLen(b, uint32(len(b))^1<<uint(i)) }})
	}
	ms = append(ms, mangle{"length field 0", false, func(b []byte) []byte { return setLen(b, 0) }})
	ms = append(ms, mangle{"length field 18", false, func(b []byte) []byte { return setLen(b, 18) }})
	ms = append(ms, mangle{"length field 19", false, func(b []byte) []byte {
		if len(b) == 19 {
			return setLen(b, 20)
		}
		return setLen(b, 19)
	}})
	for _, g := range [][]byte{{}, {0}, {1}, bytes.Repeat([]byte{0}, 18), bytes.Repeat([]byte{0}, 19), bytes.Repeat([]byte{0}, 64), bytes.Repeat([]byte{0xff}, 19), bytes.Repeat([]byte{0xff}, 200), []byte("GET / HTTP/1.1\r\nHost: example\r\n\r\n"), ref.Pat(5000, 1)} {
		g := g
		for _, ins := range []bool{false, true} {
			ms = append(ms, mangle{fmt.Sprintf("garbage of %d bytes", len(g)), ins, func([]byte) []byte { return g }})
		}
	}
	// a header of every type in front of nothing, with a wrong length
	for t := 0; t < 256; t++ {
		t := t
		if !all && t > 45 && t != 120 && t < 155 {
			continue
		}
		ms = append(ms, mangle{fmt.Sprintf("event of type %d that lies about its length", t), true, func([]byte) []byte {
			b := ref.Event(ref.Header{Timestamp: 1, Type: byte(t), ServerID: 1, NextPos: 4000000000}, ref.Pat(30, byte(t)), false)
			return setLen(b, uint32(len(b)+1-2*(t&1)))
		}})
	}
	return ms
}

// c17Log is a history with every kind of event.
func c17Log(f formatT) *ref.Log {
	l := ref.NewLog(f.opt())
	h := hT
	l.PrevGTIDs()
	l.GTID(false)
	l.Begin("BEGIN")
	l.TableMap(1, h.a)
	l.Rows(ref.Write, 1, nil, h.rowA[:2], true)
	l.TableMap(2, h.b)
	l.Rows(ref.Update, 2, h.rowB[:1], h.fullB[:1], true)
	l.Heartbeat()
	l.XID()
	l.Statement("create", "d", "CREATE TABLE q(a int)")
	l.GTID(true)
	l.Begin("begin")
	l.TableMap(1, h.a)
	l.Rows(ref.Delete, 1, h.rowA[:1], nil, true)
	l.Query("d", "SAVEPOINT `x`")
	l.Commit("COMMIT")
	l.Begin("BEGIN")
	l.TableMap(1, h.a)
	l.Rows(ref.Write, 1, nil, h.rowA[:1], true)
	l.Rollback("ROLLBACK")
	l.Rotate("mysql-bin.000002")
	l.GTID(false)
	l.Begin("BEGIN")
	l.Statement("insert", "d", "INSERT INTO t VALUES(1)")
	l.TableMap(3, h.b)
	l.Rows(ref.Write, 3, nil, h.rowB[:2], true)
	l.XID()
	return l
}

func c17Units(tier string) []run.Unit {
	th := tier == "thorough"
	var us []run.Unit
	// the gate itself
	us = append(us, split("gate: buffers of 0..40 bytes, every 16-bit length field", 16, func(u *run.U, part, parts int) {
		var n, v int
		fill := byte(0)
		u.Cur(func() string { return fmt.Sprintf("%d bytes of %#x, low length field %#x", n, fill, v) })
		g := &gateT{u: u}
		for n = part; n <= 40; n += parts {
			for _, fill = range []byte{0, 0xff, 0x2a} {
				b := bytes.Repeat([]byte{fill}, n)
				for v = 0; v < 65536; v++ {
					for hi := 0; hi < 3; hi++ {
						if n >= 13 {
							b[9], b[10] = byte(v), byte(v>>8)
							b[11], b[12] = [...]byte{0, 1, 0}[hi], [...]byte{0, 0, 0x80}[hi]
						}
						g.one(b)
						u.Eval(1)
						if n < 9 {
							break
						}
					}
					if n < 9 {
						break
					}
				}
			}
		}
		u.Sample("%d bytes", n)
	})...)
	us = append(us, split("gate: buffers of 0..600 bytes, length fields 0..700", 8, func(u *run.U, part, parts int) {
		var n, v int
		u.Cur(func() string { return fmt.Sprintf("%d bytes, length field %d", n, v) })
		g := &gateT{u: u}
		for n = part; n <= 600; n += parts {
			b := ref.Pat(n, byte(n))
			for v = 0; v <= 700; v++ {
				if n >= 13 {
					binary.LittleEndian.PutUint32(b[9:], uint32(v))
				}
				g.one(b)
				u.Eval(1)
			}
			for v = 0; n >= 13 && v < 32; v++ {
				binary.LittleEndian.PutUint32(b[9:], uint32(n)^1<<uint(v))
				g.one(b)
				u.Eval(1)
			}
		}
		u.Sample("%d bytes", n)
	})...)
	us = append(us, unit("gate: large buffers", func(u *run.U) {
		var n, v int
		u.Cur(func() string { return fmt.Sprintf("%d bytes, length field %d", n, v) })
		g := &gateT{u: u}
		big := ref.Pat(1<<24+600, 1)
		for _, base := range []int{1 << 10, 1 << 12, 1<<15 - 1, 1 << 16, 1<<16 + 19, 1 << 17, 1 << 20, 1<<24 - 1, 1 << 24, 1<<24 + 300} {
			for d := -3; d <= 3; d++ {
				n = base + d
				b := big[:n]
				for e := -300; e <= 300; e++ {
					v = n + e
					binary.LittleEndian.PutUint32(b[9:], uint32(v))
					g.one(b)
					u.Eval(1)
				}
				for v = 0; v < 32; v++ {
					binary.LittleEndian.PutUint32(b[9:], uint32(n)^1<<uint(v))
					g.one(b)
					u.Eval(1)
				}
			}
		}
		u.Sample("%d bytes", n)
	}))
	us = append(us, unit("gate: every type and every byte of the header", func(u *run.U) {
		var i, v int
		n := 0
		u.Cur(func() string { return fmt.Sprintf("%d bytes, byte %d = %#x", n, i, v) })
		g := &gateT{u: u}
		for n = 19; n <= 64; n++ {
			for i = 0; i < n; i++ {
				if i >= 9 && i < 13 {
					continue
				}
				for _, fill := range []byte{0, 0xff, 0x5a} {
					b := setLen(bytes.Repeat([]byte{fill}, n), uint32(n))
					for v = 0; v < 256; v++ {
						b[i] = byte(v)
						g.one(b)
						u.Eval(1)
					}
				}
			}
		}
		u.Sample("%d bytes", n)
	}))
	// the streamer behind the gate
	for fi, f := range formats {
		f := f
		if !th && fi%2 == 0 && fi > 0 {
			continue
		}
		np := len(mustServe(c17Log(f)))
		for i := 0; i <= np; i++ {
			i := i
			us = append(us, unit(fmt.Sprintf("stream: malformed packet %d, %v", i, f), func(u *run.U) {
				r := e2e.NewRig(5, hT.a, hT.b)
				defer r.Close()
				var desc string
				u.Cur(func() string { return desc })
				l := c17Log(f)
				ps := mustServe(l)
				n := 0
				if i < len(ps) {
					n = len(ps[i].Bytes)
				}
				for _, m := range mangles(n, th) {
					if i == len(ps) && !m.insert {
						continue
					}
					desc = fmt.Sprintf("packet %d: %s (insert %v), %v", i, m.name, m.insert, f)
					s := newStory(u, r, l)
					bad := -1
					a := s.attempt(desc, context.Background(), func(ps []ref.Packet) *fm.Script {
						var out []ref.Packet
						out = append(out, ps[:i]...)
						var src []byte
						if i < len(ps) {
							src = ps[i].Bytes
						}
						done := 0
						if i > 0 {
							done = ps[i-1].Done
						}
						out = append(out, ref.Packet{Bytes: m.make(src), Note: m.name, Done: done})
						bad = done
						rest := ps[i:]
						if !m.insert {
							rest = ps[i+1:]
						}
						return e2e.ScriptOf(append(out, rest...), fm.EndEOF)
					}, nil)
					if a.Err == nil {
						s.fail("Stream returned nil (Error(): %v) on a malformed packet", a.ErrErr)
					}
					if s.accepted > bad {
						s.fail("%d transactions accepted, only %d complete before the malformed packet", s.accepted, bad)
					}
					s.finish()
					u.Eval(1)
					u.Trace(1)
					u.Trans(2)
					u.State(run.Hash(fmt.Sprint(i, f, s.accepted, bad)))
				}
				u.Sample("%s", desc)
			}))
		}
	}
	us = append(us, rawUnits(formats[1], formats[4])...)
	return us
}

func mustServe(l *ref.Log) []ref.Packet {
	f, o := l.StartPos()
	ps, err := l.Serve(f, o)
	if err != nil {
		panic(err)
	}
	return ps
}

// rawScript serves events and one payload that is none.
func rawScript(ps []ref.Packet, i int, payload []byte, end fm.End) *fm.Script {
	s := e2e.ScriptOf(nil, end)
	for _, p := range ps[:i] {
		s.Raw = append(s.Raw, append([]byte{0}, p.Bytes...))
	}
	s.Raw = append(s.Raw, payload)
	for _, p := range ps[i:] {
		s.Raw = append(s.Raw, append([]byte{0}, p.Bytes...))
	}
	return s
}

// rawUnits puts payloads that are neither events nor the packets that end a
// stream between the events: every first byte, with nothing and with a little
// after it.
func rawUnits(fs ...formatT) []run.Unit {
	return split("payloads that are no events", 8, func(u *run.U, part, parts int) {
		r := e2e.NewRig(5, hT.a, hT.b)
		defer r.Close()
		var desc string
		u.Cur(func() string { return desc })
		for _, f := range fs {
			l := c17Log(f)
			n := len(mustServe(l))
			for x := part; x < 256; x += parts {
				for size := 0; size <= 12; size++ {
					fills := []byte{0, '#', 0xff}
					if size == 0 {
						fills = fills[:1]
					}
					for _, fill := range fills {
						at := []int{0, 2, n / 2, n}
						if x == 0xff || x == 0xfe {
							at = nil
							for i := 0; i <= n; i++ {
								at = append(at, i)
							}
						}
						for _, i := range at {
							desc = fmt.Sprintf("payload %#x and %d times %#x after %d packets, %v", x, size, fill, i, f)
							s := newStory(u, r, l)
							done := 0
							a := s.attempt(desc, context.Background(), func(ps []ref.Packet) *fm.Script {
								if i > 0 {
									done = ps[i-1].Done
								}
								return rawScript(ps, i, append([]byte{byte(x)}, bytes.Repeat([]byte{fill}, size)...), fm.EndEOF)
							}, nil)
							if a.Err == nil && a.ErrErr == nil && x != 0xfe {
								s.fail("the stream is reported to have ended cleanly")
							}
							if s.accepted > done {
								s.fail("%d transactions accepted, only %d complete before the payload", s.accepted, done)
							}
							s.finish()
							u.Eval(1)
							u.Trace(1)
							u.Trans(2)
							u.State(run.Hash(desc))
						}
					}
				}
			}
		}
		u.Sample("%s", desc)
	})
}
