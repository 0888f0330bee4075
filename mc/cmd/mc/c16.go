package main

import (
	"bytes"
	"fmt"
	"strings"

	rep "github.com/Breeze0806/gobinlog/replication"

	"verif/ref"
	"verif/run"
)

type header interface {
	Type() byte
	ServerID() uint32
	Length() uint32
	Flags() uint16
}

type flavor struct {
	name string
	mk   func([]byte) rep.BinlogEvent
}

var flavors = []flavor{{"mysql56", rep.NewMysql56BinlogEvent}, {"mariadb", rep.NewMariadbBinlogEvent}}

// evT decodes events as the streamer does: gate, format, checksum, body.
type evT struct {
	u   *run.U
	cur string
}

// variants runs f for both flavors, with and without checksum, with the given
// header lengths.
func (e *evT) variants(h ref.Header, body []byte, hlens []int, f func(ev rep.BinlogEvent, bf rep.BinlogFormat)) {
	u := e.u
	for _, hl := range hlens {
		for _, fl := range flavors {
			for _, alg := range []byte{ref.CksumOff, ref.CksumCRC32, ref.CksumUndef} {
				crc := alg == ref.CksumCRC32
				raw := ref.EventH(h, body, crc, hl)
				keep := append([]byte(nil), raw...)
				bf := rep.BinlogFormat{FormatVersion: 4, HeaderLength: byte(hl), ChecksumAlgorithm: alg, HeaderSizes: ref.Sizes(57, false)}
				ev := fl.mk(raw)
				if !ev.IsValid() {
					u.Fail("%s: valid event rejected: %x", fl.name, clip(raw))
				}
				st, sum, err := ev.StripChecksum(bf)
				if err != nil {
					u.Fail("%s: StripChecksum: %v", fl.name, err)
				}
				n := len(raw)
				if crc {
					n -= 4
					if !bytes.Equal(sum, raw[n:]) {
						u.Fail("%s: checksum %x, want %x", fl.name, sum, raw[n:])
					}
				} else if sum != nil {
					u.Fail("%s: checksum %x of an event without", fl.name, sum)
				}
				if !bytes.Equal(st.Bytes(), keep[:n]) {
					u.Fail("%s: stripped event is %x, want %x", fl.name, clip(st.Bytes()), clip(keep[:n]))
				}
				if st.Timestamp() != h.Timestamp || st.NextPosition() != int64(h.NextPos) {
					u.Fail("%s: timestamp %d next position %d, want %d %d", fl.name, st.Timestamp(), st.NextPosition(), h.Timestamp, h.NextPos)
				}
				for _, x := range []rep.BinlogEvent{ev, st} {
					if hd, ok := x.(header); ok {
						if hd.Type() != h.Type || hd.ServerID() != h.ServerID || hd.Flags() != h.Flags || hd.Length() != uint32(len(raw)) {
							u.Fail("%s: type %d server %d flags %#x length %d, want %d %d %#x %d", fl.name, hd.Type(), hd.ServerID(), hd.Flags(), hd.Length(), h.Type, h.ServerID, h.Flags, len(raw))
						}
					}
				}
				f(st, bf)
				if !bytes.Equal(raw, keep) {
					u.Fail("%s: decoding changed the event's bytes", fl.name)
				}
			}
		}
	}
}

func (e *evT) predicates(ev rep.BinlogEvent, t byte) {
	is := func(ts ...byte) bool { return bytes.IndexByte(ts, t) >= 0 }
	maria := fmt.Sprintf("%T", ev)
	gtid := is(ref.EvGTID)
	if bytes.Contains([]byte(maria), []byte("maria")) {
		gtid = is(ref.EvMariaGTID)
	}
	got := []bool{ev.IsFormatDescription(), ev.IsQuery(), ev.IsXID(), ev.IsRotate(), ev.IsIntVar(), ev.IsRand(), ev.IsTableMap(), ev.IsWriteRows(), ev.IsUpdateRows(), ev.IsDeleteRows(), ev.IsRowsQuery(), ev.IsGTID()}
	want := []bool{is(ref.EvFDE), is(ref.EvQuery), is(ref.EvXID), is(ref.EvRotate), is(ref.EvIntVar), is(ref.EvRand), is(ref.EvTableMap), is(ref.EvWriteV1, ref.EvWriteV2), is(ref.EvUpdateV1, ref.EvUpdateV2), is(ref.EvDeleteV1, ref.EvDeleteV2), is(ref.EvRowsQuery), gtid}
	for i := range got {
		if got[i] != want[i] {
			e.u.Fail("event type %d in a %s: predicate %d is %v", t, maria, i, got[i])
		}
	}
}

// bits are values of n bits with one, two or all but one bits set and every
// byte at every place.
func bitsOf(n uint) []uint64 {
	mask := ^uint64(0) >> (64 - n)
	vs := []uint64{0, mask, 0x0102030405060708 & mask, 0xf8f7f6f5f4f3f2f1 & mask}
	for i := uint(0); i < n; i++ {
		vs = append(vs, 1<<i, mask^1<<i)
		for j := i + 1; j < n; j++ {
			vs = append(vs, 1<<i|1<<j)
		}
	}
	for s := uint(0); s < n; s += 8 {
		for b := uint64(0); b < 256; b++ {
			vs = append(vs, b<<s)
		}
	}
	return vs
}

func c16Units(tier string) []run.Unit {
	var us []run.Unit
	mk := func(name string, parts int, f func(u *run.U, e *evT, part, parts int)) {
		us = append(us, split(name, parts, func(u *run.U, part, parts int) {
			e := &evT{u: u}
			u.Cur(func() string { return e.cur })
			f(u, e, part, parts)
			u.Sample("%s", e.cur)
		})...)
	}
	hl1 := []int{19}
	hls := []int{19, 20, 23, 27, 40}
	mk("common header fields", 1, func(u *run.U, e *evT, _, _ int) {
		one := func(h ref.Header) {
			e.cur = fmt.Sprintf("%+v", h)
			e.variants(h, []byte{1, 2, 3, 4, 5, 6, 7, 8}, hl1, func(ev rep.BinlogEvent, _ rep.BinlogFormat) { e.predicates(ev, h.Type) })
			u.Eval(6)
		}
		for t := 0; t < 256; t++ {
			one(ref.Header{Timestamp: 1, Type: byte(t), ServerID: 2, NextPos: 3, Flags: 4})
		}
		for _, v := range bitsOf(32) {
			x := uint32(v)
			one(ref.Header{Timestamp: x, Type: 2, ServerID: ^x, NextPos: x<<16 | x>>16, Flags: uint16(x)})
			one(ref.Header{Timestamp: 7, Type: 16, ServerID: x, NextPos: 9, Flags: uint16(x >> 16)})
			one(ref.Header{Timestamp: ^x, Type: 4, ServerID: 3, NextPos: x})
		}
	})
	mk("event lengths", 1, func(u *run.U, e *evT, _, _ int) {
		for n := 0; n < 1200; n++ {
			e.cur = fmt.Sprintf("body of %d bytes", n)
			e.variants(ref.Header{Timestamp: 1, Type: 40, ServerID: 2, NextPos: 3}, ref.Pat(n, byte(n)), hls, func(rep.BinlogEvent, rep.BinlogFormat) {})
			u.Eval(30)
		}
		for _, n := range []int{65535, 65536, 1 << 20, 16<<20 - 1, 16 << 20} {
			e.variants(ref.Header{Timestamp: 1, Type: 40, ServerID: 2, NextPos: 3}, ref.Pat(n, byte(n)), hl1, func(rep.BinlogEvent, rep.BinlogFormat) {})
			u.Eval(6)
		}
	})
	mk("format description", 4, func(u *run.U, e *evT, part, parts int) {
		one := func(f ref.FDE) {
			e.cur = fmt.Sprintf("%+v", f)
			for _, fl := range flavors {
				raw := f.Event(ref.Header{Timestamp: 1, ServerID: 1, NextPos: 120})
				ev := fl.mk(raw)
				if !ev.IsValid() || !ev.IsFormatDescription() {
					u.Fail("%s: format description not recognised", fl.name)
				}
				got, err := ev.Format()
				if err != nil {
					u.Fail("%s: Format: %v", fl.name, err)
				}
				if got.FormatVersion != f.BinlogVersion || got.ServerVersion != f.Server || got.HeaderLength != f.HeaderLen || got.ChecksumAlgorithm != f.Alg || !bytes.Equal(got.HeaderSizes, f.Sizes) {
					u.Fail("%s: got %+v", fl.name, got)
				}
				if got.IsZero() {
					u.Fail("%s: decoded format counts as absent", fl.name)
				}
				for i, s := range f.Sizes {
					if got.HeaderSize(byte(i+1)) != s {
						u.Fail("%s: header size of event type %d is %d, want %d", fl.name, i+1, got.HeaderSize(byte(i+1)), s)
					}
				}
				u.Eval(1)
			}
		}
		for _, ver := range []int{51, 56, 57, 80} {
			for _, four := range []bool{false, true} {
				for alg := 0; alg < 256; alg++ {
					if alg%parts == part {
						one(ref.FDE{BinlogVersion: 4, Server: "5.7.30-log", HeaderLen: 19, Sizes: ref.Sizes(ver, four), Alg: byte(alg)})
					}
				}
				for hl := 19; hl < 256; hl++ {
					if hl%parts == part {
						one(ref.FDE{BinlogVersion: 4, Server: "8.0.23", Created: uint32(hl) << 20, HeaderLen: byte(hl), Sizes: ref.Sizes(ver, four), Alg: byte(hl & 1)})
					}
				}
			}
		}
		for n := 0; n <= 50; n++ {
			for s := 0; s <= 60; s++ {
				if (n+s)%parts != part {
					continue
				}
				sz := ref.Pat(s, byte(n))
				for i := range sz {
					sz[i] = byte(int(sz[i]) * (n + i))
				}
				one(ref.FDE{BinlogVersion: 4, Server: string(ref.Pat(n, 1)), HeaderLen: 19, Sizes: sz, Alg: 1})
			}
		}
		// every byte value at the ends and inside of the version text, which
		// only trailing zero bytes are not part of
		for b := 0; b < 256; b++ {
			if b%parts != part {
				continue
			}
			c := string([]byte{byte(b)})
			for _, v := range []string{c + "5.7.30", "5.7" + c + "30", c + c + "8", c + strings.Repeat("7", 49)} {
				one(ref.FDE{BinlogVersion: 4, Server: v, HeaderLen: 19, Sizes: ref.Sizes(57, false), Alg: 1})
			}
			for _, v := range []string{strings.Repeat("7", 49) + c, "5.7.30" + c, "5.7.30 " + c + c, c} {
				if b > 0 {
					one(ref.FDE{BinlogVersion: 4, Server: v, HeaderLen: 19, Sizes: ref.Sizes(57, false), Alg: 1})
				}
			}
		}
		for _, v := range bitsOf(32) {
			one(ref.FDE{BinlogVersion: 4, Server: "10.5.5-MariaDB-log", Created: uint32(v), HeaderLen: 19, Sizes: ref.Sizes(57, false), Alg: 1})
		}
	})
	mk("rotate", 2, func(u *run.U, e *evT, part, parts int) {
		one := func(pos uint64, name string, hl []int) {
			e.cur = fmt.Sprintf("rotate to %q:%d", name, pos)
			e.variants(ref.Header{Timestamp: 0, Type: ref.EvRotate, ServerID: 1, Flags: 0x20}, ref.RotateBody(pos, name), hl, func(ev rep.BinlogEvent, bf rep.BinlogFormat) {
				f, o, err := ev.Rotate(bf)
				if err != nil || f != name || o != int64(pos) {
					u.Fail("Rotate: %q:%d, %v", f, o, err)
				}
				u.Eval(1)
			})
		}
		for n := part; n <= 520; n += parts {
			one(4, string(ref.Pat(n, 1)), hls)
		}
		for i, v := range bitsOf(63) {
			if i%parts == part {
				one(v, "mysql-bin.000002", hl1)
			}
		}
		one(4, "bin/ü \x00x", hls)
		for b := 0; b < 256; b++ {
			if b%parts == part {
				c := string([]byte{byte(b)})
				for _, v := range []string{c + "bin.000001", "bin." + c + "000001", "bin.000001" + c, c, c + c} {
					one(4, v, hl1)
				}
			}
		}
	})
	mk("int-var and rand", 1, func(u *run.U, e *evT, _, _ int) {
		for _, v := range bitsOf(64) {
			for typ := byte(1); typ <= 2; typ++ {
				e.cur = fmt.Sprintf("int-var %d=%d", typ, v)
				e.variants(ref.Header{Timestamp: 1, Type: ref.EvIntVar, ServerID: 1, NextPos: 5}, ref.IntVarBody(typ, v), hl1, func(ev rep.BinlogEvent, bf rep.BinlogFormat) {
					gt, gv, err := ev.IntVar(bf)
					if err != nil || gt != typ || gv != v {
						u.Fail("IntVar: %d=%d, %v", gt, gv, err)
					}
					u.Eval(1)
				})
			}
			e.cur = fmt.Sprintf("rand %d", v)
			e.variants(ref.Header{Timestamp: 1, Type: ref.EvRand, ServerID: 1, NextPos: 5}, ref.RandBody(v, ^v*3), []int{19, 25}, func(ev rep.BinlogEvent, bf rep.BinlogFormat) {
				a, b, err := ev.Rand(bf)
				if err != nil || a != v || b != ^v*3 {
					u.Fail("Rand: %d %d, %v", a, b, err)
				}
				u.Eval(1)
			})
		}
	})
	mk("XID", 1, func(u *run.U, e *evT, _, _ int) {
		for _, v := range bitsOf(64) {
			e.cur = fmt.Sprintf("xid %d", v)
			e.variants(ref.Header{Timestamp: uint32(v), Type: ref.EvXID, ServerID: 1, NextPos: uint32(v >> 32)}, ref.LE(nil, v, 8), hl1, func(ev rep.BinlogEvent, bf rep.BinlogFormat) {
				e.predicates(ev, ref.EvXID)
				u.Eval(1)
			})
		}
	})
	query := func(u *run.U, e *evT, vars []ref.StatusVar, cs *[3]int32, db, sql string, hl []int) {
		e.variants(ref.Header{Timestamp: 1, Type: ref.EvQuery, ServerID: 1, NextPos: 5}, ref.QueryBody(0xfffefdfc, 0x01020304, 0x1122, vars, db, sql), hl, func(ev rep.BinlogEvent, bf rep.BinlogFormat) {
			q, err := ev.Query(bf)
			if err != nil {
				u.Fail("Query: %v", err)
			}
			if q.Database != db || q.SQL != sql {
				u.Fail("database %q SQL %q, want %q %q", q.Database, q.SQL, db, sql)
			}
			if (q.Charset == nil) != (cs == nil) || cs != nil && (q.Charset.Client != cs[0] || q.Charset.Conn != cs[1] || q.Charset.Server != cs[2]) {
				u.Fail("charset %v, want %v", q.Charset, cs)
			}
			u.Eval(1)
		})
	}
	// the status variables a master may write, in the order it writes them;
	// their payloads contain bytes that look like codes
	all := []ref.StatusVar{
		{Code: 0, Data: []byte{4, 4, 4, 4}},
		{Code: 1, Data: []byte{4, 0, 6, 0x40, 4, 5, 6, 4}},
		{Code: 6, Data: append([]byte{3}, "std"...)},
		{Code: 3, Data: []byte{4, 0, 1, 0}},
		{Code: 4, Data: []byte{33, 0, 45, 1, 8, 0}},
		{Code: 5, Data: append([]byte{6}, "SYSTEM"...)},
		{Code: 7, Data: []byte{4, 0}},
		{Code: 8, Data: []byte{4, 4}},
		{Code: 9, Data: []byte{4, 0, 0, 0, 0, 0, 0, 0}},
		{Code: 10, Data: []byte{4, 4, 4, 4}},
		{Code: 11, Data: append([]byte{4}, "root\x09localhost"...)},
		{Code: 12, Data: append([]byte{2}, "db\x00\x04b\x00"...)},
		{Code: 13, Data: []byte{4, 4, 4}},
		{Code: 16, Data: []byte{4}},
		{Code: 17, Data: []byte{4, 4, 4, 4, 4, 4, 4, 4}},
		{Code: 18, Data: []byte{4, 0}},
		{Code: 19, Data: []byte{4}},
		{Code: 20, Data: []byte{4}},
	}
	mk("query, every subset of status variables", 16, func(u *run.U, e *evT, part, parts int) {
		for m := part; m < 1<<uint(len(all)); m += parts {
			var vars []ref.StatusVar
			var cs *[3]int32
			for i, v := range all {
				if m>>uint(i)&1 == 1 {
					vars = append(vars, v)
					if v.Code == 4 {
						cs = &[3]int32{33, 301, 8}
					}
				}
			}
			e.cur = fmt.Sprintf("status variables %v", vars)
			query(u, e, vars, cs, "db", "BEGIN", hl1)
		}
	})
	// whole values: all zero, all ones and one bit, in every subset of the
	// variables that come before the charset
	mk("query, whole values of the status variables", 8, func(u *run.U, e *evT, part, parts int) {
		fill := func(x ref.StatusVar, f int) ref.StatusVar {
			if f == 0 {
				return x
			}
			d := append([]byte(nil), x.Data...)
			lo := 0
			if x.Code == 6 || x.Code == 5 {
				lo = 1
			}
			for i := lo; i < len(d); i++ {
				d[i] = [...]byte{1: 0, 2: 0xff, 3: 0, 4: 0, 5: 0xff}[f]
			}
			switch f {
			case 3:
				d[lo] = 1
			case 4:
				d[len(d)-1] = 0x80
			case 5:
				d[lo] = 0xfe
			}
			return ref.StatusVar{Code: x.Code, Data: d}
		}
		n := 0
		before := []int{0, 1, 2, 3, 4} // flags2, sql mode, catalog, auto increment, charset
		for m := 1; m < 32; m++ {
			var idx []int
			for _, i := range before {
				if m>>uint(i)&1 == 1 {
					idx = append(idx, i)
				}
			}
			total := 1
			for range idx {
				total *= 6
			}
			for v := 0; v < total; v++ {
				if n++; n%parts != part {
					continue
				}
				var vars []ref.StatusVar
				var cs *[3]int32
				w := v
				for _, i := range idx {
					x := fill(all[i], w%6)
					w /= 6
					vars = append(vars, x)
					if x.Code == 4 {
						cs = &[3]int32{int32(x.Data[0]) | int32(x.Data[1])<<8, int32(x.Data[2]) | int32(x.Data[3])<<8, int32(x.Data[4]) | int32(x.Data[5])<<8}
					}
				}
				for rest := 0; rest < 2; rest++ {
					vs := vars
					if rest == 1 {
						for _, x := range all[5:] {
							f := v % 3
							if x.Code == 11 || x.Code == 12 {
								f = 0 // they hold lengths
							}
							vs = append(vs, fill(x, f))
						}
					}
					e.cur = fmt.Sprintf("status variables %v", vs)
					query(u, e, vs, cs, "db", "BEGIN", hl1)
				}
			}
		}
	})
	mk("query, old catalog variable and catalog lengths", 1, func(u *run.U, e *evT, _, _ int) {
		cs := &[3]int32{1, 2, 3}
		csv := ref.StatusVar{Code: 4, Data: []byte{1, 0, 2, 0, 3, 0}}
		for n := 0; n < 256; n++ {
			e.cur = fmt.Sprintf("catalog of %d bytes", n)
			c := ref.Pat(n, 4)
			query(u, e, []ref.StatusVar{all[0], all[1], {Code: 6, Data: append([]byte{byte(n)}, c...)}, all[3], csv}, cs, "d", "x", hl1)
			query(u, e, []ref.StatusVar{all[0], all[1], {Code: 2, Data: append(append([]byte{byte(n)}, c...), 0)}, csv}, cs, "d", "x", hl1)
		}
	})
	mk("query, charsets", 1, func(u *run.U, e *evT, _, _ int) {
		for v := 0; v < 65536; v++ {
			e.cur = fmt.Sprintf("charset %d", v)
			a, b, c := uint16(v), uint16(v*7+1), uint16(^v)
			d := ref.LE(ref.LE(ref.LE(nil, uint64(a), 2), uint64(b), 2), uint64(c), 2)
			query(u, e, []ref.StatusVar{all[0], all[1], all[2], {Code: 4, Data: d}}, &[3]int32{int32(a), int32(b), int32(c)}, "d", "COMMIT", hl1)
		}
	})
	mk("query, every byte of every status variable", 4, func(u *run.U, e *evT, part, parts int) {
		for i, x := range all {
			lenByte := map[byte]bool{6: true, 5: true, 11: true, 12: true}[x.Code]
			for p := range x.Data {
				if p == 0 && lenByte || x.Code == 11 && p == 5 {
					continue
				}
				for b := part; b < 256; b += parts {
					vars := append([]ref.StatusVar(nil), all...)
					d := append([]byte(nil), x.Data...)
					d[p] = byte(b)
					vars[i].Data = d
					if x.Code == 12 && b == 0 {
						continue // cuts a database name short
					}
					cs := [3]int32{33, 301, 8}
					if x.Code == 4 {
						cs[p/2] = int32(d[p&^1]) | int32(d[p|1])<<8
					}
					e.cur = fmt.Sprintf("status variables %v", vars)
					query(u, e, vars, &cs, "db", "BEGIN", hl1)
				}
			}
		}
	})
	mk("query, every byte in the database and the statement", 4, func(u *run.U, e *evT, part, parts int) {
		cs := &[3]int32{33, 301, 8}
		for b := part; b < 256; b += parts {
			c := string([]byte{byte(b)})
			for _, t := range []string{c, c + "BEGIN", "BEGIN" + c, "BE" + c + "GIN", c + c, " " + c + " "} {
				e.cur = fmt.Sprintf("text %q", t)
				query(u, e, nil, nil, "db", t, hl1)
				query(u, e, []ref.StatusVar{all[0], all[1], all[2], all[4]}, cs, "db", t, hl1)
				if b > 0 {
					query(u, e, nil, nil, t, "BEGIN", hl1)
					query(u, e, []ref.StatusVar{all[0], all[1], all[2], all[4]}, cs, t, "BEGIN", hl1)
				}
			}
		}
	})
	mk("query, database and statement", 4, func(u *run.U, e *evT, part, parts int) {
		for n := part; n < 256; n += parts {
			for _, k := range []int{0, 1, 2, 5, 100, 255, 256, 70000} {
				if k == 70000 && n%32 != part {
					continue
				}
				e.cur = fmt.Sprintf("database of %d bytes, statement of %d", n, k)
				cs := ref.DefaultCharset
				query(u, e, ref.DefaultVars(), &cs, string(ref.Pat(n, 1)), string(ref.Pat(k, 2)), hls[:2+n%3])
				query(u, e, nil, nil, string(ref.Pat(n, 1)), string(ref.Pat(k, 2)), hl1)
			}
		}
		for b := 0; b < 256; b++ {
			s := string([]byte{byte(b)})
			e.cur = fmt.Sprintf("byte %#x", b)
			query(u, e, nil, nil, s, s, hl1)
			query(u, e, nil, nil, "d"+s+"d", "x"+s+"y", hl1)
		}
	})
	mk("query, every split of the status block", 1, func(u *run.U, e *evT, _, _ int) {
		// a block of unknown variables after the charset, of every length
		cs := ref.DefaultCharset
		for n := 0; n <= 600; n++ {
			e.cur = fmt.Sprintf("%d bytes of later variables", n)
			vars := ref.DefaultVars()
			if n > 0 {
				vars = append(vars, ref.StatusVar{Code: 128, Data: bytes.Repeat([]byte{4}, n-1)})
			}
			query(u, e, vars, &cs, "db", "CREATE TABLE t(a int)", hl1)
		}
	})
	us = append(us, histUnits(tier, "end to end", c16Alphabet(), 4, 5, streamOracle)...)
	return us
}
