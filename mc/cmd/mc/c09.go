package main

import (
	"bytes"
	"fmt"

	rep "github.com/Breeze0806/gobinlog/replication"

	"verif/ref"
	"verif/run"
)

// rowsT decodes rows events with the real splitter and compares every part
// with what was encoded.
type rowsT struct {
	u    *run.U
	fmts map[formatT]rep.BinlogFormat
}

func newRowsT(u *run.U) *rowsT { return &rowsT{u, map[formatT]rep.BinlogFormat{}} }

func (r *rowsT) format(f formatT) rep.BinlogFormat {
	x, ok := r.fmts[f]
	if !ok {
		ver := 57
		if f.four {
			ver = 51
		}
		x = rep.BinlogFormat{FormatVersion: 4, ServerVersion: "5.7.30-log", HeaderLength: 19, HeaderSizes: ref.Sizes(ver, f.four)}
		if f.crc {
			x.ChecksumAlgorithm = 1
		}
		r.fmts[f] = x
	}
	return x
}

// tableMap is the decoded form of a table's map, written down by hand.
func tableMap(cols []ref.Col) *rep.TableMap {
	tm := &rep.TableMap{Database: "d", Name: "t", CanBeNull: rep.NewServerBitmap(len(cols))}
	for i, c := range cols {
		tm.Types = append(tm.Types, c.Type)
		tm.Metadata = append(tm.Metadata, ref.MetaValue(c.Type, c.Meta))
		tm.CanBeNull.Set(i, !c.NotNull)
	}
	return tm
}

func (r *rowsT) check(f formatT, tm *rep.TableMap, cols []ref.Col, ev *ref.RowsEvent) {
	u := r.u
	ev.V2, ev.Four, ev.NCols = f.v2, f.four, len(cols)
	raw := ref.Event(ref.Header{Timestamp: 5, Type: ev.EvType(), ServerID: 1, NextPos: 1000}, ev.Body(), f.crc)
	keep := append([]byte(nil), raw...)
	bf := r.format(f)
	e := rep.NewMysql56BinlogEvent(raw)
	if !e.IsValid() {
		u.Fail("valid rows event rejected")
	}
	e, _, err := e.StripChecksum(bf)
	if err != nil {
		u.Fail("strip: %v", err)
	}
	if e.IsWriteRows() != (ev.Kind == ref.Write) || e.IsUpdateRows() != (ev.Kind == ref.Update) || e.IsDeleteRows() != (ev.Kind == ref.Delete) {
		u.Fail("event kind not recognised")
	}
	if id := e.TableID(bf); id != ev.TableID {
		u.Fail("table id %d, want %d", id, ev.TableID)
	}
	rs, err := e.Rows(bf, tm)
	if err != nil {
		u.Fail("Rows: %v", err)
	}
	if rs.Flags != ev.Flags {
		u.Fail("flags %#x, want %#x", rs.Flags, ev.Flags)
	}
	pres := func(p []bool, im []ref.Image) []bool {
		if p != nil {
			return p
		}
		p = make([]bool, len(cols))
		for i := range p {
			p[i] = len(im) == 0 || !im[0][i].Absent
		}
		return p
	}
	bits := func(what string, got *rep.Bitmap, has bool, want []bool) {
		if !has {
			return
		}
		if got.Count() != len(want) {
			u.Fail("%s bitmap has %d bits, want %d", what, got.Count(), len(want))
		}
		n := 0
		for i, w := range want {
			if got.Bit(i) != w {
				u.Fail("%s bit %d is %v", what, i, !w)
			}
			if w {
				n++
			}
		}
		if got.BitCount() != n {
			u.Fail("%s BitCount %d, want %d", what, got.BitCount(), n)
		}
	}
	hasB, hasA := ev.Kind != ref.Write, ev.Kind != ref.Delete
	bits("identify columns", &rs.IdentifyColumns, hasB, pres(ev.PresentBefore, ev.Before))
	bits("data columns", &rs.DataColumns, hasA, pres(ev.PresentAfter, ev.After))
	n := len(ev.After)
	if ev.Kind == ref.Delete {
		n = len(ev.Before)
	}
	if len(rs.Rows) != n {
		u.Fail("%d rows, want %d", len(rs.Rows), n)
	}
	img := func(i int, what string, has bool, im []ref.Image, null *rep.Bitmap, data []byte) {
		if !has {
			if len(data) != 0 {
				u.Fail("row %d: unexpected %s image", i, what)
			}
			return
		}
		want := im[i].RawImage()
		if !bytes.Equal(data, want) {
			u.Fail("row %d: %s image %x, want %x", i, what, clip(data), clip(want))
		}
		k, pos := 0, 0
		for c, cell := range im[i] {
			if cell.Absent {
				continue
			}
			if k >= null.Count() {
				u.Fail("row %d: %s NULL bitmap has %d bits only", i, what, null.Count())
			}
			if null.Bit(k) != cell.Null {
				u.Fail("row %d column %d: %s NULL bit %v", i, c, what, !cell.Null)
			}
			k++
			if cell.Null {
				continue
			}
			got, l, err := rep.CellBytes(data, pos, tm.Types[c], tm.Metadata[c], cols[c].Unsigned)
			if err != nil {
				u.Fail("row %d column %d: CellBytes: %v", i, c, err)
			}
			if l != len(cell.Enc) {
				u.Fail("row %d column %d type %d metadata %#x: consumed %d bytes of a cell of %d", i, c, tm.Types[c], tm.Metadata[c], l, len(cell.Enc))
			}
			if err := ref.CheckCell(&cell, false, got); err != nil {
				u.Fail("row %d column %d: %v", i, c, err)
			}
			pos += l
		}
		if null.Count() != k {
			u.Fail("row %d: %s NULL bitmap has %d bits for %d present columns", i, what, null.Count(), k)
		}
		if pos != len(data) {
			u.Fail("row %d: %s image consumed to %d of %d", i, what, pos, len(data))
		}
	}
	for i := range rs.Rows {
		x := &rs.Rows[i]
		img(i, "before", hasB, ev.Before, &x.NullIdentifyColumns, x.Identify)
		img(i, "after", hasA, ev.After, &x.NullColumns, x.Data)
	}
	if !bytes.Equal(raw, keep) {
		u.Fail("decoding changed the event's bytes")
	}
}

func c09Units(tier string) []run.Unit {
	th := tier == "thorough"
	byLabel := map[string]ref.Kind{}
	for _, k := range ref.Kinds() {
		byLabel[k.Label] = k
	}
	var us []run.Unit
	// every presence and NULL pattern
	sets := [][]string{
		{"tiny", "varchar(10)", "int24", "blob2", "decimal(10,0)"},
		{"varchar(300)", "bit9", "time2(3)", "json", "enum2"},
	}
	maxN := 4
	if th {
		maxN = 5
		sets = append(sets, []string{"char(255)", "set8", "datetime2(6)", "double", "blob4"}, []string{"char(256)", "timestamp2(1)", "blob3", "decimal(65,30)", "year"})
	}
	for si, names := range sets {
		for n := 1; n <= maxN; n++ {
			for kind := ref.Write; kind <= ref.Delete; kind++ {
				si, names, n, kind := si, names, n, kind
				parts := 1
				if kind == ref.Update && n > 2 {
					parts = 1 << uint(n-1)
				}
				us = append(us, split(fmt.Sprintf("%s of %d columns (set %d), every presence and NULL pattern", [...]string{"write", "update", "delete"}[kind], n, si), parts, func(u *run.U, part, nparts int) {
					r := newRowsT(u)
					var cols []ref.Col
					var ks []ref.Kind
					for i := 0; i < n; i++ {
						k := byLabel[names[i]]
						ks = append(ks, k)
						cols = append(cols, k.Col)
					}
					tm := tableMap(cols)
					full := 1<<uint(n) - 1
					img := func(pres, null, row int) ref.Image {
						im := make(ref.Image, n)
						for c := range im {
							switch {
							case pres>>uint(c)&1 == 0:
								im[c].Absent = true
							case null>>uint(c)&1 == 1:
								im[c].Null = true
							default:
								im[c] = ks[c].Cells[(row+c)%len(ks[c].Cells)]
							}
						}
						return im
					}
					// NULL patterns of a presence: its submasks
					subs := func(p int) []int {
						var s []int
						for m := p; ; m = (m - 1) & p {
							s = append(s, m)
							if m == 0 {
								return s
							}
						}
					}
					var ev *ref.RowsEvent
					var f formatT
					u.Cur(func() string { return fmt.Sprintf("%v event %+v", f, ev) })
					do := func(e ref.RowsEvent) {
						ev = &e
						for i, g := range formats {
							if i%2 == 1 && !th || n > 5000 && i != n%3*2 {
								continue
							}
							f = g
							r.check(f, tm, cols, ev)
						}
						if th {
							u.Eval(int64(len(formats)))
						} else {
							u.Eval(int64(len(formats) / 2))
						}
					}
					if kind != ref.Update {
						for p := 1; p <= full; p++ {
							sp := subs(p)
							mk := func(rows []ref.Image) {
								e := ref.RowsEvent{Kind: kind, TableID: 77, Flags: 1}
								pres := make([]bool, n)
								for i := range pres {
									pres[i] = p>>uint(i)&1 == 1
								}
								if kind == ref.Write {
									e.After, e.PresentAfter = rows, pres
								} else {
									e.Before, e.PresentBefore = rows, pres
								}
								do(e)
							}
							mk(nil)
							for _, a := range sp {
								mk([]ref.Image{img(p, a, 0)})
								for _, b := range sp {
									mk([]ref.Image{img(p, a, 0), img(p, b, 1)})
									if n <= 3 || th && n <= 4 {
										for _, c := range sp {
											mk([]ref.Image{img(p, a, 0), img(p, b, 1), img(p, c, 2)})
										}
									}
								}
							}
						}
						u.Sample("every nonempty presence of %v, 0..%d rows", names[:n], 3)
						return
					}
					i := 0
					for p := 0; p <= full; p++ {
						for q := 0; q <= full; q++ {
							if p == 0 && q == 0 {
								continue
							}
							if i++; i%nparts != part {
								continue
							}
							pb, pa := make([]bool, n), make([]bool, n)
							for i := range pb {
								pb[i], pa[i] = p>>uint(i)&1 == 1, q>>uint(i)&1 == 1
							}
							sp, sq := subs(p), subs(q)
							for _, a := range sp {
								for _, b := range sq {
									do(ref.RowsEvent{Kind: kind, TableID: 1 << 31, PresentBefore: pb, PresentAfter: pa, Before: []ref.Image{img(p, a, 0)}, After: []ref.Image{img(q, b, 1)}})
									if n <= 2 || th && n <= 3 {
										for _, a2 := range sp {
											for _, b2 := range sq {
												do(ref.RowsEvent{Kind: kind, TableID: 5, PresentBefore: pb, PresentAfter: pa, Before: []ref.Image{img(p, a, 0), img(p, a2, 2)}, After: []ref.Image{img(q, b, 1), img(q, b2, 3)}})
											}
										}
									} else {
										do(ref.RowsEvent{Kind: kind, TableID: 5, PresentBefore: pb, PresentAfter: pa, Before: []ref.Image{img(p, a, 0), img(p, p&^a, 2)}, After: []ref.Image{img(q, b, 1), img(q, q&^b, 3)}})
									}
								}
							}
						}
					}
				})...)
			}
		}
	}
	// wide tables
	widths := []int{249, 250, 251, 252, 253, 255, 256, 257, 300, 511, 512, 513, 1000, 2047, 2048, 4096}
	for n := 1; n <= 130; n++ {
		widths = append(widths, n)
	}
	for _, n := range widths {
		n := n
		us = append(us, unit(fmt.Sprintf("tables of %d columns", n), func(u *run.U) {
			r := newRowsT(u)
			mix := []string{"tiny", "short unsigned", "varchar(10)", "longlong", "blob1", "decimal(9,0)", "year"}
			var cols []ref.Col
			var ks []ref.Kind
			for i := 0; i < n; i++ {
				k := byLabel[mix[(i*i+i/7)%len(mix)]]
				ks = append(ks, k)
				cols = append(cols, k.Col)
			}
			tm := tableMap(cols)
			img := func(pres, null func(i int) bool, row int) ref.Image {
				im := make(ref.Image, n)
				for c := range im {
					switch {
					case !pres(c):
						im[c].Absent = true
					case null(c):
						im[c].Null = true
					default:
						im[c] = ks[c].Cells[(row+c)%len(ks[c].Cells)]
					}
				}
				return im
			}
			type pat struct {
				name string
				f    func(i int) bool
			}
			all := pat{"all", func(int) bool { return true }}
			none := pat{"none", func(int) bool { return false }}
			alt := pat{"even", func(i int) bool { return i%2 == 0 }}
			third := pat{"thirds", func(i int) bool { return i%3 == 1 }}
			one := func(j int) pat {
				return pat{fmt.Sprintf("only %d", j), func(i int) bool { return i == j }}
			}
			but := func(j int) pat {
				return pat{fmt.Sprintf("all but %d", j), func(i int) bool { return i != j }}
			}
			var cur string
			u.Cur(func() string { return cur })
			do := func(p, q, nb, na pat) {
				np, nq := 0, 0
				for i := 0; i < n; i++ {
					if p.f(i) {
						np++
					}
					if q.f(i) {
						nq++
					}
				}
				if np == 0 || nq == 0 {
					return // no bytes, no rows to count
				}
				cur = fmt.Sprintf("%d columns, present before %s after %s, NULL before %s after %s", n, p.name, q.name, nb.name, na.name)
				for i, f := range formats {
					if (i+len(p.name))%3 != 0 && !th {
						continue
					}
					b := []ref.Image{img(p.f, nb.f, 0), img(p.f, na.f, 1)}
					a := []ref.Image{img(q.f, na.f, 2), img(q.f, nb.f, 3)}
					pb, pa := make([]bool, n), make([]bool, n)
					for i := range pb {
						pb[i], pa[i] = p.f(i), q.f(i)
					}
					r.check(f, tm, cols, &ref.RowsEvent{Kind: ref.Write, TableID: 9, After: a, PresentAfter: pa})
					r.check(f, tm, cols, &ref.RowsEvent{Kind: ref.Delete, TableID: 9, Before: b, PresentBefore: pb})
					r.check(f, tm, cols, &ref.RowsEvent{Kind: ref.Update, TableID: 9, Before: b, PresentBefore: pb, After: a, PresentAfter: pa})
					u.Eval(3)
				}
			}
			base := []pat{all, alt, third, one(0), one(n - 1), one(n / 2), but(0), but(n - 1), but(n / 2)}
			for _, p := range base {
				for _, q := range base {
					do(p, q, none, alt)
					if n <= 300 {
						do(p, q, all, third)
					}
				}
			}
			lim := n
			if !th && lim > 130 {
				lim = 130
			}
			for j := 0; j < lim; j++ {
				jj := j
				if n > lim {
					jj = j * n / lim
				}
				do(one(jj), all, none, one(jj))
				do(all, one(jj), but(jj), none)
				do(but(jj), but(n-1-jj), one(jj), but(jj))
			}
			u.Sample("%s", cur)
		}))
	}
	// every pair of column kinds
	kinds := ref.Kinds()
	us = append(us, split("every ordered pair of column kinds", 16, func(u *run.U, part, parts int) {
		r := newRowsT(u)
		var cur string
		u.Cur(func() string { return cur })
		for i, a := range kinds {
			if i%parts != part {
				continue
			}
			for _, b := range kinds {
				cols := []ref.Col{a.Col, b.Col, byLabel["short"].Col}
				tm := tableMap(cols)
				n := len(a.Cells)
				if len(b.Cells) > n {
					n = len(b.Cells)
				}
				s := byLabel["short"].Cells
				im := imgs(n, func(i int) ref.Image {
					return ref.Image{a.Cells[i%len(a.Cells)], b.Cells[i%len(b.Cells)], s[i%len(s)]}
				})
				im2 := append(im[1:len(im):len(im)], im[0])
				cur = fmt.Sprintf("columns (%s, %s, smallint)", a.Label, b.Label)
				for fi, f := range formats {
					if !th && fi%2 == 0 {
						continue
					}
					r.check(f, tm, cols, &ref.RowsEvent{Kind: ref.Write, TableID: 1, After: im})
					r.check(f, tm, cols, &ref.RowsEvent{Kind: ref.Update, TableID: 1, Before: im, After: im2})
					r.check(f, tm, cols, &ref.RowsEvent{Kind: ref.Delete, TableID: 1, Before: im2})
					u.Eval(3)
				}
			}
			u.Sample("%s", cur)
		}
	})...)
	// every metadata value of every type: length rule against value decoder
	sweep := func(name string, parts int, each func(u *run.U, part, parts int, one func(c ref.Col, cells ...ref.Cell))) {
		us = append(us, split(name, parts, func(u *run.U, part, parts int) {
			r := newRowsT(u)
			var cur string
			u.Cur(func() string { return cur })
			each(u, part, parts, func(c ref.Col, cells ...ref.Cell) {
				cols := []ref.Col{c, byLabel["tiny"].Col}
				tm := tableMap(cols)
				t := byLabel["tiny"].Cells
				im := imgs(len(cells), func(i int) ref.Image { return ref.Image{cells[i], t[i%len(t)]} })
				cur = fmt.Sprintf("type %d metadata %x", c.Type, c.Meta)
				r.check(formats[0], tm, cols, &ref.RowsEvent{Kind: ref.Update, TableID: 1, Before: im, After: im})
				u.Eval(1)
			})
			u.Sample("%s", cur)
		})...)
	}
	sweep("VARCHAR of every declared length", 8, func(u *run.U, part, parts int, one func(ref.Col, ...ref.Cell)) {
		for max := 1 + part; max <= 65535; max += parts {
			cells := []ref.Cell{ref.Varchar(max, nil), ref.Varchar(max, []byte("x"))}
			if max > 300 {
				cells = append(cells, ref.Varchar(max, ref.Pat(300, 1)))
			} else {
				cells = append(cells, ref.Varchar(max, ref.Pat(max, 1)))
			}
			if th || max%509 == 0 || max > 65530 {
				cells = append(cells, ref.Varchar(max, ref.Pat(max, 2)))
			}
			for i := range cells {
				if cells[i].Text == nil {
					cells[i].Text = []byte{}
				}
			}
			one(ref.Col{Type: ref.TVarchar, Meta: ref.VarcharMeta(max)}, cells...)
		}
	})
	sweep("CHAR of every declared length", 4, func(u *run.U, part, parts int, one func(ref.Col, ...ref.Cell)) {
		for max := 1 + part; max <= 1023; max += parts {
			cells := []ref.Cell{ref.Varchar(max, []byte{}), ref.Varchar(max, []byte("y")), ref.Varchar(max, ref.Pat(max, 1)), ref.Varchar(max, ref.Pat((max+1)/2, 1))}
			one(ref.Col{Type: ref.TString, Meta: ref.CharMeta(max)}, cells...)
		}
	})
	sweep("DECIMAL of every precision and scale", 4, func(u *run.U, part, parts int, one func(ref.Col, ...ref.Cell)) {
		for p := 1 + part; p <= 65; p += parts {
			for s := 0; s <= 30 && s <= p; s++ {
				z := bytes.Repeat([]byte{'0'}, p)
				n := bytes.Repeat([]byte{'9'}, p)
				o := append([]byte(nil), z...)
				o[p-1] = '1'
				one(ref.Col{Type: ref.TDecimal, Meta: []byte{byte(p), byte(s)}}, ref.Decimal(false, string(z[:p-s]), string(z[p-s:])), ref.Decimal(true, string(n[:p-s]), string(n[p-s:])), ref.Decimal(false, string(o[:p-s]), string(o[p-s:])))
			}
		}
	})
	sweep("BIT of every width", 1, func(u *run.U, _, _ int, one func(ref.Col, ...ref.Cell)) {
		for n := 1; n <= 64; n++ {
			one(ref.Col{Type: ref.TBit, Meta: ref.BitMeta(n)}, ref.Bit(n, 0), ref.Bit(n, 1<<uint(n-1)), ref.Bit(n, ^uint64(0)>>(64-uint(n))))
		}
	})
	sweep("SET and ENUM of every size", 1, func(u *run.U, _, _ int, one func(ref.Col, ...ref.Cell)) {
		for w := 1; w <= 8; w++ {
			one(ref.Col{Type: ref.TString, Meta: []byte{ref.TSet, byte(w)}}, ref.Set(w, 0), ref.Set(w, ^uint64(0)>>(64-8*uint(w))))
		}
		for w := 1; w <= 2; w++ {
			one(ref.Col{Type: ref.TString, Meta: []byte{ref.TEnum, byte(w)}}, ref.Enum(w, 1), ref.Enum(w, 255))
			one(ref.Col{Type: ref.TEnum, Meta: []byte{ref.TEnum, byte(w)}}, ref.Enum(w, 1), ref.Enum(w, 255))
		}
	})
	sweep("BLOB, JSON and GEOMETRY of every prefix width and many lengths", 4, func(u *run.U, part, parts int, one func(ref.Col, ...ref.Cell)) {
		for w := 1 + part; w <= 4; w += parts {
			for _, t := range []byte{ref.TBlob, ref.TTinyBlob, ref.TMedBlob, ref.TLongBlob, ref.TGeometry} {
				top := 255
				if w > 1 {
					top = 700
				}
				for n := 0; n+3 <= top; n += 3 {
					one(ref.Col{Type: t, Meta: []byte{byte(w)}}, ref.Blob(w, ref.Pat(n, 1)), ref.Blob(w, ref.Pat(n+1, 2)), ref.Blob(w, ref.Pat(n+2, 3)))
				}
				if w > 1 {
					one(ref.Col{Type: t, Meta: []byte{byte(w)}}, ref.Blob(w, ref.Pat(65535, 1)))
				}
				if w > 2 {
					one(ref.Col{Type: t, Meta: []byte{byte(w)}}, ref.Blob(w, ref.Pat(65536, 1)), ref.Blob(w, ref.Pat(1<<20+3, 1)))
				}
			}
			if w >= 2 {
				for _, n := range []int{0, 1, 10, 100, 1000} {
					one(ref.Col{Type: ref.TJSON, Meta: []byte{byte(w)}}, ref.JSON(w, ref.DStr(string(ref.Pat(n, 4))), false), ref.JSON(w, ref.Arr(ref.DInt(int64(n))), true))
				}
			}
		}
	})
	sweep("temporal types of every precision", 1, func(u *run.U, _, _ int, one func(ref.Col, ...ref.Cell)) {
		for _, k := range kinds {
			switch k.Col.Type {
			case ref.TTime2, ref.TDateTime2, ref.TTimestamp2, ref.TTime, ref.TDate, ref.TNewDate, ref.TDateTime, ref.TTimestamp, ref.TYear:
				one(k.Col, k.Cells...)
			}
		}
	})
	us = append(us, unit("v2 extra row data of every length", func(u *run.U) {
		r := newRowsT(u)
		var ev *ref.RowsEvent
		u.Cur(func() string { return fmt.Sprintf("%+v", ev) })
		k := byLabel["varchar(10)"]
		cols := []ref.Col{k.Col, byLabel["tiny"].Col}
		tm := tableMap(cols)
		for n := 0; n <= 600; n++ {
			for kind := ref.Write; kind <= ref.Delete; kind++ {
				im := []ref.Image{{k.Cells[0], byLabel["tiny"].Cells[0]}}
				ev = &ref.RowsEvent{Kind: kind, TableID: uint64(n), Flags: uint16(n * 7), Extra: ref.Pat(n, 3)}
				if kind != ref.Write {
					ev.Before = im
				}
				if kind != ref.Delete {
					ev.After = im
				}
				r.check(formatT{n%2 == 0, true, false}, tm, cols, ev)
				u.Eval(1)
			}
		}
		u.Sample("0..600 bytes of extra data")
	}))
	us = append(us, split("0..300 rows, and many", 4, func(u *run.U, part, parts int) {
		r := newRowsT(u)
		n := 0
		u.Cur(func() string { return fmt.Sprintf("%d rows", n) })
		k, t := byLabel["varchar(10)"], byLabel["tiny"]
		cols := []ref.Col{k.Col, t.Col, k.Col}
		tm := tableMap(cols)
		counts := []int{511, 512, 513, 1000, 1023, 1024, 1025, 4096, 4097, 5000, 10001, 16385, 20000, 32768, 65535, 65536, 65537, 100001}
		for i := 0; i <= 300; i++ {
			counts = append(counts, i)
		}
		for _, n = range counts {
			if n%parts != part {
				continue
			}
			im := imgs(n, func(i int) ref.Image {
				x := ref.Image{k.Cells[i%len(k.Cells)], t.Cells[i%len(t.Cells)], k.Cells[(i/3)%len(k.Cells)]}
				if i%5 == 3 {
					x[i%3] = ref.Cell{Null: true}
				}
				return x
			})
			all := []bool{true, true, true}
			for i, f := range formats {
				if i%2 == 1 && !th {
					continue
				}
				r.check(f, tm, cols, &ref.RowsEvent{Kind: ref.Write, TableID: 1, After: im, PresentAfter: all})
				r.check(f, tm, cols, &ref.RowsEvent{Kind: ref.Update, TableID: 1, Before: im, After: im, PresentBefore: all, PresentAfter: all})
				r.check(f, tm, cols, &ref.RowsEvent{Kind: ref.Delete, TableID: 1, Before: im, PresentBefore: all})
				u.Eval(3)
			}
		}
		u.Sample("up to 20000 rows")
	})...)
	// end to end: signedness, names and values follow the columns
	us = append(us, e2eTypeUnits(tier, "end to end", []byte{ref.TTiny, ref.TBit, ref.TTime2}, []string{"varchar(10)", "varchar(300)", "char(255)", "char(256)", "blob2", "decimal(18,9)", "json", "enum2", "set8"})...)
	us = append(us, nullUnits(tier)...)
	us = append(us, partialUnits(tier)...)
	us = append(us, headUnits(tier == "thorough")...)
	return us
}
