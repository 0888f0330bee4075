package main

import (
	"fmt"
	"math"
	"strings"

	"verif/ref"
	"verif/run"
)

type jsonT struct {
	*cellT
	u *run.U
}

func (j *jsonT) doc(d *ref.Doc, large bool) {
	e := d.Encode(large)
	w := 4
	enc := append(ref.LE(nil, uint64(len(e)), w), e...)
	got := j.decode(ref.TJSON, uint16(w), false, enc)
	if err := ref.CheckJSON(d, got); err != nil {
		j.u.Fail("document %s (forced large: %v): %v", d, large, err)
	}
}

// wrap lists the contexts a scalar is decoded in.
func wraps(d *ref.Doc) []*ref.Doc {
	return []*ref.Doc{d, ref.Arr(d), ref.Obj("k", d), ref.Arr(ref.DNull(), d, ref.DStr("z")), ref.Obj("a", ref.Arr(d), "bb", ref.DInt(-1))}
}

func leaves() []*ref.Doc {
	return []*ref.Doc{
		ref.DNull(), ref.DTrue(), ref.DFalse(),
		ref.DInt(-7), ref.DUint(65535), ref.DInt(-2147483648), ref.DUint(4294967295), ref.DInt(-1 << 63), ref.DUint(1<<64 - 1),
		ref.DDouble(-1.5e300), ref.DStr("s"), ref.DStr(""),
		ref.DDate(2021, 5, 13), ref.DTime(false, 12, 34, 56, 789), ref.DDateTime(1999, 12, 31, 23, 59, 59, 999999), ref.DDecimal(true, "123", "45"),
	}
}

// trees calls f for every document shape with exactly n nodes over the leaves
// and containers, depth-first.
func trees(n int, leaf []*ref.Doc, keys []string, f func(*ref.Doc)) {
	if n == 1 {
		for _, l := range leaf {
			f(l)
		}
		f(ref.Arr())
		f(ref.ObjOf(nil, nil))
		return
	}
	forests(n-1, leaf, keys, nil, func(el []*ref.Doc) {
		f(ref.Arr(append([]*ref.Doc(nil), el...)...))
		if len(el) <= len(keys) {
			f(ref.ObjOf(keys[:len(el)], el))
		}
	})
}

func forests(n int, leaf []*ref.Doc, keys []string, pre []*ref.Doc, f func([]*ref.Doc)) {
	if n == 0 {
		f(pre)
		return
	}
	for k := 1; k <= n; k++ {
		trees(k, leaf, keys, func(d *ref.Doc) {
			forests(n-k, leaf, keys, append(append([]*ref.Doc(nil), pre...), d), f)
		})
	}
}

func c14Units(tier string) []run.Unit {
	th := tier == "thorough"
	var us []run.Unit
	add := func(name string, f func(u *run.U, j *jsonT)) {
		us = append(us, unit(name, func(u *run.U) { f(u, &jsonT{newCellT(u), u}) }))
	}
	both := func(u *run.U, j *jsonT, d *ref.Doc) {
		for _, large := range []bool{false, true} {
			j.doc(d, large)
			u.Eval(1)
		}
	}
	add("empty value", func(u *run.U, j *jsonT) {
		got := j.decode(ref.TJSON, 4, false, []byte{0, 0, 0, 0})
		if err := ref.CheckJSON(ref.DNull(), got); err != nil {
			u.Fail("empty JSON value: %v", err)
		}
		u.Eval(1)
	})
	add("16-bit integers, every value", func(u *run.U, j *jsonT) {
		var d *ref.Doc
		u.Cur(func() string { return d.String() })
		for v := 0; v < 65536; v++ {
			for _, d = range []*ref.Doc{ref.DInt(int64(int16(v))).WithWidth(2), ref.DUint(uint64(v)).WithWidth(2)} {
				j.doc(d, false)
				j.doc(ref.Arr(d), false)
				j.doc(ref.Obj("k", d), true)
				u.Eval(3)
			}
		}
		u.Sample("%s", d)
	})
	for _, w := range []int{4, 8} {
		w := w
		add(fmt.Sprintf("%d-bit integers, patterns", w*8), func(u *run.U, j *jsonT) {
			var d *ref.Doc
			u.Cur(func() string { return d.String() })
			mb := 2
			if th {
				mb = 3
			}
			for _, v := range patterns(uint(w), mb, 30) {
				sv := int64(v)
				if w == 4 {
					sv = int64(int32(v))
				}
				for _, d = range []*ref.Doc{ref.DInt(sv).WithWidth(w), ref.DUint(v).WithWidth(w)} {
					for _, x := range wraps(d)[:3] {
						both(u, j, x)
					}
				}
			}
			u.Sample("%s", d)
		})
	}
	add("doubles", func(u *run.U, j *jsonT) {
		var d *ref.Doc
		u.Cur(func() string { return d.String() })
		man := []uint64{0, 1, 1 << 51, 1<<52 - 1, 0x5555555555555, 0x8000000000001, 0x999999999999a}
		for se := 0; se < 4096; se++ {
			if se&2047 == 2047 {
				continue
			}
			for _, m := range man {
				d = ref.DDouble(math.Float64frombits(uint64(se)<<52 | m))
				j.doc(d, false)
				j.doc(ref.Arr(d), false)
				u.Eval(2)
			}
		}
		for i := -1000; i <= 1000; i++ {
			d = ref.DDouble(float64(i) / 8)
			for _, x := range wraps(d) {
				both(u, j, x)
			}
		}
		u.Sample("%s", d)
	})
	add("strings of every length and size-prefix width", func(u *run.U, j *jsonT) {
		var n int
		u.Cur(func() string { return fmt.Sprintf("string of %d bytes", n) })
		var lens []int
		lim := 700
		if th {
			lim = 20000
		}
		for n := 0; n <= lim; n++ {
			lens = append(lens, n)
		}
		for _, c := range []int{16383, 32767, 65535, 65535 - 20, 1<<21 - 1, 1 << 22} {
			for k := -3; k <= 3; k++ {
				lens = append(lens, c+k)
			}
		}
		for _, n = range lens {
			s := string(ref.Pat(n, byte(n)))
			d := ref.DStr(s)
			j.doc(d, false)
			j.doc(ref.Arr(d, ref.DStr("after")), false)
			u.Eval(2)
			if n < 3000 {
				for _, x := range wraps(d) {
					both(u, j, x)
				}
			}
		}
		u.Sample("%d lengths up to %d", len(lens), n)
	})
	add("string contents", func(u *run.U, j *jsonT) {
		for b := 0x20; b < 0x100; b++ {
			if b == '\'' || b == '"' || b == '\\' || b == 0x7f {
				continue
			}
			s := string([]byte{byte(b)})
			if b >= 0x80 {
				s = string(rune(b + 0x4e00))
			}
			for _, x := range []*ref.Doc{ref.DStr(s), ref.DStr("x" + s + "y"), ref.Obj(s, ref.DStr(s)), ref.Arr(ref.DStr(s), ref.DStr(s))} {
				both(u, j, x)
			}
		}
		for _, s := range []string{"null", "true", "12", "JSON_ARRAY(", ")", ",", "1.5E+00", "日本語", "\U0001F600"} {
			for _, x := range wraps(ref.DStr(s)) {
				both(u, j, x)
			}
			for _, x := range wraps(ref.Obj(s, ref.DInt(1))) {
				both(u, j, x)
			}
		}
		u.Sample("printable ASCII without quotes and backslash, multi-byte runes")
	})
	add("key lengths", func(u *run.U, j *jsonT) {
		var n int
		u.Cur(func() string { return fmt.Sprintf("key of %d bytes", n) })
		for n = 0; n <= 65535; n++ {
			if n > 600 && n&255 > 1 && n&255 < 254 {
				continue
			}
			if !th && n > 600 && n&0xfff > 1 && n&0xfff < 0xffe {
				continue
			}
			k := string(ref.Pat(n, 7))
			d := ref.Obj(k, ref.DStr("v"))
			j.doc(d, false)
			j.doc(d, true)
			j.doc(ref.Obj(k, ref.DInt(5), k+"b", ref.DNull(), "", ref.DStr("q")), n >= 65000)
			u.Eval(3)
			if n >= 65534 {
				break
			}
		}
		u.Sample("lengths up to %d", n)
	})
	add("temporal scalars", func(u *run.U, j *jsonT) {
		var d *ref.Doc
		u.Cur(func() string { return d.String() })
		step := 7
		if th {
			step = 1
		}
		for y := 0; y <= 9999; y += step {
			for m := 0; m <= 12; m++ {
				for dd := (y + m) % step; dd <= 31; dd += step {
					d = ref.DDate(y, m, dd)
					j.doc(d, false)
					u.Eval(1)
				}
			}
		}
		us := []int{0, 1, 10, 999, 1000, 65535, 65536, 100000, 500000, 999999}
		for y := 0; y <= 9999; y += 101 {
			for _, t := range [][3]int{{0, 0, 0}, {1, 2, 3}, {16, 32, 33}, {23, 59, 59}} {
				for _, f := range us {
					d = ref.DDateTime(y, 1+y%12, 1+y%28, t[0], t[1], t[2], f)
					j.doc(d, false)
					j.doc(ref.Arr(d), false)
					u.Eval(2)
				}
			}
		}
		for h := 0; h <= 838; h++ {
			for _, t := range [][2]int{{0, 0}, {0, 1}, {1, 0}, {31, 32}, {59, 59}} {
				for _, f := range us {
					for _, neg := range []bool{false, true} {
						if neg && h+t[0]+t[1]+f == 0 || h == 838 && t[1] == 59 && f > 0 {
							continue
						}
						d = ref.DTime(neg, h, t[0], t[1], f)
						j.doc(d, false)
						j.doc(ref.Obj("t", d), false)
						u.Eval(2)
					}
				}
			}
		}
		if th {
			for f := 0; f < 1000000; f++ {
				for _, neg := range []bool{false, true} {
					if neg && f == 0 {
						continue
					}
					d = ref.DTime(neg, 0, 0, 0, f)
					j.doc(d, false)
					d = ref.DDateTime(2021, 5, 13, 1, 2, 3, f)
					j.doc(d, false)
					u.Eval(2)
				}
			}
		}
		for _, x := range []*ref.Doc{ref.DDate(0, 0, 0), ref.DDate(9999, 12, 31), ref.DTime(true, 838, 59, 59, 0), ref.DTime(false, 0, 0, 0, 0), ref.DDateTime(0, 0, 0, 0, 0, 0, 0)} {
			for _, y := range wraps(x) {
				d = y
				both(u, j, y)
			}
		}
		u.Sample("%s", ref.DTime(true, 838, 59, 59, 0))
	})
	add("decimal scalars", func(u *run.U, j *jsonT) {
		var d *ref.Doc
		u.Cur(func() string { return d.String() })
		for p := 1; p <= 65; p++ {
			for s := 0; s <= p && s <= 30; s++ {
				gi, gf := decimalGroups(p, s)
				for _, fill := range []string{"0", "9", "1"} {
					v := strings.Repeat(fill, p)
					w := []string{v}
					for k := 0; k < p; k++ {
						z := []byte(v)
						z[k] = '5'
						w = append(w, string(z))
						if !th && k > 2 && k < p-2 && k%9 > 1 {
							w = w[:len(w)-1]
						}
					}
					for _, x := range w {
						for _, neg := range []bool{false, true} {
							if neg && strings.Trim(x, "0") == "" {
								continue
							}
							d = ref.DDecimal(neg, x[:p-s], x[p-s:])
							j.doc(d, false)
							j.doc(ref.Arr(d), false)
							u.Eval(2)
						}
					}
				}
				_, _ = gi, gf
			}
		}
		u.Sample("%s", d)
	})
	add("element counts", func(u *run.U, j *jsonT) {
		var n int
		u.Cur(func() string { return fmt.Sprintf("%d elements", n) })
		counts := []int{}
		for i := 0; i <= 300; i++ {
			counts = append(counts, i)
		}
		counts = append(counts, 4095, 4096, 10000, 13105, 13106, 13107, 13108, 16383, 16384, 21843, 21844, 21845, 21846, 32767, 32768, 65535, 65536, 65537, 100000)
		for _, n = range counts {
			el := make([]*ref.Doc, n)
			keys := make([]string, n)
			for i := range el {
				el[i] = leaves()[0]
				switch i % 5 {
				case 1:
					el[i] = ref.DInt(int64(i) - 9)
				case 2:
					el[i] = ref.DStr("s")
				case 3:
					el[i] = ref.DInt(int64(i) + 70000)
				case 4:
					el[i] = ref.DTrue()
				}
				keys[i] = fmt.Sprintf("k%d", i)
			}
			both(u, j, ref.Arr(el...))
			both(u, j, ref.ObjOf(keys, el))
			lit := make([]*ref.Doc, n)
			for i := range lit {
				lit[i] = ref.DFalse()
			}
			both(u, j, ref.Arr(lit...))
		}
		u.Sample("counts up to %d", n)
	})
	us = append(us, split("many elements of one kind", 8, func(u *run.U, part, parts int) {
		j := &jsonT{newCellT(u), u}
		var n int
		var x *ref.Doc
		u.Cur(func() string { return fmt.Sprintf("%d times %s", n, x) })
		kinds := append(leaves(), ref.Arr(), ref.ObjOf(nil, nil), ref.Arr(ref.DInt(1)), ref.Obj("k", ref.DStr("s")), ref.Arr(ref.Arr(), ref.ObjOf(nil, nil)), ref.Obj("a", ref.Obj("b", ref.Arr(ref.DNull()))))
		for k, kind := range kinds {
			x = kind
			for _, n = range []int{1, 2, 3, 15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 257, 511, 513, 1000, 1023, 1024, 1025, 2047, 2049, 4097, 8191, 8193, 10001, 20000, 65536, 70001} {
				if (n+k)%parts != part || n > 10001 && !th && k%4 != 1 {
					continue
				}
				el := make([]*ref.Doc, n)
				keys := make([]string, n)
				for i := range el {
					el[i] = x
					keys[i] = fmt.Sprintf("k%d", i)
				}
				both(u, j, ref.Arr(el...))
				both(u, j, ref.ObjOf(keys, el))
				if n < 3000 {
					both(u, j, ref.Obj("a", ref.Arr(el...), "b", ref.Arr(ref.Arr(el...), ref.DStr("end")), "c", ref.DInt(1)))
				}
			}
		}
		u.Sample("%d times %s", n, x)
	})...)
	add("sizes around 64 KB", func(u *run.U, j *jsonT) {
		var n int
		u.Cur(func() string { return fmt.Sprintf("filler of %d bytes", n) })
		for n = 65535 - 60; n <= 65535+20; n++ {
			s := ref.DStr(string(ref.Pat(n, 1)))
			for _, d := range []*ref.Doc{ref.Arr(s), ref.Arr(s, ref.DInt(70000), ref.DStr("tail")), ref.Arr(ref.DStr("head"), s, ref.Obj("k", ref.DNull())), ref.Obj("a", s, "b", ref.DUint(70000)),
				ref.Obj("z", ref.DInt(1), "a", ref.Arr(s, ref.Arr())), ref.Arr(ref.Arr(s), ref.Arr(ref.DInt(-70000), ref.DInt(1<<40)), ref.DInt(-70000), ref.DUint(3000000000)),
				ref.Obj("in", ref.Obj("x", ref.DInt(1), "y", ref.Arr(ref.DInt(-3), ref.DStr("q"))), "s", s, "w", ref.DInt(-2000000000), "t", ref.DTrue())} {
				j.doc(d, false)
				u.Eval(1)
			}
		}
		for _, n = range []int{70000, 131072, 1 << 20, 1<<24 + 5} {
			s := ref.DStr(string(ref.Pat(n, 1)))
			d := ref.Obj("a", ref.Arr(s, ref.DInt(-5), ref.DInt(-70000)), "b", ref.Arr(leaves()...), "c", ref.Obj("x", ref.Arr(leaves()...)))
			j.doc(d, false)
			u.Eval(1)
		}
		u.Sample("objects and arrays whose size is 65475..65600 bytes, with small and large children")
	})
	add("nesting depth", func(u *run.U, j *jsonT) {
		var n int
		u.Cur(func() string { return fmt.Sprintf("depth %d", n) })
		for n = 1; n <= 100; n++ {
			for _, l := range leaves() {
				a, o, m := l, l, l
				for i := 0; i < n; i++ {
					a = ref.Arr(a)
					o = ref.Obj("k", o)
					if i%2 == 0 {
						m = ref.Arr(ref.DInt(int64(i)), m, ref.DStr("e"))
					} else {
						m = ref.Obj("f", ref.DNull(), "g", m)
					}
				}
				j.doc(a, false)
				j.doc(o, n%2 == 0)
				j.doc(m, false)
				u.Eval(3)
			}
		}
		u.Sample("depth up to %d", n-1)
	})
	add("every leaf in every context", func(u *run.U, j *jsonT) {
		ls := leaves()
		for _, a := range ls {
			for _, x := range wraps(a) {
				both(u, j, x)
			}
			for _, b := range ls {
				for _, c := range ls {
					both(u, j, ref.Arr(a, b, c))
					both(u, j, ref.Obj("a", a, "bb", b, "c", c))
				}
			}
		}
		u.Sample("all triples of %d leaf kinds in arrays and objects, small and large", len(ls))
	})
	// all document trees
	type lv struct {
		max  int
		leaf []*ref.Doc
	}
	ls := leaves()
	levels := []lv{{4, ls}, {6, []*ref.Doc{ref.DInt(3), ref.DInt(-70000), ref.DStr("x")}}}
	if th {
		levels = []lv{{5, ls}, {8, []*ref.Doc{ref.DInt(3), ref.DStr("x")}}, {7, []*ref.Doc{ref.DInt(3), ref.DInt(-70000), ref.DStr("x")}}}
	}
	for _, x := range levels {
		for n := 1; n <= x.max; n++ {
			x, n := x, n
			parts := 1
			if n >= x.max-1 {
				parts = 8
			}
			us = append(us, split(fmt.Sprintf("every document tree of %d nodes over %d leaves", n, len(x.leaf)), parts, func(u *run.U, i, parts int) {
				j := &jsonT{newCellT(u), u}
				var d *ref.Doc
				u.Cur(func() string { return d.String() })
				k := 0
				trees(n, x.leaf, []string{"a", "b", "cc", "dd", "e", "f", "g", "h"}, func(t *ref.Doc) {
					k++
					if k%parts != i {
						return
					}
					d = t
					j.doc(d, false)
					j.doc(d, true)
					u.Eval(2)
				})
				u.Sample("%s", d)
			})...)
		}
	}
	us = append(us, e2eTypeUnits(tier, "end to end", []byte{ref.TJSON}, nil)...)
	return us
}
