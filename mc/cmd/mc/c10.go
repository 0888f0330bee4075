package main

import (
	"fmt"
	"math"
	"sort"

	"verif/ref"
	"verif/run"
)

// appInt is the decimal text of a two's complement value of w bytes.
func appInt(b []byte, bits uint64, w uint, uns bool) []byte {
	neg := false
	if !uns && bits>>(8*w-1)&1 == 1 {
		neg = true
		bits = -bits
		if w < 8 {
			bits &= 1<<(8*w) - 1
		}
	}
	if neg {
		b = append(b, '-')
	}
	var t [20]byte
	k := 20
	for {
		k--
		t[k] = byte('0' + bits%10)
		bits /= 10
		if bits == 0 {
			break
		}
	}
	return append(b, t[k:]...)
}

var intTypes = []struct {
	name string
	t    byte
}{{"TINYINT", ref.TTiny}, {"SMALLINT", ref.TShort}, {"MEDIUMINT", ref.TInt24}, {"INT", ref.TLong}, {"BIGINT", ref.TLongLong}}

// patterns64 are the values of w bytes with few set or clear bits, and windows
// around powers of two and ten.
func patterns(w uint, maxBits, win int) []uint64 {
	n := 8 * w
	mask := ^uint64(0) >> (64 - n)
	set := map[uint64]struct{}{}
	add := func(v uint64) {
		set[v&mask] = struct{}{}
		set[^v&mask] = struct{}{}
	}
	var rec func(v uint64, from uint, left int)
	rec = func(v uint64, from uint, left int) {
		add(v)
		if left == 0 {
			return
		}
		for i := from; i < n; i++ {
			rec(v|1<<i, i+1, left-1)
		}
	}
	rec(0, 0, maxBits)
	around := func(c uint64) {
		for d := -win; d <= win; d++ {
			add(c + uint64(int64(d)))
		}
	}
	for i := uint(0); i < n; i++ {
		around(1 << i)
	}
	for p := uint64(1); p <= mask/10; p *= 10 {
		around(p)
		around(p * 5)
	}
	for i := uint(0); i+16 <= n; i += 8 {
		for b := uint64(0); b < 256; b++ {
			add(b << i)
			add(b<<i | b<<(i+8))
		}
	}
	out := make([]uint64, 0, len(set))
	for v := range set {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func c10Units(tier string) []run.Unit {
	var us []run.Unit
	th := tier == "thorough"
	for _, x := range intTypes {
		x := x
		w := uint(ref.IntWidth(x.t))
		for _, uns := range []bool{false, true} {
			uns := uns
			name := fmt.Sprintf("%s unsigned=%v", x.name, uns)
			each := func(u *run.U, next func(i uint64) (uint64, bool)) {
				c := newCellT(u)
				var v uint64
				u.Cur(func() string { return fmt.Sprintf("%s value bits %#x", name, v) })
				var enc, want []byte
				n := int64(0)
				for i := uint64(0); ; i++ {
					var ok bool
					if v, ok = next(i); !ok {
						break
					}
					enc = ref.LE(enc[:0], v, int(w))
					want = appInt(want[:0], v, w, uns)
					c.text(x.t, 0, uns, enc, want)
					if i == 1 || i == 77 {
						u.Sample("bytes %x -> %s", enc, want)
					}
					if n++; n == 4096 {
						u.Eval(n)
						n = 0
					}
				}
				u.Eval(n)
			}
			if w <= 3 || w == 4 && th {
				total := uint64(1) << (8 * w)
				k := 1
				if w == 3 {
					k = 4
				} else if w == 4 {
					k = 64
				}
				us = append(us, split(name+" every value", k, func(u *run.U, i, n int) {
					lo := total / uint64(n) * uint64(i)
					hi := total / uint64(n) * uint64(i+1)
					each(u, func(j uint64) (uint64, bool) { return lo + j, lo+j < hi })
				})...)
				continue
			}
			mb, win := 3, 600
			if th {
				mb, win = 4, 20000
			}
			if w == 8 && !th {
				mb = 2
			}
			us = append(us, unit(name+" bit patterns and boundaries", func(u *run.U) {
				ps := patterns(w, mb, win)
				each(u, func(j uint64) (uint64, bool) {
					if j >= uint64(len(ps)) {
						return 0, false
					}
					return ps[j], true
				})
			}))
		}
	}
	float := func(u *run.U, c *cellT, b uint32) {
		if b&0x7f800000 == 0x7f800000 {
			return // not storable
		}
		var enc [4]byte
		for i := range enc {
			enc[i] = byte(b >> (8 * uint(i)))
		}
		got := c.decode(ref.TFloat, 4, false, enc[:])
		if err := ref.CheckFloat32(b, got); err != nil {
			u.Fail("%v", err)
		}
	}
	if th {
		us = append(us, split("FLOAT every value", 64, func(u *run.U, i, n int) {
			c := newCellT(u)
			var b uint32
			u.Cur(func() string { return fmt.Sprintf("FLOAT bits %08x", b) })
			lo := uint64(1) << 32 / uint64(n) * uint64(i)
			hi := uint64(1) << 32 / uint64(n) * uint64(i+1)
			k := int64(0)
			for v := lo; v < hi; v++ {
				b = uint32(v)
				if b&0x7f800000 == 0x7f800000 {
					continue
				}
				float(u, c, b)
				if k++; k == 4096 {
					u.Eval(k)
					k = 0
				}
			}
			u.Eval(k)
		})...)
	} else {
		us = append(us, split("FLOAT every sign and exponent, structured mantissas", 16, func(u *run.U, i, n int) {
			c := newCellT(u)
			var b uint32
			u.Cur(func() string { return fmt.Sprintf("FLOAT bits %08x", b) })
			man := mantissas32()
			for se := i; se < 512; se += n {
				if se&255 == 255 {
					continue
				}
				for _, m := range man {
					b = uint32(se)<<23 | m
					float(u, c, b)
				}
				u.Eval(int64(len(man)))
			}
			u.Sample("exponents %d mod %d with %d mantissas, both signs", i, n, len(man))
		})...)
	}
	us = append(us, split("DOUBLE every sign and exponent, structured mantissas", 16, func(u *run.U, i, n int) {
		c := newCellT(u)
		var b uint64
		u.Cur(func() string { return fmt.Sprintf("DOUBLE bits %016x", b) })
		man := mantissas64(th)
		for se := i; se < 4096; se += n {
			if se&2047 == 2047 {
				continue
			}
			for _, m := range man {
				b = uint64(se)<<52 | m
				var enc []byte
				enc = ref.LE(enc, b, 8)
				got := c.decode(ref.TDouble, 8, false, enc)
				if err := ref.CheckFloat64(b, got); err != nil {
					u.Fail("%v", err)
				}
			}
			u.Eval(int64(len(man)))
		}
		u.Sample("exponents %d mod %d with %d mantissas, both signs", i, n, len(man))
	})...)
	us = append(us, unit("FLOAT and DOUBLE decimal fractions and integers", func(u *run.U) {
		c := newCellT(u)
		var f float64
		u.Cur(func() string { return fmt.Sprintf("value %g", f) })
		lim := 20000
		if th {
			lim = 2000000
		}
		for i := -lim; i <= lim; i++ {
			for _, d := range []float64{1, 10, 1000, 1e7, 1e-6, 1e-20} {
				f = float64(i) / d
				x := ref.Float64(f)
				c.cell(&ref.Col{Type: ref.TDouble, Meta: []byte{8}}, &x)
				float(u, c, math.Float32bits(float32(f)))
			}
			u.EvalDup(12)
		}
	}))
	us = append(us, unit("YEAR every byte", func(u *run.U) {
		c := newCellT(u)
		for b := 0; b < 256; b++ {
			x := ref.Year(byte(b))
			c.cell(&ref.Col{Type: ref.TYear}, &x)
			u.Eval(1)
			u.Sample("%x -> %s", x.Enc, x.Text)
		}
	}))
	for n := 1; n <= 64; n++ {
		n := n
		us = append(us, unit(fmt.Sprintf("BIT(%d)", n), func(u *run.U) {
			c := newCellT(u)
			col := &ref.Col{Type: ref.TBit, Meta: ref.BitMeta(n)}
			var v uint64
			u.Cur(func() string { return fmt.Sprintf("BIT(%d) value %#x", n, v) })
			one := func(x uint64) {
				v = x & (^uint64(0) >> (64 - uint(n)))
				y := ref.Bit(n, v)
				c.cell(col, &y)
				u.EvalHash(v)
			}
			if n <= 16 {
				for x := uint64(0); x < 1<<uint(n); x++ {
					one(x)
				}
			} else {
				for _, x := range patterns(uint(n+7)/8, 2, 40) {
					one(x)
				}
			}
			u.Sample("metadata %x, value %#x", col.Meta, v)
		}))
	}
	for _, direct := range []bool{false, true} {
		direct := direct
		for w := 1; w <= 2; w++ {
			w := w
			us = append(us, unit(fmt.Sprintf("ENUM of %d bytes, bare type=%v", w, direct), func(u *run.U) {
				c := newCellT(u)
				col := &ref.Col{Type: ref.TString, Meta: []byte{ref.TEnum, byte(w)}}
				if direct {
					col.Type = ref.TEnum
				}
				for v := uint64(0); v < 1<<(8*uint(w)); v++ {
					x := ref.Enum(w, v)
					c.cell(col, &x)
				}
				u.Eval(1 << (8 * uint(w)))
				u.Sample("index %d of %d bytes", 200, w)
			}))
		}
	}
	for w := 1; w <= 8; w++ {
		w := w
		us = append(us, unit(fmt.Sprintf("SET of %d bytes", w), func(u *run.U) {
			c := newCellT(u)
			col := &ref.Col{Type: ref.TString, Meta: []byte{ref.TSet, byte(w)}}
			one := func(v uint64) {
				x := ref.Cell{Enc: ref.LE(nil, v, w), Text: appInt(nil, v, 8, true)}
				c.cell(col, &x)
				u.EvalHash(v)
			}
			if w <= 2 {
				for v := uint64(0); v < 1<<(8*uint(w)); v++ {
					one(v)
				}
				return
			}
			for _, v := range patterns(uint(w), 2, 40) {
				one(v)
			}
			u.Sample("mask %#x", uint64(1)<<(8*uint(w)-1))
		}))
	}
	us = append(us, partialUnits(tier)...)
	us = append(us, e2eTypeUnits(tier, "end to end, columns by ordinal", []byte{ref.TTiny, ref.TShort, ref.TInt24, ref.TLong, ref.TLongLong, ref.TFloat, ref.TDouble, ref.TYear, ref.TBit}, []string{"enum1", "enum2", "set1", "set8"})...)
	return us
}

func mantissas32() []uint32 {
	set := map[uint32]struct{}{}
	const mask = 1<<23 - 1
	add := func(v uint32) {
		set[v&mask] = struct{}{}
		set[^v&mask] = struct{}{}
	}
	for i := uint(0); i < 23; i++ {
		add(1 << i)
		for j := i; j < 23; j++ {
			add(1<<i | 1<<j)
			for k := j; k < 23; k++ {
				add(1<<i | 1<<j | 1<<k)
			}
		}
	}
	for v := uint32(0); v < 256; v++ {
		add(v)
		add(v << 15)
	}
	return keys32(set)
}

func keys32(set map[uint32]struct{}) []uint32 {
	var out []uint32
	for v := range set {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func mantissas64(th bool) []uint64 {
	set := map[uint64]struct{}{}
	const mask = 1<<52 - 1
	add := func(v uint64) {
		set[v&mask] = struct{}{}
		set[^v&mask] = struct{}{}
	}
	for i := uint(0); i < 52; i++ {
		add(1 << i)
		if th {
			for j := i; j < 52; j++ {
				add(1<<i | 1<<j)
			}
		}
	}
	for v := uint64(0); v < 32; v++ {
		add(v)
		add(v << 47)
	}
	add(0x5555555555555)
	add(0x123456789abcd)
	var out []uint64
	for v := range set {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}
