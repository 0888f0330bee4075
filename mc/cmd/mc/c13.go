package main

import (
	"fmt"

	"verif/ref"
	"verif/run"
)

func c13Units(tier string) []run.Unit {
	th := tier == "thorough"
	var us []run.Unit
	pool := make([]byte, 1<<17)
	for i := range pool {
		pool[i] = byte(i*131 + i>>8 + 7)
	}
	check := func(u *run.U, c *cellT, typ byte, meta []byte, w, n int) {
		v := ref.Pat(0, 3)
		if n <= len(pool) {
			v = pool[:n]
		} else {
			v = ref.Pat(n, 3)
		}
		x := ref.Blob(w, v)
		col := &ref.Col{Type: typ, Meta: meta}
		c.cell(col, &x)
		if got := c.decode(typ, ref.MetaValue(typ, meta), false, x.Enc); n == 0 && got == nil {
			u.Fail("type %d metadata %x: the empty value decodes to nil", typ, meta)
		}
		u.Eval(1)
	}
	for _, t := range []byte{ref.TVarchar, ref.TVarString} {
		t := t
		us = append(us, split(fmt.Sprintf("VARCHAR type %d every declared length, boundary lengths", t), 8, func(u *run.U, i, n int) {
			c := newCellT(u)
			var max, l int
			u.Cur(func() string { return fmt.Sprintf("max %d length %d", max, l) })
			for max = i; max <= 65535; max += n {
				w := 1
				if max > 255 {
					w = 2
				}
				seen := -1
				for _, l = range []int{0, 1, 127, 128, 250, 255, 256, 300} {
					if l > max || l == seen {
						continue
					}
					check(u, c, t, ref.VarcharMeta(max), w, l)
				}
				if l = max; th || max < 2000 || max%97 == 0 || max > 65500 || max&255 == 0 || max&255 == 255 {
					check(u, c, t, ref.VarcharMeta(max), w, l)
				}
			}
			u.Sample("declared lengths %d mod %d", i, n)
		})...)
		us = append(us, unit(fmt.Sprintf("VARCHAR type %d every length at declared 254..258 and 65535", t), func(u *run.U) {
			c := newCellT(u)
			var max, l int
			u.Cur(func() string { return fmt.Sprintf("max %d length %d", max, l) })
			for _, max = range []int{254, 255, 256, 257, 258, 65535} {
				w := 1
				if max > 255 {
					w = 2
				}
				for l = 0; l <= max; l++ {
					if !th && l > 2000 && l%37 != 0 && l&255 > 1 && l&255 < 254 {
						continue
					}
					check(u, c, t, ref.VarcharMeta(max), w, l)
				}
			}
			u.Sample("max %d length %d", max, l)
		}))
	}
	us = append(us, split("CHAR every declared length, every length", 8, func(u *run.U, i, n int) {
		c := newCellT(u)
		var max, l int
		u.Cur(func() string { return fmt.Sprintf("max %d length %d", max, l) })
		for max = i; max <= 1023; max += n {
			w := 1
			if max > 255 {
				w = 2
			}
			for l = 0; l <= max; l++ {
				check(u, c, ref.TString, ref.CharMeta(max), w, l)
			}
		}
		u.Sample("declared lengths %d mod %d, metadata of 300 is %x", i, n, ref.CharMeta(300))
	})...)
	for _, t := range []byte{ref.TBlob, ref.TGeometry, ref.TTinyBlob, ref.TMedBlob, ref.TLongBlob} {
		for w := 1; w <= 4; w++ {
			t, w := t, w
			us = append(us, unit(fmt.Sprintf("BLOB type %d, %d-byte prefix", t, w), func(u *run.U) {
				c := newCellT(u)
				var l int
				u.Cur(func() string { return fmt.Sprintf("length %d", l) })
				lim := 255
				if w >= 2 {
					lim = 65535
				}
				if w > 2 {
					lim = 1 << 16
				}
				for l = 0; l <= lim; l++ {
					if !th && l > 600 && l%211 != 0 && (l&255 > 0 && l&255 < 255 || l%3 != 0) && l < lim-3 {
						continue
					}
					check(u, c, t, []byte{byte(w)}, w, l)
				}
				if w >= 3 && (t == ref.TBlob || t == ref.TGeometry) {
					for _, l = range []int{65537, 1 << 17, 1<<20 + 3, 1<<24 - 1} {
						check(u, c, t, []byte{byte(w)}, w, l)
					}
				}
				if w == 4 && t == ref.TBlob {
					for _, l = range []int{1 << 24, 1<<24 + 1, 1<<24 + 1<<16, 1<<25 - 1} {
						check(u, c, t, []byte{byte(w)}, w, l)
					}
				}
				u.Sample("lengths up to %d", l)
			}))
		}
	}
	us = append(us, unit("every byte value at every position of a short value", func(u *run.U) {
		c := newCellT(u)
		var v []byte
		u.Cur(func() string { return fmt.Sprintf("%x", v) })
		for n := 1; n <= 4; n++ {
			for p := 0; p < n; p++ {
				for b := 0; b < 256; b++ {
					v = append([]byte(nil), "abcd"[:n]...)
					v[p] = byte(b)
					for _, k := range []struct {
						t byte
						m []byte
						w int
					}{{ref.TVarchar, ref.VarcharMeta(20), 1}, {ref.TVarchar, ref.VarcharMeta(400), 2}, {ref.TString, ref.CharMeta(4), 1}, {ref.TString, ref.CharMeta(600), 2}, {ref.TBlob, []byte{1}, 1}, {ref.TBlob, []byte{2}, 2}, {ref.TGeometry, []byte{4}, 4}} {
						x := ref.Blob(k.w, v)
						c.cell(&ref.Col{Type: k.t, Meta: k.m}, &x)
						u.Eval(1)
					}
				}
			}
		}
		u.Sample("%q", v)
	}))
	us = append(us, partialUnits(tier)...)
	us = append(us, e2eTypeUnits(tier, "end to end", []byte{ref.TVarchar, ref.TVarString, ref.TString, ref.TBlob, ref.TTinyBlob, ref.TMedBlob, ref.TLongBlob, ref.TGeometry}, nil)...)
	us = append(us, nullUnits(tier)...)
	return us
}
