package main

import (
	"fmt"
	"strings"

	"verif/ref"
	"verif/run"
)

// decimalSplits lists the groups of DECIMAL(p,s): their digit counts, integer
// groups first.
func decimalGroups(p, s int) (intg, frac []int) {
	i := p - s
	if i%9 > 0 {
		intg = append(intg, i%9)
	}
	for k := 0; k < i/9; k++ {
		intg = append(intg, 9)
	}
	for k := 0; k < s/9; k++ {
		frac = append(frac, 9)
	}
	if s%9 > 0 {
		frac = append(frac, s%9)
	}
	return
}

func groupValues(n int, rich bool) []string {
	z, nine := strings.Repeat("0", n), strings.Repeat("9", n)
	set := []string{z, z[:n-1] + "1", nine}
	if rich {
		set = append(set, "1"+z[:n-1], "123456789"[:n], "900000000"[:n], "010203040"[:n])
		for k := 1; k < n; k++ {
			set = append(set, z[:k]+nine[k:], nine[:k]+z[k:], z[:k]+"1"+z[k+1:])
		}
	}
	var out []string
	seen := map[string]bool{}
	for _, v := range set {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	return out
}

type decT struct {
	*cellT
	enc, want []byte
}

func (d *decT) one(p, s int, neg bool, digits []byte) {
	if neg {
		zero := true
		for _, c := range digits {
			zero = zero && c == '0'
		}
		if zero {
			return
		}
	}
	i, f := digits[:p-s], digits[p-s:]
	d.enc = ref.AppendDecimal(d.enc[:0], neg, i, f)
	d.want = ref.AppendDecimalText(d.want[:0], neg, i, f)
	d.text(ref.TDecimal, uint16(p)<<8|uint16(s), false, d.enc, d.want)
}

func c11Units(tier string) []run.Unit {
	var us []run.Unit
	th := tier == "thorough"
	small := 5
	if th {
		small = 7
	}
	for p := 1; p <= 65; p++ {
		p := p
		us = append(us, unit(fmt.Sprintf("DECIMAL(%d,*)", p), func(u *run.U) {
			d := &decT{cellT: newCellT(u)}
			var cur []byte
			var s int
			var neg bool
			u.Cur(func() string { return fmt.Sprintf("DECIMAL(%d,%d) neg=%v digits %s", p, s, neg, cur) })
			for s = 0; s <= p && s <= 30; s++ {
				if p <= small {
					// every value
					cur = []byte(strings.Repeat("0", p))
					n := int64(0)
					for {
						for _, neg = range []bool{false, true} {
							d.one(p, s, neg, cur)
						}
						n += 2
						k := p - 1
						for k >= 0 && cur[k] == '9' {
							cur[k] = '0'
							k--
						}
						if k < 0 {
							break
						}
						cur[k]++
					}
					u.Eval(n - 1)
					continue
				}
				gi, gf := decimalGroups(p, s)
				g := append(append([]int(nil), gi...), gf...)
				seen := map[string]struct{}{}
				try := func(v string) {
					if _, ok := seen[v]; ok {
						return
					}
					seen[v] = struct{}{}
					cur = []byte(v)
					for _, neg = range []bool{false, true} {
						d.one(p, s, neg, cur)
					}
					u.Eval(2)
				}
				// the product of the plain values of every group
				var rec func(k int, v string)
				rec = func(k int, v string) {
					if k == len(g) {
						try(v)
						return
					}
					for _, x := range groupValues(g[k], th && len(g) <= 6) {
						rec(k+1, v+x)
					}
				}
				rec(0, "")
				// every rich value of each group (pair of groups when thorough),
				// the others zero or full
				for a := range g {
					for _, x := range groupValues(g[a], true) {
						for _, fill := range []string{"0", "9", "1"} {
							var b strings.Builder
							for k := range g {
								if k == a {
									b.WriteString(x)
								} else {
									b.WriteString(strings.Repeat(fill, g[k]))
								}
							}
							try(b.String())
						}
					}
				}
				// a single 1 and a single 0 among nines at every digit
				for k := 0; k < p; k++ {
					z := []byte(strings.Repeat("0", p))
					z[k] = '1'
					try(string(z))
					z = []byte(strings.Repeat("9", p))
					z[k] = '0'
					try(string(z))
				}
			}
			u.Sample("scale %d, digits %s, neg %v", s-1, cur, neg)
		}))
	}
	us = append(us, e2eTypeUnits(tier, "end to end", []byte{ref.TDecimal}, nil)...)
	us = append(us, unit("neighbouring decimals in one row image", func(u *run.U) {
		// consecutive cells of one image decode independently
		c := newCellT(u)
		for _, k := range ref.Kinds() {
			if k.Col.Type != ref.TDecimal {
				continue
			}
			for i := range k.Cells {
				c.cell(&k.Col, &k.Cells[i])
				u.EvalDup(1)
			}
		}
	}))
	return us
}
