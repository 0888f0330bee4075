package main

import (
	"fmt"

	"verif/e2e"
	"verif/ref"
	"verif/run"
)

// partialUnits streams rows events of partial images: which names, signedness,
// values, NULLs and absent marks the columns get whatever else is absent or
// NULL. All bits of every integer are set, so that a column read with the
// signedness of another shows; all names differ.
func partialUnits(tier string) []run.Unit {
	th := tier == "thorough"
	ints := []byte{ref.TLong, ref.TTiny, ref.TLongLong, ref.TShort, ref.TInt24}
	max := 4
	if th {
		max = 5
	}
	var us []run.Unit
	for n := 1; n <= max; n++ {
		n := n
		us = append(us, split(fmt.Sprintf("partial images of %d columns, every presence, NULL and signedness pattern", n), 4, func(u *run.U, part, parts int) {
			var desc string
			u.Cur(func() string { return desc })
			r := e2e.NewRig(5)
			defer r.Close()
			all := 1<<uint(n) - 1
			for uns := part; uns <= all; uns += parts {
				for rot := 0; rot < 2; rot++ {
					f := formats[(uns+rot*3)%len(formats)]
					desc = fmt.Sprintf("%d columns, unsigned %b, %v", n, uns, f)
					var cols []ref.Col
					for i := 0; i < n; i++ {
						cols = append(cols, ref.Col{Type: ints[(i*rot+rot)%len(ints)], Unsigned: uns>>uint(i)&1 == 1})
					}
					t := named("d", "p", cols...)
					r.Fresh()
					r.Mapper.Set(t)
					// rows of one presence: every subset of its columns is NULL
					rows := func(pres int) []ref.Image {
						var out []ref.Image
						for null := 0; null <= all; null++ {
							if null&^pres != 0 {
								continue
							}
							var im ref.Image
							for i, c := range cols {
								switch {
								case pres>>uint(i)&1 == 0:
									im = append(im, ref.Cell{Absent: true})
								case null>>uint(i)&1 == 1:
									im = append(im, ref.Cell{Null: true})
								default:
									im = append(im, ref.Int(c.Type, 1<<64-1-uint64(i), c.Unsigned))
								}
							}
							out = append(out, im)
						}
						return out
					}
					l := ref.NewLog(f.opt())
					l.Begin("BEGIN")
					l.TableMap(6, t)
					for p := 0; p <= all; p++ {
						a := rows(p)
						if p > 0 {
							l.Rows(ref.Write, 6, nil, a, true)
							l.Rows(ref.Delete, 6, a, nil, true)
						}
						for q := 0; q <= all; q++ {
							if p == 0 && q == 0 {
								continue // rows of no bytes cannot be counted
							}
							b := rows(q)
							// as many rows as the larger has, in step
							m := len(a)
							if len(b) > m {
								m = len(b)
							}
							var x, y []ref.Image
							for i := 0; i < m; i++ {
								x, y = append(x, a[i%len(a)]), append(y, b[(i+p)%len(b)])
							}
							l.Rows(ref.Update, 6, x, y, true)
						}
					}
					l.XID()
					stream(u, r, l)
					u.Trans(int64(all * (4 + all)))
					u.Eval(int64(all * (4 + all)))
					u.Trace(1)
				}
			}
			u.Sample("%s", desc)
		})...)
	}
	widths := []int{7, 8, 9, 15, 16, 17, 33, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 300}
	if th {
		widths = append(widths, 31, 32, 100, 250, 251, 252, 511, 512, 513, 600)
	}
	for _, n := range widths {
		n := n
		us = append(us, unit(fmt.Sprintf("partial images of %d columns, each column alone", n), func(u *run.U) {
			var desc string
			u.Cur(func() string { return desc })
			r := e2e.NewRig(5)
			defer r.Close()
			for pat := 0; pat < 3; pat++ {
				f := formats[(n+pat)%len(formats)]
				desc = fmt.Sprintf("%d columns, unsigned pattern %d, %v", n, pat, f)
				var cols []ref.Col
				for i := 0; i < n; i++ {
					c := ref.Col{Type: ints[i%len(ints)], Unsigned: (i+pat)%(2+pat) == 0}
					if i%4 == 3 {
						c = ref.Col{Type: ref.TVarchar, Meta: []byte{10, 0}}
					}
					cols = append(cols, c)
				}
				t := named("d", "w", cols...)
				r.Fresh()
				r.Mapper.Set(t)
				cell := func(i int) ref.Cell {
					if cols[i].Type == ref.TVarchar {
						s := fmt.Sprint(i)
						return ref.Cell{Enc: append([]byte{byte(len(s))}, s...), Text: []byte(s)}
					}
					return ref.Int(cols[i].Type, 1<<64-1-uint64(i), cols[i].Unsigned)
				}
				img := func(what func(i int) int) ref.Image {
					im := make(ref.Image, n)
					for i := range im {
						switch what(i) {
						case 0:
							im[i] = cell(i)
						case 1:
							im[i] = ref.Cell{Null: true}
						case 2:
							im[i] = ref.Cell{Absent: true}
						default:
							im[i] = cell(i)
							if cols[i].Type == ref.TVarchar {
								im[i] = ref.Cell{Enc: []byte{0}, Text: []byte{}}
							}
						}
					}
					return im
				}
				full := img(func(int) int { return 0 })
				l := ref.NewLog(f.opt())
				l.Begin("BEGIN")
				l.TableMap(6, t)
				ev := 0
				for k := 0; k < n; k++ {
					if n > 130 && pat > 0 && k%7 != pat && k < n-2 {
						continue
					}
					alone := func(me, others int) ref.Image {
						return img(func(i int) int {
							if i == k {
								return me
							}
							return others
						})
					}
					upto := func(a, b int) ref.Image {
						return img(func(i int) int {
							if i <= k {
								return a
							}
							return b
						})
					}
					for _, x := range []ref.Image{alone(2, 0), alone(1, 0), alone(3, 0), alone(0, 2), alone(1, 2), alone(3, 1), upto(0, 2), upto(1, 0), upto(1, 3)} {
						l.Rows(ref.Write, 6, nil, []ref.Image{x}, true)
						l.Rows(ref.Delete, 6, []ref.Image{x}, nil, true)
						ev += 2
					}
					l.Rows(ref.Update, 6, []ref.Image{alone(2, 0)}, []ref.Image{alone(0, 2)}, true)
					l.Rows(ref.Update, 6, []ref.Image{alone(0, 2)}, []ref.Image{alone(2, 0)}, true)
					l.Rows(ref.Update, 6, []ref.Image{full, alone(1, 0)}, []ref.Image{alone(0, 1), full}, true)
					if k < n-1 {
						l.Rows(ref.Update, 6, []ref.Image{upto(2, 0)}, []ref.Image{upto(0, 2)}, true)
						l.Rows(ref.Update, 6, []ref.Image{upto(0, 2)}, []ref.Image{upto(2, 1)}, true)
					}
					ev += 5
				}
				l.XID()
				stream(u, r, l)
				u.Trans(int64(ev))
				u.Eval(int64(ev))
				u.Trace(1)
			}
			u.Sample("%s", desc)
		}))
	}
	return us
}
