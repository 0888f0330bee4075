package main

import (
	"context"
	"fmt"

	"github.com/Breeze0806/gobinlog"

	"verif/e2e"
	"verif/fm"
	"verif/ref"
	"verif/run"
)

var opClock = hop{"clock jump", anywhere, func(c *hctx) {
	c.l.SetTS([]uint32{1<<31 - 2, 1 << 31, 1<<32 - 64, 1, 1600000000}[c.n%5])
}}

var opBulk = hop{"12 single-row events", inTran, func(c *hctx) {
	for i := 0; i < 12; i++ {
		c.l.TableMap(uint64(100+i%2), []*ref.Table{c.h.a, c.h.b}[i%2])
		rs := [][]ref.Image{c.h.rowA, c.h.rowB}[i%2]
		switch i % 3 {
		case 0:
			c.l.Rows(ref.Write, uint64(100+i%2), nil, rs[i%3:i%3+1], true)
		case 1:
			c.l.Rows(ref.Delete, uint64(100+i%2), rs[i%3:i%3+1], nil, true)
		case 2:
			c.l.Rows(ref.Update, uint64(100+i%2), rs[i%3:i%3+1], rs[i%2:i%2+1], true)
		}
	}
}}

// several tables announced first, then their rows in another order
var opMulti = hop{"multi-table statement", anywhere, func(c *hctx) {
	c.l.TableMap(201, c.h.a)
	c.l.TableMap(202, c.h.b)
	c.l.TableMap(203, c.h.z)
	c.l.Rows(ref.Update, 202, c.h.rowB[:1], c.h.rowB[1:2], false)
	c.l.Rows(ref.Write, 203, nil, c.h.rowZ[:2], false)
	c.l.Rows(ref.Delete, 201, c.h.rowA[:2], nil, true)
}}

func c01Alphabet() []hop {
	return []hop{opBegin, opXID, opCommit, opRoll, opInsA, opInsA3, opUpdA, opDelA, opInsB, opUpdB, opDelB, opInsZ, opMulti,
		opCreate, opSet, opInsS, opGTID, opAnon, opBeat, opUnknown, opUnkStmt, opRotate, opRestart, opCrash, opClock}
}

func c01Units(tier string) []run.Unit {
	th := tier == "thorough"
	us := histUnits(tier, "whole alphabet", c01Alphabet(), 4, 5, streamOracle)
	core := []hop{opBegin, opXID, opCommit, opRoll, opInsA, opUpdB, opDelB, opCreate, opGTID, opRotate}
	us = append(us, histUnits(tier, "transactions and rotation", core, 6, 7, streamOracle)...)
	us = append(us, histUnits(tier, "rows", []hop{opBegin, opXID, opInsA3, opUpdA, opUpdB, opDelB, opInsZ, opMulti, opBulk}, 5, 6, streamOracle)...)
	var types []byte
	for t := 0; t < 256; t++ {
		types = append(types, byte(t))
	}
	var labels []string
	for _, k := range ref.Kinds() {
		labels = append(labels, k.Label)
	}
	us = append(us, e2eTypeUnits(tier, "all types", types, labels)...)
	us = append(us, nullUnits(tier)...)
	us = append(us, partialUnits(tier)...)
	us = append(us, c01Wide(th)...)
	us = append(us, c01Sizes(th)...)
	us = append(us, volumeUnits(th)...)
	us = append(us, textUnits(th)...)
	us = append(us, headUnits(th)...)
	us = append(us, twinUnits()...)
	us = append(us, againUnits()...)
	us = append(us, split("header lengths, table metadata and extra row data", 4, func(u *run.U, part, parts int) {
		r := e2e.NewRig(9, hT.a, hT.b, hT.z)
		defer r.Close()
		var desc string
		u.Cur(func() string { return desc })
		i := 0
		for _, f := range formats {
			for _, hl := range []int{19, 20, 27, 40} {
				for _, on := range []int{0, 1, 2, 4, 5, 20, 250, 251, 300} {
					for _, ex := range []int{0, 1, 2, 30, 255, 600} {
						for _, ver := range []int{51, 56, 57, 80} {
							if i++; i%parts != part || f.four && ver != 51 || !f.four && ver == 51 && f.v2 || ex > 0 && !f.v2 {
								continue
							}
							o := f.opt()
							o.HdrLen, o.Ver = hl, ver
							o.Optional, o.Extra = ref.Pat(on, 8), ref.Pat(ex, 9)
							desc = fmt.Sprintf("%v: headers of %d, %d bytes of table metadata, %d of extra row data, version %d", f, hl, on, ex, ver)
							next := opRotate
							if hl != 19 {
								next = opUnknown // a master's fake rotate has 19 bytes of header
							}
							c, ok := writeHist([]hop{opGTID, opBegin, opInsA3, opUpdB, opMulti, opXID, opCreate, next, opBegin, opDelB, opCommit, opInsZ}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, f, o)
							if !ok {
								panic("history")
							}
							streamOracle(u, r, c, f)
							u.Eval(1)
							u.Trace(1)
						}
					}
				}
			}
		}
		u.Sample("%s", desc)
	})...)
	return us
}

// c01Wide puts NULLs and absent columns at every place of tables of every
// width, so that every bit of the presence and NULL bitmaps is exercised.
func c01Wide(th bool) []run.Unit {
	ks := map[string]ref.Kind{}
	for _, k := range ref.Kinds() {
		ks[k.Label] = k
	}
	labels := []string{"tiny", "varchar(10)", "short unsigned", "blob1", "year"}
	max := 40
	if th {
		max = 80
	}
	return split("NULL and absent at every column", 8, func(u *run.U, part, parts int) {
		r := e2e.NewRig(4)
		defer r.Close()
		var desc string
		u.Cur(func() string { return desc })
		for n := 1 + part; n <= max; n += parts {
			var cols []ref.Col
			for i := 0; i < n; i++ {
				cols = append(cols, ks[labels[i%len(labels)]].Col)
			}
			t := named("w", fmt.Sprintf("t%d", n), cols...)
			r.Mapper.Set(t)
			img := func(k int, f func(c int) byte) ref.Image {
				var im ref.Image
				for c := 0; c < n; c++ {
					cs := ks[labels[c%len(labels)]].Cells
					switch f(c) {
					case 'n':
						im = append(im, ref.Cell{Null: true})
					case 'a':
						im = append(im, ref.Cell{Absent: true})
					default:
						im = append(im, cs[(c+k)%len(cs)])
					}
				}
				return im
			}
			for fi, f := range formats {
				if !th && (fi+n)%3 != 0 {
					continue
				}
				desc = fmt.Sprintf("%d columns, %v", n, f)
				l := ref.NewLog(f.opt())
				l.Begin("BEGIN")
				l.TableMap(4, t)
				one := func(x, y byte, p int) func(c int) byte {
					return func(c int) byte {
						if c == p {
							return x
						}
						return y
					}
				}
				cases := 0
				for p := 0; p < n; p++ {
					nul := img(p, one('n', 'v', p))
					onlyNotNull := img(p, one('v', 'n', p))
					l.Rows(ref.Write, 4, nil, []ref.Image{nul, onlyNotNull}, true)
					l.Rows(ref.Delete, 4, []ref.Image{onlyNotNull, nul, onlyNotNull}, nil, true)
					cases += 2
					if n > 1 {
						abs := img(p, one('a', 'v', p))
						only := img(p, one('v', 'a', p))
						onlyNull := img(p, one('n', 'a', p))
						mixed := img(p, func(c int) byte {
							switch {
							case c == p:
								return 'a'
							case (c+p)%3 == 0:
								return 'n'
							}
							return 'v'
						})
						l.Rows(ref.Write, 4, nil, []ref.Image{abs, mixed}, true)
						l.Rows(ref.Delete, 4, []ref.Image{only, onlyNull}, nil, true)
						l.Rows(ref.Update, 4, []ref.Image{abs, mixed}, []ref.Image{only, onlyNull}, true)
						l.Rows(ref.Update, 4, []ref.Image{only}, []ref.Image{nul}, true)
						cases += 4
					}
				}
				l.XID()
				stream(u, r, l)
				u.Eval(int64(cases))
				u.Trace(1)
			}
		}
		u.Sample("%s", desc)
	})
}

// c01Sizes covers packets around the sizes at which the transport changes
// what it does: its buffer, 64 KiB, and the 16 MiB a packet can hold.
func c01Sizes(th bool) []run.Unit {
	var sizes []int
	for d := -90; d <= 6; d++ {
		sizes = append(sizes, 4096+d)
	}
	for _, n := range []int{0, 1, 250, 251, 255, 256, 1000, 8192, 16384, 65535, 65536, 70000, 1 << 20} {
		for d := -2; d <= 2; d++ {
			if n+d >= 0 {
				sizes = append(sizes, n+d)
			}
		}
	}
	for d := -64; d <= 4; d++ {
		if th || d%16 == 0 || d > 0 {
			sizes = append(sizes, 1<<24+d)
		}
	}
	if th {
		sizes = append(sizes, 1<<25-40, 1<<25, 40<<20)
	}
	var k ref.Kind
	for _, x := range ref.Kinds() {
		if x.Label == "blob4" {
			k = x
		}
	}
	t := named("d", "big", k.Col, hT.a.Cols[0])
	return split("packet sizes and how the network cuts them", 8, func(u *run.U, part, parts int) {
		r := e2e.NewRig(4, t)
		defer r.Close()
		var desc string
		u.Cur(func() string { return desc })
		for i, n := range sizes {
			if i%parts != part {
				continue
			}
			for fi, f := range formats {
				if n > 100000 && (fi != i%2*3 || f.four) {
					continue
				}
				chunks := []int{0, 1, 7, 1448, 4096}
				if n > 10000 {
					chunks = []int{0, 1448}
				}
				for _, ch := range chunks {
					desc = fmt.Sprintf("value of %d bytes, network chunks of %d, %v", n, ch, f)
					im := ref.Image{ref.Blob(4, ref.Pat(n, byte(n))), hT.rowA[0][0]}
					small := ref.Image{ref.Blob(4, ref.Pat(5, byte(n))), hT.rowA[1][0]}
					l := ref.NewLog(f.opt())
					l.Begin("BEGIN")
					l.TableMap(4, t)
					l.Rows(ref.Write, 4, nil, []ref.Image{small}, true)
					l.Rows(ref.Update, 4, []ref.Image{small}, []ref.Image{im}, true)
					l.Rows(ref.Delete, 4, []ref.Image{small}, nil, true)
					l.XID()
					l.Statement("create", "d", "CREATE TABLE x (a int)")
					r.Fresh()
					r.ServeLog(l, fm.EndEOF)
					d := r.M.Dump
					r.M.Dump = func(a int, q fm.Request) *fm.Script {
						s := d(a, q)
						s.Chunk = ch
						return s
					}
					f0, o := l.StartPos()
					r.S.SetBinlogPosition(e2e.Pos(f0, o))
					a := r.Run(context.Background(), func(int, *gobinlog.Transaction) error { u.Beat(); return nil })
					if a.Panic != nil || a.Err != nil || a.ErrErr != nil {
						u.Fail("panic %v, Stream: %v, Error(): %v\nlog: %s", a.Panic, a.Err, a.ErrErr, l.Describe())
					}
					if err := e2e.CompareAll(a.Trans, l.Trans); err != nil {
						u.Fail("%v\nlog: %s", err, l.Describe())
					}
					u.Eval(1)
					u.Trace(1)
					bigExtra(u, n)
				}
			}
		}
		u.Sample("%s", desc)
	})
}

func bigExtra(u *run.U, n int) {
	if n >= 1<<24-40 {
		u.Extra("packets split over several protocol packets", 1)
	}
}
