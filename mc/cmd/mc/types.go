package main

import (
	"context"
	"fmt"

	"github.com/Breeze0806/gobinlog"

	"verif/e2e"
	"verif/fm"
	"verif/ref"
	"verif/run"
)

// formats are the log formats histories are replayed in.
type formatT struct {
	crc, v2, four bool
}

func (f formatT) String() string {
	return fmt.Sprintf("crc=%v v2=%v 4-byte-ids=%v", f.crc, f.v2, f.four)
}

func (f formatT) opt() ref.Options {
	o := ref.Options{CRC: f.crc, V2: f.v2, Four: f.four, Ver: 57}
	if f.four {
		o.Ver = 51
	}
	if f.v2 {
		o.Extra = nil
	}
	return o
}

var formats = []formatT{
	{false, false, false}, {true, false, false},
	{false, true, false}, {true, true, false},
	{false, false, true}, {true, false, true},
}

// named gives the columns of a table distinct names.
func named(db, name string, cols ...ref.Col) *ref.Table {
	t := &ref.Table{DB: db, Name: name}
	for i, c := range cols {
		c.Name = fmt.Sprintf("c%d_%s", i, name)
		t.Cols = append(t.Cols, c)
	}
	return t
}

// stream runs a log from its start and compares everything delivered.
func stream(u *run.U, r *e2e.Rig, l *ref.Log) []*gobinlog.Transaction {
	r.Fresh()
	r.ServeLog(l, fm.EndEOF)
	f, o := l.StartPos()
	r.S.SetBinlogPosition(e2e.Pos(f, o))
	a := r.Run(context.Background(), nil)
	if a.Panic != nil {
		u.Fail("panic %v\nlog: %s", a.Panic, l.Describe())
	}
	if a.Err != nil || a.ErrErr != nil {
		u.Fail("Stream: %v, Error(): %v\nlog: %s", a.Err, a.ErrErr, l.Describe())
	}
	want := append([]ref.Tran(nil), l.After(f, o)...)
	if len(want) > 0 && want[0].NowFile == f {
		want[0].NowOff = o
	}
	if err := e2e.CompareAll(a.Trans, want); err != nil {
		u.Fail("%v\nlog: %s", err, l.Describe())
	}
	return a.Trans
}

// outcome runs a log from its start and wants the given transactions followed
// by an error return of Stream (wantErr) or a clean end.
func outcome(u *run.U, r *e2e.Rig, l *ref.Log, want []ref.Tran, wantErr bool) *e2e.Attempt {
	r.ServeLog(l, fm.EndEOF)
	f, o := l.StartPos()
	r.S.SetBinlogPosition(e2e.Pos(f, o))
	a := r.Run(context.Background(), nil)
	if a.Panic != nil {
		u.Fail("panic %v\nlog: %s", a.Panic, l.Describe())
	}
	if wantErr && a.Err == nil {
		u.Fail("Stream returned nil (Error(): %v) after %d transactions, want an error\nlog: %s", a.ErrErr, len(a.Trans), l.Describe())
	}
	if !wantErr && (a.Err != nil || a.ErrErr != nil) {
		u.Fail("Stream: %v, Error(): %v\nlog: %s", a.Err, a.ErrErr, l.Describe())
	}
	want = append([]ref.Tran(nil), want...)
	if len(want) > 0 && want[0].NowFile == f {
		want[0].NowOff = o
	}
	if err := e2e.CompareAll(a.Trans, want); err != nil {
		u.Fail("%v\nlog: %s", err, l.Describe())
	}
	return a
}

func imgs(n int, f func(i int) ref.Image) []ref.Image {
	var out []ref.Image
	for i := 0; i < n; i++ {
		out = append(out, f(i))
	}
	return out
}

// e2eTypeUnits streams tables made of every ordered pair of the chosen column
// kinds (and an unrelated neighbour) through the whole library, with every
// sample value, in every kind of rows event.
func e2eTypeUnits(tier, label string, types []byte, labels []string) []run.Unit {
	var sel []ref.Kind
	for _, k := range ref.Kinds() {
		ok := false
		for _, t := range types {
			ok = ok || k.Col.Type == t && t != ref.TString
		}
		for _, l := range labels {
			ok = ok || k.Label == l
		}
		if ok {
			sel = append(sel, k)
		}
	}
	var us []run.Unit
	for _, k := range sel {
		k := k
		us = append(us, unit(label+" "+k.Label, func(u *run.U) {
			lockTZ(u, tzMu.TryRLock)
			defer tzMu.RUnlock()
			r := e2e.NewRig(7)
			defer r.Close()
			var desc string
			u.Cur(func() string { return desc })
			for pi, p := range sel {
				for fi, f := range formats {
					if tier != "thorough" && (fi+pi)%3 != 0 {
						continue
					}
					desc = fmt.Sprintf("columns (%s, %s, %s), %v", k.Label, p.Label, k.Label, f)
					t := named("d", "t", k.Col, p.Col, k.Col)
					n := len(k.Cells)
					if len(p.Cells) > n {
						n = len(p.Cells)
					}
					row := func(i int) ref.Image {
						return ref.Image{k.Cells[i%len(k.Cells)], p.Cells[i%len(p.Cells)], k.Cells[(i+1)%len(k.Cells)]}
					}
					null := ref.Image{{Null: true}, p.Cells[0], k.Cells[0]}
					null2 := ref.Image{k.Cells[0], {Null: true}, k.Cells[len(k.Cells)-1]}
					without := func(c int) func(i int) ref.Image {
						return func(i int) ref.Image {
							im := row(i)
							im[c] = ref.Cell{Absent: true}
							return im
						}
					}
					l := ref.NewLog(f.opt())
					l.Begin("BEGIN")
					l.TableMap(9, t)
					l.Rows(ref.Write, 9, nil, append(imgs(n, row), null, null2), false)
					l.Rows(ref.Delete, 9, append(imgs(n, row), null2, null), nil, true)
					l.XID()
					l.Begin("BEGIN")
					l.TableMap(9, t)
					l.Rows(ref.Update, 9, append(imgs(n, row), null), append([]ref.Image{null2}, imgs(n, row)...), true)
					l.Rows(ref.Update, 9, imgs(n, without(0)), imgs(n, without(1)), true)
					l.Rows(ref.Update, 9, imgs(n, without(1)), imgs(n, without(0)), true)
					l.Rows(ref.Write, 9, nil, imgs(n, without(1)), true)
					l.Rows(ref.Delete, 9, imgs(n, without(1)), nil, true)
					l.XID()
					r.Mapper.Set(t)
					stream(u, r, l)
					u.Eval(1)
					u.Trace(1)
					u.Extra("cells decoded end to end", int64(9*n*3+24))
					u.Sample("%s: %s", desc, l.Describe())
				}
			}
		}))
	}
	return us
}

// nullUnits streams every combination of value, empty value, NULL and absent
// over the columns of a table, in every kind of rows event.
func nullUnits(tier string) []run.Unit {
	ks := map[string]ref.Kind{}
	for _, k := range ref.Kinds() {
		ks[k.Label] = k
	}
	pick := [][]string{{"varchar(10)", "varchar(300)", "blob2"}, {"char(10)", "char(512)", "blob4"}, {"blob1", "geometry", "json"}, {"tiny", "varchar(255)", "blob3"}, {"varstring(256)", "decimal(10,0)", "char(255)"}, {"tinyblob", "timestamp2(3)", "varchar(1)"}}
	// states of a cell: value, empty or second value, NULL, absent
	state := func(k ref.Kind, s int) ref.Cell {
		switch s {
		case 0:
			return k.Cells[0]
		case 1:
			return k.Cells[1%len(k.Cells)]
		case 2:
			return ref.Cell{Null: true}
		}
		return ref.Cell{Absent: true}
	}
	var us []run.Unit
	for _, names := range pick {
		names := names
		us = append(us, split(fmt.Sprintf("NULL/empty/absent %v", names), 4, func(u *run.U, part, parts int) {
			var cols []ref.Col
			var kk []ref.Kind
			for _, n := range names {
				k, ok := ks[n]
				if !ok {
					panic("no kind " + n)
				}
				kk = append(kk, k)
				cols = append(cols, k.Col)
			}
			t := named("d", "n", cols...)
			r := e2e.NewRig(3, t)
			defer r.Close()
			var desc string
			u.Cur(func() string { return desc })
			img := func(v int) ref.Image {
				var im ref.Image
				for _, k := range kk {
					im = append(im, state(k, v&3))
					v >>= 2
				}
				return im
			}
			absent := func(v int) int {
				m := 0
				for i := 0; i < 3; i++ {
					if v>>(2*i)&3 == 3 {
						m |= 1 << i
					}
				}
				return m
			}
			for b := part; b < 64; b += parts {
				for _, f := range formats {
					if tier != "thorough" && f.four {
						continue
					}
					desc = fmt.Sprintf("before/only image %03o (base 4), %v", b, f)
					l := ref.NewLog(f.opt())
					l.Begin("BEGIN")
					l.TableMap(5, t)
					if absent(b) != 7 {
						// one and two rows with the same presence
						l.Rows(ref.Write, 5, nil, []ref.Image{img(b)}, true)
						l.Rows(ref.Delete, 5, []ref.Image{img(b)}, nil, true)
						n := int64(2)
						for o := 0; o < 64; o++ {
							if absent(o) == absent(b) {
								l.Rows(ref.Write, 5, nil, []ref.Image{img(b), img(o)}, true)
								l.Rows(ref.Delete, 5, []ref.Image{img(o), img(b), img(o)}, nil, true)
								n += 2
							}
						}
						u.Eval(n)
					}
					// every after image
					n := int64(0)
					for a := 0; a < 64; a++ {
						if absent(a) == 7 && absent(b) == 7 {
							continue
						}
						l.Rows(ref.Update, 5, []ref.Image{img(b)}, []ref.Image{img(a)}, true)
						n++
					}
					u.Eval(n)
					l.XID()
					stream(u, r, l)
					u.Trace(1)
				}
				u.Sample("%s", desc)
			}
		})...)
	}
	return us
}
