package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/Breeze0806/gobinlog"

	"verif/e2e"
	"verif/fm"
	"verif/ref"
	"verif/run"
)

// resumeOracle streams from the start, then from the end label of every
// delivered transaction on a new streamer: exactly the rest must come, with
// the same contents and labels, and the dump must ask for that very label.
func resumeOracle(u *run.U, r *e2e.Rig, c *hctx, _ formatT) {
	f, o := c.l.StartPos()
	resumes(u, r, c.l, f, o)
}

func resumes(u *run.U, r *e2e.Rig, l *ref.Log, file string, off int64) {
	want := append([]ref.Tran(nil), l.After(file, off)...)
	if len(want) > 0 && want[0].NowFile == file {
		want[0].NowOff = off
	}
	a := from(u, r, l, file, off, want)
	for i, t := range a.Trans {
		from(u, r, l, t.NextPosition.Filename, t.NextPosition.Offset, want[i+1:])
		u.Extra("resumes from a delivered label", 1)
	}
}

func from(u *run.U, r *e2e.Rig, l *ref.Log, file string, off int64, want []ref.Tran) *e2e.Attempt {
	a := deliveries(u, r, l, file, off)
	d := a.Dump()
	if len(d) != 1 || d[0].File != file || int64(d[0].Pos) != off {
		u.Fail("dump requests %+v, want one at %s:%d\nlog: %s", d, file, off, l.Describe())
	}
	if err := e2e.CompareAll(a.Trans, want); err != nil {
		u.Fail("resuming at %s:%d: %v\nlog: %s", file, off, err, l.Describe())
	}
	// the labels chain
	pf, po := file, off
	for i, t := range a.Trans {
		n := t.NowPosition
		if !(n.Filename == pf && n.Offset == po || n.Offset == 4 && n.Filename != pf) {
			u.Fail("resuming at %s:%d: transaction %d starts at %v, the one before ends at %s:%d\nlog: %s", file, off, i, n, pf, po, l.Describe())
		}
		pf, po = t.NextPosition.Filename, t.NextPosition.Offset
	}
	return a
}

func c03Alphabet() []hop {
	return []hop{opBegin, opXID, opCommit, opRoll, opInsA, opUpdB, opCreate, opInsS, opGTID, opBeat, opUnknown, opUnkStmt, opRotate, opRestart, opCrash}
}

func c03Units(tier string) []run.Unit {
	th := tier == "thorough"
	us := histUnits(tier, "resume", c03Alphabet(), 5, 6, resumeOracle)
	us = append(us, histUnits(tier, "labels", []hop{opBegin, opXID, opRoll, opInsA, opDrop, opRotate, opCrash, opBeat}, 7, 8, resumeOracle)...)
	// offsets near the limits of what signed and unsigned fields hold
	us = append(us, split("large offsets", 8, func(u *run.U, part, parts int) {
		r := e2e.NewRig(5, hT.a, hT.b, hT.z)
		defer r.Close()
		var desc string
		u.Cur(func() string { return desc })
		ops := []hop{opBegin, opInsA, opXID, opCreate, opBegin, opDelB, opCommit, opBegin, opInsB, opRoll, opRotate, opInsA, opCrash, opCreate}
		var seq []int
		for i := range ops {
			seq = append(seq, i)
		}
		var bases []uint64
		for _, b := range []uint64{1 << 8, 1 << 15, 1 << 16, 1 << 24, 1 << 31, 1 << 32} {
			for d := int64(-1500); d <= 60; d++ {
				if x := int64(b) + d; x > 130 && (b < 1<<32 || d < -1400) && (th || d%7 == 0) {
					bases = append(bases, uint64(x))
				}
			}
		}
		for i, b := range bases {
			if i%parts != part {
				continue
			}
			for fi, f := range formats {
				if !th && (i+fi)%3 != 0 {
					continue
				}
				desc = fmt.Sprintf("first event at %d, %v", b, f)
				o := f.opt()
				o.Base = b
				o.Names = (i + fi) % 3
				c, ok := writeHist(ops, seq, f, o)
				if !ok {
					panic("history")
				}
				resumeOracle(u, r, c, f)
				u.Eval(1)
				u.Trace(1)
				u.Trans(int64(len(ops)))
				u.State(run.Hash(desc))
			}
		}
		u.Sample("%s", desc)
	})...)
	us = append(us, unit("file names of every length, starts at every boundary", func(u *run.U) {
		var desc string
		u.Cur(func() string { return desc })
		r := e2e.NewRig(5, hT.a, hT.b, hT.z)
		defer r.Close()
		for n := 1; n <= 255; n++ {
			f := formats[n%len(formats)]
			o := f.opt()
			name := func(k int) string {
				s := fmt.Sprintf("%d", k)
				if len(s) >= n {
					return string([]byte{byte('a' + k)}) + strings.Repeat("x", n-1)
				}
				return strings.Repeat("b", n-len(s)) + s
			}
			o.File = name(0)
			desc = fmt.Sprintf("file names of %d bytes, %v", n, f)
			l := ref.NewLog(o)
			for k := 1; k <= 3; k++ {
				l.Begin("BEGIN")
				l.TableMap(1, hT.a)
				l.Rows(ref.Write, 1, nil, hT.rowA[:1], true)
				l.XID()
				l.Statement("create", "d", "create table t(a int)")
				l.Rotate(name(k))
			}
			l.Statement("drop", "d", "drop table t")
			// from every boundary between transactions, and from 4
			for _, fl := range l.Files {
				resumes(u, r, l, fl.Name, 4)
				resumes(u, r, l, fl.Name, int64(fl.FDEEnd))
				u.Eval(2)
				u.Trace(2)
			}
		}
		u.Sample("%s", desc)
	}))
	// one streamer used again and again: stops after k transactions, goes on
	us = append(us, split("the same streamer continues", 4, func(u *run.U, part, parts int) {
		r := e2e.NewRig(5, hT.a, hT.b, hT.z)
		defer r.Close()
		var desc string
		u.Cur(func() string { return desc })
		ops := []hop{opBegin, opInsA, opXID, opCreate, opBegin, opDelB, opCommit, opRotate, opBegin, opInsB, opRoll, opRestart, opInsA, opCrash, opCreate}
		var seq []int
		for i := range ops {
			seq = append(seq, i)
		}
		for fi, f := range formats {
			o := f.opt()
			o.Names = (fi + 1) % 3
			c, ok := writeHist(ops, seq, f, o)
			if !ok {
				panic("history")
			}
			ps := mustServe(c.l)
			for i := 0; i <= len(ps); i++ {
				for j := 0; j <= len(ps); j++ {
					if (i+j+fi)%parts != part {
						continue
					}
					desc = fmt.Sprintf("the master ends the stream after %d, then after %d packets, %v", i, j, f)
					s := newStory(u, r, c.l)
					cut := func(n int) func(ps []ref.Packet) *fm.Script {
						return func(ps []ref.Packet) *fm.Script {
							if n < len(ps) {
								ps = ps[:n]
							}
							return e2e.ScriptOf(ps, fm.EndEOF)
						}
					}
					for _, n := range []int{i, j} {
						a := s.attempt(fmt.Sprintf("EOF after %d", n), context.Background(), cut(n), func(int, *gobinlog.Transaction) error { return nil })
						if a.Err != nil || a.ErrErr != nil {
							s.fail("Stream: %v, Error(): %v", a.Err, a.ErrErr)
						}
					}
					s.finish()
					u.Eval(1)
					u.Trace(1)
				}
			}
		}
		u.Sample("%s", desc)
	})...)
	us = append(us, scaleResume(th)...)
	us = append(us, headUnits(th)...)
	return us
}
