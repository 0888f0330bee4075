package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/Breeze0806/gobinlog"

	"verif/e2e"
	"verif/fm"
	"verif/ref"
	"verif/run"
)

// Tables of the histories. A has a bit of everything that matters for
// attribution, B is the table of partial images, Z has the awkward values.
type histTables struct {
	a, b, z *ref.Table
	rowA    []ref.Image
	rowB    []ref.Image
	rowZ    []ref.Image
	fullB   []ref.Image
}

func newHistTables() *histTables {
	k := map[string]ref.Kind{}
	for _, x := range ref.Kinds() {
		k[x.Label] = x
	}
	tab := func(db, name string, labels ...string) (*ref.Table, func(i int) ref.Image) {
		var cols []ref.Col
		for _, l := range labels {
			x, ok := k[l]
			if !ok {
				panic(l)
			}
			cols = append(cols, x.Col)
		}
		t := named(db, name, cols...)
		return t, func(i int) ref.Image {
			var im ref.Image
			for c, l := range labels {
				cs := k[l].Cells
				im = append(im, cs[(i+c)%len(cs)])
			}
			return im
		}
	}
	h := &histTables{}
	var ra, rb, rz func(i int) ref.Image
	h.a, ra = tab("d", "a", "long", "varchar(10)", "tiny unsigned", "decimal(4,2)")
	h.b, rb = tab("e", "b", "short unsigned", "blob2", "longlong", "char(10)", "datetime2(3)")
	h.z, rz = tab("d", "z", "timestamp", "timestamp2(3)", "json", "time2(0)", "set8", "enum1", "bit9", "float", "varchar(300)")
	h.rowA = imgs(4, ra)
	h.rowA[2][1] = ref.Cell{Null: true}
	h.fullB = imgs(4, rb)
	h.rowB = imgs(4, rb)
	for _, im := range h.rowB {
		im[1], im[4] = ref.Cell{Absent: true}, ref.Cell{Absent: true}
	}
	h.rowB[3][3] = ref.Cell{Null: true}
	h.rowZ = imgs(6, rz)
	return h
}

var hT = newHistTables()

// hctx is the state of a history being written.
type hctx struct {
	l    *ref.Log
	h    *histTables
	f    formatT
	file int
	n    int // operations so far
	id   uint64
	// saw, when set, notes a known deviation the history runs into
	known string
}

// next names the next file.
func (c *hctx) next() string {
	c.file++
	return ref.FileName(c.l.Opt.Names, c.file)
}

// hop is one operation of a history.
type hop struct {
	name string
	ok   func(c *hctx) bool // well-formed here
	do   func(c *hctx)
}

func anywhere(*hctx) bool { return true }
func inTran(c *hctx) bool { return c.l.Open() }
func outside(c *hctx) bool {
	return !c.l.Open()
}

func rows(kind int, t func(h *histTables) *ref.Table, before, after func(h *histTables) []ref.Image) func(c *hctx) {
	return func(c *hctx) {
		tb := t(c.h)
		c.id = uint64(100 + c.n%3)
		c.l.TableMap(c.id, tb)
		var b, a []ref.Image
		if before != nil {
			b = before(c.h)
		}
		if after != nil {
			a = after(c.h)
		}
		c.l.Rows(kind, c.id, b, a, true)
	}
}

func tabA(h *histTables) *ref.Table { return h.a }
func tabB(h *histTables) *ref.Table { return h.b }
func tabZ(h *histTables) *ref.Table { return h.z }

func pick(f func(h *histTables) []ref.Image, lo, hi int) func(h *histTables) []ref.Image {
	return func(h *histTables) []ref.Image { return f(h)[lo:hi] }
}
func rA(h *histTables) []ref.Image { return h.rowA }
func rB(h *histTables) []ref.Image { return h.rowB }
func fB(h *histTables) []ref.Image { return h.fullB }
func rZ(h *histTables) []ref.Image { return h.rowZ }

func vary(c *hctx, ss ...string) string { return ss[c.n%len(ss)] }

// catalogue of operations
var (
	opBegin  = hop{"begin", outside, func(c *hctx) { c.l.Begin(vary(c, "BEGIN", "begin", "Begin", "bEGIN")) }}
	opXID    = hop{"xid", inTran, func(c *hctx) { c.l.XID() }}
	opCommit = hop{"commit", inTran, func(c *hctx) { c.l.Commit(vary(c, "COMMIT", "commit", "Commit", "COMMIT /* x */", "cOmMiT")) }}
	opRoll   = hop{"rollback", inTran, func(c *hctx) { c.l.Rollback(vary(c, "ROLLBACK", "rollback", "Rollback", "rOLLBACK /* done */")) }}
	opInsA   = hop{"ins(a)", anywhere, rows(ref.Write, tabA, nil, pick(rA, 0, 1))}
	opInsA3  = hop{"ins3(a)", anywhere, rows(ref.Write, tabA, nil, pick(rA, 1, 4))}
	opUpdA   = hop{"upd(a)", anywhere, rows(ref.Update, tabA, pick(rA, 0, 2), pick(rA, 1, 3))}
	opDelA   = hop{"del(a)", anywhere, rows(ref.Delete, tabA, pick(rA, 1, 3), nil)}
	opInsB   = hop{"ins(b) partial", anywhere, rows(ref.Write, tabB, nil, pick(rB, 0, 2))}
	opUpdB   = hop{"upd(b) partial", anywhere, rows(ref.Update, tabB, pick(rB, 2, 4), pick(fB, 0, 2))}
	opDelB   = hop{"del(b) partial", anywhere, rows(ref.Delete, tabB, pick(rB, 1, 4), nil)}
	opInsZ   = hop{"ins(z)", anywhere, rows(ref.Write, tabZ, nil, rZ)}
	opCreate = hop{"create", anywhere, func(c *hctx) {
		c.l.Statement("create", "d", vary(c, "CREATE TABLE t(a int)", "create table `x y`(b int)", "Create\nTABLE t(a int)"))
	}}
	opAlter = hop{"alter", anywhere, func(c *hctx) {
		c.l.Statement("alter", "d", vary(c, "ALTER TABLE t ADD c int", "alter\ttable t add c int"))
	}}
	opDrop = hop{"drop", anywhere, func(c *hctx) {
		c.l.Statement("drop", "", vary(c, "DROP TABLE `t` /* generated by server */", "drop table t"))
	}}
	opTrunc  = hop{"truncate", anywhere, func(c *hctx) { c.l.Statement("truncate", "d", vary(c, "TRUNCATE t", "truncate TABLE t", "TrUnCaTe t")) }}
	opRename = hop{"rename", anywhere, func(c *hctx) { c.l.Statement("rename", "d", vary(c, "RENAME TABLE a TO b", "rename\r\ntable a to b")) }}
	opSet    = hop{"set", anywhere, func(c *hctx) { c.l.Statement("set", "d", vary(c, "SET PASSWORD FOR 'u'@'h'='*X'", "set @a=1")) }}
	opInsS   = hop{"insert statement", anywhere, func(c *hctx) {
		c.l.Statement("insert", "d", vary(c, "INSERT INTO t VALUES (1)", "insert into t values ('BEGIN')", "Insert\ninto t values (2)"))
	}}
	opUpdS    = hop{"update statement", anywhere, func(c *hctx) { c.l.Statement("update", "d", vary(c, "UPDATE t SET a=1", "update t set a=2")) }}
	opDelS    = hop{"delete statement", anywhere, func(c *hctx) { c.l.Statement("delete", "d", vary(c, "DELETE FROM t", "delete from t")) }}
	opGTID    = hop{"gtid", outside, func(c *hctx) { c.l.GTID(false) }}
	opAnon    = hop{"anonymous gtid", outside, func(c *hctx) { c.l.GTID(true) }}
	opPrev    = hop{"previous gtids", outside, func(c *hctx) { c.l.PrevGTIDs() }}
	opBeat    = hop{"heartbeat", anywhere, func(c *hctx) { c.l.Heartbeat() }}
	opUnknown = hop{"unknown event", anywhere, func(c *hctx) {
		c.l.Tick()
		t := []byte{ref.EvIgnorable, ref.EvTranContext, ref.EvViewChange, 120, ref.EvUnknown, ref.EvIncident, 255, 41}[c.n%8]
		c.l.Raw(t, 0x80, ref.Pat(c.n*5, 3), fmt.Sprintf("event type %d", t))
	}}
	opUnkStmt = hop{"unknown statement", anywhere, func(c *hctx) {
		c.l.Query("d", vary(c, "SAVEPOINT `sp`", "GRANT SELECT ON a.* TO u", "FLUSH TABLES", "ANALYZE TABLE t", "# dumped", "", "BEGINNING", "COMMITTED x", "XID"))
	}}
	opRotate = hop{"rotate", outside, func(c *hctx) {
		c.l.Rotate(c.next())
	}}
	opRestart = hop{"restart with the other checksum setting", outside, func(c *hctx) {
		o := c.l.Opt
		o.CRC = !o.CRC
		c.l.Raw(ref.EvStop, 0, nil, "stop")
		c.l.RotateTo(c.next(), o)
	}}
	opCrash = hop{"crash of the master", outside, func(c *hctx) {
		o := c.l.Opt
		if c.n%2 == 0 {
			o.CRC = !o.CRC
		}
		c.l.Crash(c.next(), o)
	}}
)

func c16Alphabet() []hop {
	return []hop{opBegin, opXID, opCommit, opInsA, opCreate, opSet, opRotate, opRestart, opCrash, opUnknown, opBeat}
}

// writeHist writes a history; ok is false when it is not well-formed.
func writeHist(ops []hop, seq []int, f formatT, opt ref.Options) (*hctx, bool) {
	c := &hctx{l: ref.NewLog(opt), h: hT, f: f, file: 1}
	for _, x := range seq {
		if !ops[x].ok(c) {
			return nil, false
		}
		ops[x].do(c)
		c.n++
	}
	return c, true
}

func seqName(ops []hop, seq []int) string {
	var s []string
	for _, x := range seq {
		s = append(s, ops[x].name)
	}
	return strings.Join(s, ", ")
}

// oracle judges one history.
type oracle func(u *run.U, r *e2e.Rig, c *hctx, f formatT)

// streamOracle streams the log once and compares everything.
func streamOracle(u *run.U, r *e2e.Rig, c *hctx, f formatT) {
	r.Fresh()
	outcome(u, r, c.l, c.l.Trans, false)
}

// histUnits explores every history of the operations up to the depth: every
// sequence of exactly that many operations is run (a shorter one is a prefix
// of a longer one and checked with it), each in one format by rotation, or in
// every format.
func histUnits(tier, name string, ops []hop, quick, thorough int, or oracle) []run.Unit {
	depth := quick
	if tier == "thorough" {
		depth = thorough
	}
	return histDepth(tier, name, ops, depth, false, or)
}

func histDepth(tier, name string, ops []hop, depth int, everyFormat bool, or oracle) []run.Unit {
	var us []run.Unit
	for i := range ops {
		for j := range ops {
			i, j := i, j
			if c, ok := writeHist(ops, []int{i, j}, formats[0], formats[0].opt()); !ok || c == nil {
				continue
			}
			us = append(us, unit(fmt.Sprintf("%s: histories of %d operations starting %s, %s", name, depth, ops[i].name, ops[j].name), func(u *run.U) {
				r := e2e.NewRig(11, hT.a, hT.b, hT.z)
				defer r.Close()
				seq := []int{i, j}
				var f formatT
				u.Cur(func() string { return fmt.Sprintf("%s (%v)", seqName(ops, seq), f) })
				var rec func(c *hctx)
				k := i*31 + j*7
				rec = func(c *hctx) {
					if len(seq) == depth {
						fs := formats
						if !everyFormat {
							k++
							fs = formats[k%len(formats) : k%len(formats)+1]
						}
						for _, f = range fs {
							o := f.opt()
							o.Names = k / len(formats) % 3
							c, _ := writeHist(ops, seq, f, o)
							or(u, r, c, f)
							u.Eval(1)
							u.Trace(1)
							u.Trans(int64(depth))
							st := ""
							if c.l.Open() {
								st = "open"
							}
							u.State(run.Hash(st, fmt.Sprint(f), fmt.Sprint(len(c.l.Trans)), fmt.Sprint(c.file), c.l.Describe()))
							if k%97 == 0 {
								u.Sample("%s (%v)", seqName(ops, seq), f)
							}
						}
						return
					}
					for x := range ops {
						if !ops[x].ok(c) {
							continue
						}
						seq = append(seq, x)
						d, ok := writeHist(ops, seq, formats[0], formats[0].opt())
						if ok {
							rec(d)
						}
						seq = seq[:len(seq)-1]
					}
				}
				c, _ := writeHist(ops, seq, formats[0], formats[0].opt())
				rec(c)
			}))
		}
	}
	return us
}

// deliveries streams the log from (file, off) on a fresh streamer.
func deliveries(u *run.U, r *e2e.Rig, l *ref.Log, file string, off int64) *e2e.Attempt {
	r.Fresh()
	r.ServeLog(l, fm.EndEOF)
	r.S.SetBinlogPosition(gobinlog.Position{Filename: file, Offset: off})
	a := r.Run(context.Background(), nil)
	if a.Panic != nil {
		u.Fail("from %s:%d: panic %v\nlog: %s", file, off, a.Panic, l.Describe())
	}
	if a.Err != nil || a.ErrErr != nil {
		u.Fail("from %s:%d: Stream: %v, Error(): %v\nlog: %s", file, off, a.Err, a.ErrErr, l.Describe())
	}
	return a
}
