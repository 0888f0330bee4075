package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"unicode/utf8"

	"github.com/Breeze0806/gobinlog"

	"verif/e2e"
	"verif/fm"
	"verif/ref"
	"verif/run"
)

// the names of the column types, as the library documents them
var typeNames = map[byte]string{0: "Decimal", 1: "Tiny", 2: "Short", 3: "Long", 4: "Float", 5: "Double", 6: "Null", 7: "Timestamp", 8: "LongLong", 9: "Int24",
	10: "Date", 11: "Time", 12: "DateTime", 13: "Year", 14: "NewDate", 15: "Varchar", 16: "Bit", 17: "Timestamp2", 18: "DateTime2", 19: "Time2",
	245: "JSON", 246: "NewDecimal", 247: "Enum", 248: "Set", 249: "TinyBlob", 250: "MediumBlob", 251: "LongBlob", 252: "Blob", 253: "VarString", 254: "String", 255: "Geometry"}

var stmtNames = map[gobinlog.StatementType]string{
	gobinlog.StatementInsert: "insert", gobinlog.StatementUpdate: "update", gobinlog.StatementDelete: "delete",
	gobinlog.StatementCreate: "create", gobinlog.StatementAlter: "alter", gobinlog.StatementDrop: "drop",
	gobinlog.StatementTruncate: "truncate", gobinlog.StatementRename: "rename", gobinlog.StatementSet: "set",
}

type obj = map[string]interface{}

func strOf(v interface{}, want string, what string) error {
	s, ok := v.(string)
	if !ok {
		return fmt.Errorf("%s is %T, want the string %q", what, v, want)
	}
	if utf8.ValidString(want) && s != want {
		return fmt.Errorf("%s is %q, want %q", what, s, want)
	}
	return nil
}

func posOf(v interface{}, p gobinlog.Position, what string) error {
	o, ok := v.(obj)
	if !ok {
		return fmt.Errorf("%s is %T", what, v)
	}
	if err := strOf(o["filename"], p.Filename, what+" filename"); err != nil {
		return err
	}
	n, ok := o["offset"].(json.Number)
	if !ok || n.String() != fmt.Sprint(p.Offset) {
		return fmt.Errorf("%s offset is %v, want %d", what, o["offset"], p.Offset)
	}
	return nil
}

func list(v interface{}, what string) ([]interface{}, error) {
	if v == nil {
		return nil, nil
	}
	l, ok := v.([]interface{})
	if !ok {
		return nil, fmt.Errorf("%s is %T, want an array", what, v)
	}
	return l, nil
}

func rowsOf(v interface{}, rows []*gobinlog.RowData, what string) error {
	l, err := list(v, what)
	if err != nil {
		return err
	}
	if len(l) != len(rows) {
		return fmt.Errorf("%s has %d rows, want %d", what, len(l), len(rows))
	}
	for i, r := range rows {
		o, ok := l[i].(obj)
		if !ok {
			return fmt.Errorf("%s row %d is %T", what, i, l[i])
		}
		cs, err := list(o["Columns"], what+" columns")
		if err != nil {
			return err
		}
		if len(cs) != len(r.Columns) {
			return fmt.Errorf("%s row %d has %d columns, want %d", what, i, len(cs), len(r.Columns))
		}
		for j, c := range r.Columns {
			w := fmt.Sprintf("%s row %d column %d", what, i, j)
			co, ok := cs[j].(obj)
			if !ok {
				return fmt.Errorf("%s is %T", w, cs[j])
			}
			if err := strOf(co["filed"], c.Filed, w+" name"); err != nil {
				return err
			}
			if n, ok := typeNames[byte(c.Type)]; ok && int(c.Type) == int(byte(c.Type)) {
				if err := strOf(co["type"], n, w+" type"); err != nil {
					return err
				}
			} else if _, ok := co["type"].(string); !ok {
				return fmt.Errorf("%s type is %T", w, co["type"])
			}
			if b, ok := co["isEmpty"].(bool); !ok || b != c.IsEmpty {
				return fmt.Errorf("%s isEmpty is %v, want %v", w, co["isEmpty"], c.IsEmpty)
			}
			d, has := co["data"]
			switch {
			case !has:
				return fmt.Errorf("%s has no data", w)
			case c.Data == nil && d != nil:
				return fmt.Errorf("%s: NULL is rendered as %v", w, d)
			case c.Data != nil && d == nil:
				return fmt.Errorf("%s: %q is rendered as null", w, clip(c.Data))
			case c.Data != nil:
				if err := strOf(d, string(c.Data), w+" data"); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// checkJSON serialises a transaction and compares the JSON with it.
func checkJSON(t *gobinlog.Transaction) error {
	before := snapshot(t)
	b, err := json.Marshal(t)
	if err != nil {
		return fmt.Errorf("serialising fails: %v", err)
	}
	if snapshot(t) != before {
		return errors.New("serialising changed the transaction")
	}
	if !json.Valid(b) || !utf8.Valid(b) {
		return fmt.Errorf("malformed JSON: %q", clip(b))
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var v obj
	if err := dec.Decode(&v); err != nil {
		return fmt.Errorf("malformed JSON: %v", err)
	}
	if err := posOf(v["nowPosition"], t.NowPosition, "nowPosition"); err != nil {
		return err
	}
	if err := posOf(v["nextPosition"], t.NextPosition, "nextPosition"); err != nil {
		return err
	}
	evs, err := list(v["events"], "events")
	if err != nil {
		return err
	}
	if len(evs) != len(t.Events) {
		return fmt.Errorf("%d events, want %d", len(evs), len(t.Events))
	}
	for i, e := range t.Events {
		w := fmt.Sprintf("event %d", i)
		o, ok := evs[i].(obj)
		if !ok {
			return fmt.Errorf("%s is %T", w, evs[i])
		}
		if err := strOf(o["type"], stmtNames[e.Type], w+" type"); err != nil {
			return err
		}
		n, ok := o["name"].(obj)
		if !ok {
			return fmt.Errorf("%s name is %T", w, o["name"])
		}
		if err := strOf(n["db"], e.Table.DbName, w+" database"); err != nil {
			return err
		}
		if err := strOf(n["table"], e.Table.TableName, w+" table"); err != nil {
			return err
		}
		if e.Query.SQL != "" {
			if err := strOf(o["sql"], e.Query.SQL, w+" sql"); err != nil {
				return err
			}
			continue
		}
		if s, ok := o["sql"]; ok && s != nil && s != "" {
			return fmt.Errorf("%s has SQL %v", w, s)
		}
		if err := rowsOf(o["rowValues"], e.RowValues, w+" rowValues"); err != nil {
			return err
		}
		if err := rowsOf(o["rowIdentifies"], e.RowIdentifies, w+" rowIdentifies"); err != nil {
			return err
		}
	}
	// the same through an encoder and inside another value
	var x bytes.Buffer
	if err := json.NewEncoder(&x).Encode([]interface{}{t, t}); err != nil {
		return fmt.Errorf("serialising within a list fails: %v", err)
	}
	if w := append(append(append([]byte("["), b...), ','), append(b, "]\n"...)...); !bytes.Equal(x.Bytes(), w) {
		return errors.New("serialising within a list gives another text")
	}
	return nil
}

// jsonOracle serialises every transaction of a history, when delivered and
// after the end.
func jsonOracle(u *run.U, r *e2e.Rig, c *hctx, _ formatT) { jsonLog(u, r, c.l) }

func jsonLog(u *run.U, r *e2e.Rig, l *ref.Log) {
	r.Fresh()
	r.ServeLog(l, fm.EndEOF)
	f, o := l.StartPos()
	r.S.SetBinlogPosition(e2e.Pos(f, o))
	a := r.Run(context.Background(), nil)
	if a.Panic != nil || a.Err != nil || a.ErrErr != nil {
		u.Fail("panic %v, Stream: %v, Error(): %v\nlog: %s", a.Panic, a.Err, a.ErrErr, l.Describe())
	}
	want := append([]ref.Tran(nil), l.Trans...)
	if len(want) > 0 && want[0].NowFile == f {
		want[0].NowOff = o
	}
	if err := e2e.CompareAll(a.Trans, want); err != nil {
		u.Fail("%v\nlog: %s", err, l.Describe())
	}
	for i, t := range a.Trans {
		if err := checkJSON(t); err != nil {
			u.Fail("transaction %d: %v\nlog: %s", i, err, l.Describe())
		}
		u.Extra("transactions serialised", 1)
	}
}

func c20Units(tier string) []run.Unit {
	th := tier == "thorough"
	var us []run.Unit
	us = append(us, histUnits(tier, "serialised", []hop{opBegin, opXID, opRoll, opInsA3, opUpdA, opUpdB, opDelB, opInsZ, opMulti, opCreate, opAlter, opDrop, opTrunc, opRename, opSet, opInsS, opUpdS, opDelS, opRotate}, 3, 4, jsonOracle)...)
	kinds := ref.Kinds()
	for i := range kinds {
		i := i
		us = append(us, unit("every kind of value: "+kinds[i].Label, func(u *run.U) {
			lockTZ(u, tzMu.TryRLock)
			defer tzMu.RUnlock()
			r := e2e.NewRig(4)
			defer r.Close()
			k := kinds[i]
			var desc string
			u.Cur(func() string { return desc })
			for j, p := range kinds {
				if !th && (i+j)%4 != 0 {
					continue
				}
				f := formats[(i+j)%len(formats)]
				desc = fmt.Sprintf("(%s, %s, %s), %v", k.Label, p.Label, k.Label, f)
				t := named("d", "t", k.Col, p.Col, k.Col)
				r.Mapper.Set(t)
				n := len(k.Cells)
				row := func(i int) ref.Image {
					return ref.Image{k.Cells[i%n], p.Cells[i%len(p.Cells)], k.Cells[(i+1)%n]}
				}
				null := ref.Image{{Null: true}, p.Cells[0], {Null: true}}
				part := ref.Image{k.Cells[0], {Absent: true}, k.Cells[n-1]}
				part2 := ref.Image{{Absent: true}, {Null: true}, {Absent: true}}
				l := ref.NewLog(f.opt())
				l.Begin("BEGIN")
				l.TableMap(3, t)
				l.Rows(ref.Write, 3, nil, append(imgs(n, row), null), true)
				l.Rows(ref.Update, 3, append(imgs(n, row), null), append([]ref.Image{null}, imgs(n, row)...), true)
				l.Rows(ref.Update, 3, []ref.Image{part}, []ref.Image{part2}, true)
				l.Rows(ref.Delete, 3, imgs(n, row), nil, true)
				l.XID()
				jsonLog(u, r, l)
				u.Eval(1)
				u.Trace(1)
			}
			u.Sample("%s", desc)
		}))
	}
	// text: every code point, every pair of bytes, in data, SQL and names
	var texts func(f func(s string))
	texts = func(f func(s string)) {
		for b := 0; b < 256; b++ {
			f(string([]byte{byte(b)}))
			f("a" + string([]byte{byte(b)}) + "b")
		}
		for c := rune(0); c <= utf8.MaxRune; c++ {
			if !th && c > 0x3000 && c%61 != 0 && c&0xff < 0xfe {
				continue
			}
			if utf8.ValidRune(c) {
				f(string(c))
			}
		}
	}
	us = append(us, split("data, every code point", 8, func(u *run.U, part, parts int) {
		var cur string
		u.Cur(func() string { return fmt.Sprintf("%q", cur) })
		n := 0
		texts(func(s string) {
			if n++; n%parts != part {
				return
			}
			cur = s
			t := &gobinlog.Transaction{NowPosition: e2e.Pos("f", 4), NextPosition: e2e.Pos("f", 5), Events: []*gobinlog.StreamEvent{
				{Type: gobinlog.StatementInsert, Table: gobinlog.NewMysqlTableName("d", "t"), RowValues: []*gobinlog.RowData{{Columns: []*gobinlog.ColumnData{
					{Filed: "a", Type: 15, Data: []byte(s)}, {Filed: "b", Type: 252, Data: []byte(s + s)}, {Filed: "c", Type: 15}, {Filed: "d", Type: 15, Data: []byte{}}, {Filed: "e", Type: 15, IsEmpty: true}}}}},
			}}
			if err := checkJSON(t); err != nil {
				u.Fail("%v", err)
			}
			u.Eval(1)
		})
		u.Sample("%q", cur)
	})...)
	us = append(us, split("data, every pair and triple of bytes", 8, func(u *run.U, part, parts int) {
		var cur []byte
		u.Cur(func() string { return fmt.Sprintf("%q", cur) })
		col := &gobinlog.ColumnData{Filed: "a", Type: 15}
		t := &gobinlog.Transaction{Events: []*gobinlog.StreamEvent{
			{Type: gobinlog.StatementDelete, Table: gobinlog.NewMysqlTableName("d", "t"), RowIdentifies: []*gobinlog.RowData{{Columns: []*gobinlog.ColumnData{col}}}},
		}}
		third := []int{-1, 0, '"', '\\', 'u', 'a', 0x80, 0xbf, 0xa8, 0xff}
		if !th {
			third = []int{-1, '"', 0x80}
		}
		for a := part; a < 256; a += parts {
			for b := 0; b < 256; b++ {
				for _, c := range third {
					cur = []byte{byte(a), byte(b)}
					if c >= 0 {
						cur = append(cur, byte(c))
					}
					col.Data = cur
					if err := checkJSON(t); err != nil {
						u.Fail("%v", err)
					}
					u.Eval(1)
				}
			}
		}
		u.Sample("%q", cur)
	})...)
	us = append(us, split("names, SQL and file names of every code point", 4, func(u *run.U, part, parts int) {
		var cur string
		u.Cur(func() string { return fmt.Sprintf("%q", cur) })
		n := 0
		texts(func(s string) {
			if n++; n%parts != part || len(s) > 0 && []rune(s)[0] > 0x3000 && n%16 != part {
				return
			}
			cur = s
			t := &gobinlog.Transaction{NowPosition: e2e.Pos("f"+s, int64(n)), NextPosition: e2e.Pos(s, int64(n)<<12), Timestamp: int64(n), Events: []*gobinlog.StreamEvent{
				{Type: gobinlog.StatementInsert, Table: gobinlog.NewMysqlTableName(s, "t"+s), RowValues: []*gobinlog.RowData{{Columns: []*gobinlog.ColumnData{{Filed: s, Type: 3, Data: []byte("1")}}}}},
				{Type: gobinlog.StatementCreate},
			}}
			t.Events[1].Query.SQL = "create table " + s
			t.Events[1].Query.Database = s
			if s != "" {
				// a statement that is nothing else, or starts or ends with it
				for i, q := range []string{s, s + "create table t", "create table t" + s} {
					e := &gobinlog.StreamEvent{Type: gobinlog.StatementCreate, Timestamp: int64(i)}
					e.Query.SQL = q
					t.Events = append(t.Events, e)
				}
			}
			if err := checkJSON(t); err != nil {
				u.Fail("%v", err)
			}
			u.Eval(1)
		})
		u.Sample("%q", cur)
	})...)
	// data of every column type that looks like something else than a string
	us = append(us, unit("texts that are JSON, numbers or expressions, in every column type", func(u *run.U) {
		var cur string
		u.Cur(func() string { return cur })
		texts := []string{"[1]", "[]", "{}", "{\"a\":1}", "{\"a\": [1, 2, {\"b\": null}]}", "null", "NULL", "Null", "true", "false", "0", "-0", "1", "-1", "007", "1.50", "-1.5", "0.10", "1e5", "1E+400", "9007199254740993",
			"18446744073709551615", "-9223372036854775808", "12345678901234567890123456789012345678901234567890.123", "\"\"", "\"x\"", "\"null\"", "'x'", "''", " ", " 1", "1 ", " null", "\n", "\"", "\\", "\\u0041", "\\n", "&lt;", "<b>&amp;</b>",
			"JSON_OBJECT('a',1)", "JSON_ARRAY(1,'b')", "CAST('1' AS JSON)", "0000-00-00", "2021-05-13 01:02:03.000000", "-838:59:59", "0x00", "NaN", "Infinity", "+Inf", "e30=", "dHJ1ZQ==", "base64:", "[1", "{\"a\":}", "]", "undefined", "\u2028\u2029", "\ufeff[1]", "\u0085", "\x7f"}
		for ty := 0; ty < 256; ty++ {
			for i, s := range texts {
				cur = fmt.Sprintf("type %d, %q", ty, s)
				cols := []*gobinlog.ColumnData{
					{Filed: "a", Type: gobinlog.ColumnType(ty), Data: []byte(s)},
					{Filed: s, Type: gobinlog.ColumnType(ty), Data: []byte(texts[(i+ty)%len(texts)])},
					{Filed: "c", Type: gobinlog.ColumnType(ty)},
					{Filed: "d", Type: gobinlog.ColumnType(ty), Data: []byte{}},
					{Filed: "e", Type: gobinlog.ColumnType(ty), IsEmpty: true},
				}
				rows := []*gobinlog.RowData{{Columns: cols}, {Columns: cols[:1]}}
				t := &gobinlog.Transaction{NowPosition: e2e.Pos(s, 4), NextPosition: e2e.Pos(s, 5), Events: []*gobinlog.StreamEvent{
					{Type: gobinlog.StatementUpdate, Table: gobinlog.NewMysqlTableName(s, s), RowValues: rows, RowIdentifies: rows},
					{Type: gobinlog.StatementInsert, Table: gobinlog.NewMysqlTableName("d", s), RowValues: rows},
					{Type: gobinlog.StatementDelete, Table: gobinlog.NewMysqlTableName(s, "t"), RowIdentifies: rows},
					{Type: gobinlog.StatementSet},
				}}
				t.Events[3].Query.SQL = s
				if err := checkJSON(t); err != nil {
					u.Fail("%v", err)
				}
				u.Eval(1)
			}
		}
		u.Sample("%s", cur)
	}))
	us = append(us, unit("long texts", func(u *run.U) {
		var cur string
		u.Cur(func() string { return cur })
		for _, n := range []int{1023, 1024, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 1 << 20, 16<<20 + 3} {
			for _, ty := range []gobinlog.ColumnType{252, 245, 15, 254, 16, 255} {
				if n > 1<<20 && ty != 252 {
					continue
				}
				cur = fmt.Sprintf("type %d, %d bytes", ty, n)
				d := bytes.Repeat([]byte("a\"\u00fc"), n/4+1)[:n]
				for len(d) > 0 && !utf8.Valid(d) {
					d[len(d)-1] = '.'
				}
				rows := []*gobinlog.RowData{{Columns: []*gobinlog.ColumnData{{Filed: "a", Type: ty, Data: d}}}}
				t := &gobinlog.Transaction{Events: []*gobinlog.StreamEvent{{Type: gobinlog.StatementInsert, RowValues: rows}, {Type: gobinlog.StatementCreate}}}
				if n < 1<<20 {
					t.Events[1].Query.SQL = string(d)
				} else {
					t.Events = t.Events[:1]
				}
				if err := checkJSON(t); err != nil {
					u.Fail("%v", err)
				}
				u.Eval(1)
			}
		}
		u.Sample("%s", cur)
	}))
	us = append(us, unit("names of types and statements, offsets, timestamps", func(u *run.U) {
		var cur string
		u.Cur(func() string { return cur })
		for ty := 0; ty < 256; ty++ {
			for st, name := range stmtNames {
				cur = fmt.Sprintf("type %d in %s", ty, name)
				rows := []*gobinlog.RowData{{Columns: []*gobinlog.ColumnData{{Filed: "x", Type: gobinlog.ColumnType(ty), Data: []byte("v")}}}}
				t := &gobinlog.Transaction{Events: []*gobinlog.StreamEvent{{Type: st, RowValues: rows, RowIdentifies: rows}}}
				if err := checkJSON(t); err != nil {
					u.Fail("%v", err)
				}
				u.Eval(1)
			}
		}
		for _, v := range bitsOf(63) {
			cur = fmt.Sprintf("offset %d", v)
			t := &gobinlog.Transaction{NowPosition: e2e.Pos("a", int64(v)), NextPosition: e2e.Pos("b", int64(v/2)), Timestamp: int64(uint32(v))}
			if err := checkJSON(t); err != nil {
				u.Fail("%v", err)
			}
			u.Eval(1)
		}
		for n := 0; n <= 40; n++ {
			for m := 0; m <= 12; m++ {
				cur = fmt.Sprintf("%d rows of %d columns", n, m)
				var rows []*gobinlog.RowData
				for i := 0; i < n; i++ {
					rd := &gobinlog.RowData{}
					for j := 0; j < m; j++ {
						c := &gobinlog.ColumnData{Filed: fmt.Sprint(i, j), Type: 3, Data: []byte(fmt.Sprint(i * j))}
						switch (i + j) % 4 {
						case 1:
							c.Data = nil
						case 2:
							c.Data = []byte{}
						case 3:
							c.Data, c.IsEmpty = nil, true
						}
						rd.Columns = append(rd.Columns, c)
					}
					rows = append(rows, rd)
				}
				t := &gobinlog.Transaction{Events: []*gobinlog.StreamEvent{{Type: gobinlog.StatementUpdate, RowValues: rows, RowIdentifies: rows}, {Type: gobinlog.StatementInsert, RowValues: rows}, {Type: gobinlog.StatementDelete, RowIdentifies: rows}}}
				if err := checkJSON(t); err != nil {
					u.Fail("%v", err)
				}
				u.Eval(1)
			}
		}
		u.Sample("%s", cur)
	}))
	us = append(us, scaleUnits(th, 10001, nil, func(u *run.U, r *e2e.Rig, l *ref.Log, n int, desc string) { jsonLog(u, r, l) })...)
	return us
}
