package main

import (
	"bytes"
	"fmt"

	rep "github.com/Breeze0806/gobinlog/replication"

	"verif/ref"
	"verif/run"
)

// cellT decodes single cells with the real decoder, embedded at some offset
// and followed by unrelated bytes or by the end of the row.
type cellT struct {
	u    *run.U
	buf  []byte
	keep []byte
	pre  int
	n    int
	rows map[[3]int]bool // type, metadata, length: those the row splitter was asked for
}

func newCellT(u *run.U) *cellT {
	return &cellT{u: u, buf: make([]byte, 0, 256), rows: map[[3]int]bool{}}
}

func (c *cellT) load(enc []byte) {
	c.n++
	c.pre = c.n % 5
	c.buf = append(c.buf[:0], "\xA5\x5A\xC3\x80\x01"[:c.pre]...)
	c.buf = append(c.buf, enc...)
	if c.n%3 != 0 {
		c.buf = append(c.buf, 0xEE, 0x81, 0x7F, 0xEE, 0x99, 0xEE, 0x00, 0xFF)
	}
	c.buf = c.buf[:len(c.buf):len(c.buf)]
	c.keep = append(c.keep[:0], c.buf...)
}

var splitFormat = rep.BinlogFormat{FormatVersion: 4, ServerVersion: "5.7.30-log", HeaderLength: 19, HeaderSizes: ref.Sizes(57, false)}

// split lets the row splitter cut two rows with the cell, and a byte after it,
// apart.
func (c *cellT) split(typ byte, meta uint16, enc []byte) {
	row := append([]byte{0}, enc...) // NULL bitmap, cell
	row = append(row, 0x81)
	body := []byte{9, 0, 0, 0, 0, 0, 1, 0, 2, 3}
	body = append(append(body, row...), row...)
	e := rep.NewMysql56BinlogEvent(ref.Event(ref.Header{Timestamp: 5, Type: ref.EvWriteV1, ServerID: 1, NextPos: 1000}, body, false))
	rs, err := e.Rows(splitFormat, &rep.TableMap{Database: "d", Name: "t", CanBeNull: rep.NewServerBitmap(2),
		Types: []byte{typ, ref.TTiny}, Metadata: []uint16{meta, 0}})
	if err != nil {
		c.u.Fail("type %d metadata %#x bytes %x: two rows with it: %v", typ, meta, clip(enc), err)
	}
	if len(rs.Rows) != 2 {
		c.u.Fail("type %d metadata %#x bytes %x: two rows with it come out as %d", typ, meta, clip(enc), len(rs.Rows))
	}
	for i := range rs.Rows {
		if !bytes.Equal(rs.Rows[i].Data, row[1:]) {
			c.u.Fail("type %d metadata %#x bytes %x: row %d of two with it is %x", typ, meta, clip(enc), i, clip(rs.Rows[i].Data))
		}
	}
}

// decode runs CellBytes and checks the consumed length and that the row
// image itself was left alone.
func (c *cellT) decode(typ byte, meta uint16, uns bool, enc []byte) []byte {
	c.load(enc)
	got, l, err := rep.CellBytes(c.buf, c.pre, typ, meta, uns)
	if err != nil {
		c.u.Fail("type %d metadata %#x unsigned=%v bytes %x: error %v", typ, meta, uns, clip(enc), err)
	}
	if l != len(enc) {
		c.u.Fail("type %d metadata %#x unsigned=%v bytes %x: consumed %d of %d bytes", typ, meta, uns, clip(enc), l, len(enc))
	}
	if !bytes.Equal(c.buf, c.keep) {
		c.u.Fail("type %d metadata %#x unsigned=%v bytes %x: decoding changed the row image", typ, meta, uns, clip(enc))
	}
	k := [3]int{int(typ), int(meta), l}
	if !c.rows[k] {
		if len(c.rows) > 4096 {
			c.rows = map[[3]int]bool{}
		}
		c.rows[k] = true
		c.split(typ, meta, enc)
	}
	return got
}

// text checks for exact text.
func (c *cellT) text(typ byte, meta uint16, uns bool, enc, want []byte) {
	got := c.decode(typ, meta, uns, enc)
	if got == nil || !bytes.Equal(got, want) {
		c.u.Fail("type %d metadata %#x unsigned=%v bytes %x: got %q (nil=%v) want %q", typ, meta, uns, clip(enc), clip(got), got == nil, clip(want))
	}
}

// cell checks a reference cell.
func (c *cellT) cell(col *ref.Col, x *ref.Cell) {
	got := c.decode(col.Type, ref.MetaValue(col.Type, col.Meta), col.Unsigned, x.Enc)
	if err := ref.CheckCell(x, false, got); err != nil {
		c.u.Fail("type %d metadata %x unsigned=%v bytes %x: %v", col.Type, col.Meta, col.Unsigned, clip(x.Enc), err)
	}
}

func clip(b []byte) []byte {
	if len(b) > 64 {
		return append(append([]byte(nil), b[:64]...), "..."...)
	}
	return b
}

func split(name string, n int, f func(u *run.U, i, n int)) []run.Unit {
	var us []run.Unit
	for i := 0; i < n; i++ {
		i := i
		us = append(us, run.Unit{Name: fmt.Sprintf("%s %d/%d", name, i, n), Run: func(u *run.U) { f(u, i, n) }})
	}
	return us
}

func unit(name string, f func(u *run.U)) run.Unit { return run.Unit{Name: name, Run: f} }
