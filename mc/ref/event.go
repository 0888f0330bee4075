// Package ref is an independent description of what a MySQL master writes:
// it encodes binlog events, rows and column values from semantic values, and
// says what a faithful reader has to report for them. It imports nothing from
// the repository under test.
package ref

import (
	"encoding/binary"
	"hash/crc32"
)

// Event types.
const (
	EvUnknown     = 0
	EvQuery       = 2
	EvStop        = 3
	EvRotate      = 4
	EvIntVar      = 5
	EvRand        = 13
	EvUserVar     = 14
	EvFDE         = 15
	EvXID         = 16
	EvTableMap    = 19
	EvWriteV1     = 23
	EvUpdateV1    = 24
	EvDeleteV1    = 25
	EvIncident    = 26
	EvHeartbeat   = 27
	EvIgnorable   = 28
	EvRowsQuery   = 29
	EvWriteV2     = 30
	EvUpdateV2    = 31
	EvDeleteV2    = 32
	EvGTID        = 33
	EvAnonGTID    = 34
	EvPrevGTIDs   = 35
	EvTranContext = 36
	EvViewChange  = 37
	EvMariaGTID   = 162
	EvMariaList   = 163
)

// Checksum algorithms.
const (
	CksumOff   = 0
	CksumCRC32 = 1
	CksumUndef = 255
)

// Header is a common event header (length is computed).
type Header struct {
	Timestamp uint32
	Type      byte
	ServerID  uint32
	NextPos   uint32
	Flags     uint16
}

// Event encodes an event; with crc a CRC32 trailer is appended.
func Event(h Header, body []byte, crc bool) []byte {
	return EventH(h, body, crc, 19)
}

// EventH is Event with a header of hlen (>= 19) bytes.
func EventH(h Header, body []byte, crc bool, hlen int) []byte {
	n := hlen + len(body)
	if crc {
		n += 4
	}
	b := make([]byte, n)
	binary.LittleEndian.PutUint32(b, h.Timestamp)
	b[4] = h.Type
	binary.LittleEndian.PutUint32(b[5:], h.ServerID)
	binary.LittleEndian.PutUint32(b[9:], uint32(n))
	binary.LittleEndian.PutUint32(b[13:], h.NextPos)
	binary.LittleEndian.PutUint16(b[17:], h.Flags)
	for i := 19; i < hlen; i++ {
		b[i] = byte(0xA0 + i)
	}
	copy(b[hlen:], body)
	if crc {
		binary.LittleEndian.PutUint32(b[n-4:], crc32.ChecksumIEEE(b[:n-4]))
	}
	return b
}

// FDE describes a FORMAT_DESCRIPTION_EVENT body.
type FDE struct {
	BinlogVersion uint16
	Server        string
	Created       uint32
	HeaderLen     byte
	Sizes         []byte
	Alg           byte
}

// Body is the encoded body: it ends with the checksum algorithm byte and, as
// every server from 5.6.1 writes whatever the setting, four checksum bytes
// that FullEvent fills in.
func (f FDE) Body() []byte {
	b := make([]byte, 0, 57+len(f.Sizes)+1)
	b = le16(b, f.BinlogVersion)
	var v [50]byte
	copy(v[:], f.Server)
	b = append(b, v[:]...)
	b = le32(b, f.Created)
	b = append(b, f.HeaderLen)
	b = append(b, f.Sizes...)
	return append(b, f.Alg)
}

// Event encodes the whole event.
func (f FDE) Event(h Header) []byte {
	h.Type = EvFDE
	return Event(h, f.Body(), true)
}

// Sizes56 are the post-header lengths a 5.6 server announces, Sizes57 those
// of 5.7 and 8.0.
func Sizes(ver int, tableID4 bool) []byte {
	s := []byte{56, 13, 0, 8, 0, 18, 0, 4, 4, 4, 4, 18, 0, 0, 92, 0, 4, 26, 8, 0, 0, 0, 8, 8, 8, 2, 0, 0, 0, 10, 10, 10, 25, 25, 0}
	switch ver {
	case 57:
		s[14] = 95
		s[32], s[33] = 42, 42
		s = append(s, 18, 52, 0)
	case 80:
		s[14] = 98
		s[32], s[33] = 42, 42
		s = append(s, 18, 52, 0, 10, 40, 0)
	case 51:
		s[14] = 84
		s = s[:27]
	}
	if tableID4 {
		s[EvTableMap-1] = 6
		s[EvWriteV1-1], s[EvUpdateV1-1], s[EvDeleteV1-1] = 6, 6, 6
	}
	return s
}

func le16(b []byte, v uint16) []byte { return append(b, byte(v), byte(v>>8)) }
func le32(b []byte, v uint32) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}
func le64(b []byte, v uint64) []byte { return le32(le32(b, uint32(v)), uint32(v>>32)) }
func leN(b []byte, v uint64, n int) []byte {
	for i := 0; i < n; i++ {
		b = append(b, byte(v>>(8*uint(i))))
	}
	return b
}
func beN(b []byte, v uint64, n int) []byte {
	for i := n - 1; i >= 0; i-- {
		b = append(b, byte(v>>(8*uint(i))))
	}
	return b
}

// LE exports leN for harnesses.
func LE(b []byte, v uint64, n int) []byte { return leN(b, v, n) }

// BE exports beN for harnesses.
func BE(b []byte, v uint64, n int) []byte { return beN(b, v, n) }

// LenEnc appends a length-encoded integer.
func LenEnc(b []byte, v uint64) []byte {
	switch {
	case v < 251:
		return append(b, byte(v))
	case v < 1<<16:
		return leN(append(b, 0xfc), v, 2)
	case v < 1<<24:
		return leN(append(b, 0xfd), v, 3)
	}
	return leN(append(b, 0xfe), v, 8)
}

// StatusVar is one status variable of a QUERY event.
type StatusVar struct {
	Code byte
	Data []byte
}

// QueryBody encodes a QUERY event body.
func QueryBody(thread, exec uint32, errCode uint16, vars []StatusVar, db, sql string) []byte {
	var v []byte
	for _, s := range vars {
		v = append(v, s.Code)
		v = append(v, s.Data...)
	}
	b := le32(nil, thread)
	b = le32(b, exec)
	b = append(b, byte(len(db)))
	b = le16(b, errCode)
	b = le16(b, uint16(len(v)))
	b = append(b, v...)
	b = append(b, db...)
	b = append(b, 0)
	return append(b, sql...)
}

// RotateBody encodes a ROTATE event body.
func RotateBody(pos uint64, file string) []byte { return append(le64(nil, pos), file...) }

// IntVarBody and RandBody encode those events.
func IntVarBody(typ byte, v uint64) []byte { return le64([]byte{typ}, v) }

// RandBody encodes a RAND body.
func RandBody(a, b uint64) []byte { return le64(le64(nil, a), b) }

// GTIDBody encodes a GTID (or anonymous GTID) body as 5.6 (ext false) or 5.7+ writes it.
func GTIDBody(flags byte, sid [16]byte, gno int64, ext bool) []byte {
	b := []byte{flags}
	b = append(b, sid[:]...)
	b = le64(b, uint64(gno))
	if ext {
		b = append(b, 2) // logical timestamp typecode
		b = le64(b, 7)
		b = le64(b, 8)
	}
	return b
}

// TableIDBytes encodes a table id on 4 or 6 bytes.
func TableIDBytes(id uint64, four bool) []byte {
	if four {
		return leN(nil, id, 4)
	}
	return leN(nil, id, 6)
}

// Col is a column of a table as the master's table map and the user's table
// mapper describe it.
type Col struct {
	Name     string
	Type     byte   // type byte in the table map
	Meta     []byte // its metadata bytes, in the order they are written
	Unsigned bool
	NotNull  bool
}

// Table is a table as a table map announces it.
type Table struct {
	DB, Name string
	Cols     []Col
}

// TableMapBody encodes a TABLE_MAP body; optional is appended after the null
// bitmap (8.0 optional metadata).
func TableMapBody(id uint64, four bool, flags uint16, t *Table, optional []byte) []byte {
	b := TableIDBytes(id, four)
	b = le16(b, flags)
	b = append(b, byte(len(t.DB)))
	b = append(b, t.DB...)
	b = append(b, 0, byte(len(t.Name)))
	b = append(b, t.Name...)
	b = append(b, 0)
	b = LenEnc(b, uint64(len(t.Cols)))
	var meta []byte
	bits := make([]byte, (len(t.Cols)+7)/8)
	for i, c := range t.Cols {
		b = append(b, c.Type)
		meta = append(meta, c.Meta...)
		if !c.NotNull {
			bits[i/8] |= 1 << uint(i%8)
		}
	}
	b = LenEnc(b, uint64(len(meta)))
	b = append(b, meta...)
	b = append(b, bits...)
	return append(b, optional...)
}

// Cell is one cell of a row image.
type Cell struct {
	Absent bool
	Null   bool
	Enc    []byte
	Text   []byte                 // what a faithful reader reports
	Check  func(got []byte) error // instead of Text equality, when set
	Desc   string
}

// Image is a row image: one cell per table column.
type Image []Cell

// Kinds of rows events.
const (
	Write  = 0
	Update = 1
	Delete = 2
)

// RowsEvent describes a rows event.
type RowsEvent struct {
	Kind    int
	V2      bool
	TableID uint64
	Four    bool
	Flags   uint16
	Extra   []byte // extra data of v2
	NCols   int
	Before  []Image
	After   []Image
	// PresentBefore/After: column presence, taken from the first image when nil.
	PresentBefore, PresentAfter []bool
}

// EvType is the event's type byte.
func (r *RowsEvent) EvType() byte {
	if r.V2 {
		return EvWriteV2 + byte(r.Kind)
	}
	return EvWriteV1 + byte(r.Kind)
}

func bitmap(p []bool) []byte {
	b := make([]byte, (len(p)+7)/8)
	for i, x := range p {
		if x {
			b[i/8] |= 1 << uint(i%8)
		}
	}
	return b
}

func presence(p []bool, im []Image, n int) []bool {
	if p != nil {
		return p
	}
	p = make([]bool, n)
	for i := range p {
		p[i] = len(im) == 0 || !im[0][i].Absent
	}
	return p
}

func imageBytes(b []byte, im Image) []byte {
	var nulls []bool
	for _, c := range im {
		if !c.Absent {
			nulls = append(nulls, c.Null)
		}
	}
	b = append(b, bitmap(nulls)...)
	for _, c := range im {
		if !c.Absent && !c.Null {
			b = append(b, c.Enc...)
		}
	}
	return b
}

// RawImage is the concatenated encoded cells of an image.
func (im Image) RawImage() []byte {
	var b []byte
	for _, c := range im {
		if !c.Absent && !c.Null {
			b = append(b, c.Enc...)
		}
	}
	return b
}

// Body encodes the rows event body.
func (r *RowsEvent) Body() []byte {
	b := TableIDBytes(r.TableID, r.Four)
	b = le16(b, r.Flags)
	if r.V2 {
		b = le16(b, uint16(2+len(r.Extra)))
		b = append(b, r.Extra...)
	}
	b = LenEnc(b, uint64(r.NCols))
	if r.Kind != Write {
		b = append(b, bitmap(presence(r.PresentBefore, r.Before, r.NCols))...)
	}
	if r.Kind != Delete {
		b = append(b, bitmap(presence(r.PresentAfter, r.After, r.NCols))...)
	}
	n := len(r.After)
	if r.Kind == Delete {
		n = len(r.Before)
	}
	for i := 0; i < n; i++ {
		if r.Kind != Write {
			b = imageBytes(b, r.Before[i])
		}
		if r.Kind != Delete {
			b = imageBytes(b, r.After[i])
		}
	}
	return b
}
