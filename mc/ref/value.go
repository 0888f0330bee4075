package ref

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"
)

// Column types as the table map carries them.
const (
	TTiny       = 1
	TShort      = 2
	TLong       = 3
	TFloat      = 4
	TDouble     = 5
	TNull       = 6
	TTimestamp  = 7
	TLongLong   = 8
	TInt24      = 9
	TDate       = 10
	TTime       = 11
	TDateTime   = 12
	TYear       = 13
	TNewDate    = 14
	TVarchar    = 15
	TBit        = 16
	TTimestamp2 = 17
	TDateTime2  = 18
	TTime2      = 19
	TJSON       = 245
	TDecimal    = 246
	TEnum       = 247
	TSet        = 248
	TTinyBlob   = 249
	TMedBlob    = 250
	TLongBlob   = 251
	TBlob       = 252
	TVarString  = 253
	TString     = 254
	TGeometry   = 255
)

// MetaLE tells, per type, how many metadata bytes there are and whether a
// two-byte one is little endian.
func MetaLen(typ byte) (n int, le bool) {
	switch typ {
	case TFloat, TDouble, TTimestamp2, TDateTime2, TTime2, TJSON, TTinyBlob, TMedBlob, TLongBlob, TBlob, TGeometry:
		return 1, false
	case TDecimal, TEnum, TSet, TString:
		return 2, false
	case TVarchar, TBit, TVarString:
		return 2, true
	}
	return 0, false
}

// MetaValue is the metadata as one number, the way the library reports it:
// the documented meaning of the bytes, big endian for the types that store
// two separate bytes, little endian for lengths.
func MetaValue(typ byte, m []byte) uint16 {
	n, le := MetaLen(typ)
	switch {
	case n == 0:
		return 0
	case n == 1:
		return uint16(m[0])
	case le:
		return uint16(m[0]) | uint16(m[1])<<8
	}
	return uint16(m[0])<<8 | uint16(m[1])
}

// IntWidth is the number of bytes of an integer type.
func IntWidth(typ byte) int {
	switch typ {
	case TTiny:
		return 1
	case TShort:
		return 2
	case TInt24:
		return 3
	case TLong:
		return 4
	case TLongLong:
		return 8
	}
	return 0
}

// Int is an integer cell with the given two's complement bits.
func Int(typ byte, bits uint64, unsigned bool) Cell {
	w := IntWidth(typ)
	if w < 8 {
		bits &= 1<<(8*uint(w)) - 1
	}
	v := new(big.Int).SetUint64(bits)
	if !unsigned && bits>>(8*uint(w)-1) == 1 {
		v.Sub(v, new(big.Int).Lsh(big.NewInt(1), 8*uint(w)))
	}
	return Cell{Enc: leN(nil, bits, w), Text: []byte(v.String())}
}

// plainDecimal tells whether s is plain exponent-free decimal text.
func plainDecimal(s string) bool {
	s = strings.TrimPrefix(s, "-")
	i, f, dot := s, "", false
	if k := strings.IndexByte(s, '.'); k >= 0 {
		i, f, dot = s[:k], s[k+1:], true
	}
	if i == "" || dot && f == "" {
		return false
	}
	for _, c := range i + f {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

// CheckFloat32 says whether got is plain text of exactly the float with these bits.
func CheckFloat32(bits uint32, got []byte) error {
	s := string(got)
	if !plainDecimal(s) {
		return fmt.Errorf("FLOAT bits %08x: %q is not plain decimal text", bits, s)
	}
	f, err := strconv.ParseFloat(s, 32)
	if err != nil || math.Float32bits(float32(f)) != bits {
		return fmt.Errorf("FLOAT bits %08x: %q parses back to %08x", bits, s, math.Float32bits(float32(f)))
	}
	return nil
}

// CheckFloat64 is CheckFloat32 for doubles.
func CheckFloat64(bits uint64, got []byte) error {
	s := string(got)
	if !plainDecimal(s) {
		return fmt.Errorf("DOUBLE bits %016x: %q is not plain decimal text", bits, s)
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || math.Float64bits(f) != bits {
		return fmt.Errorf("DOUBLE bits %016x: %q parses back to %016x", bits, s, math.Float64bits(f))
	}
	return nil
}

// Float32 and Float64 are floating cells.
func Float32(f float32) Cell {
	b := math.Float32bits(f)
	return Cell{Enc: leN(nil, uint64(b), 4), Check: func(g []byte) error { return CheckFloat32(b, g) }, Desc: fmt.Sprintf("float %08x", b)}
}

// Float64 is a double cell.
func Float64(f float64) Cell {
	b := math.Float64bits(f)
	return Cell{Enc: leN(nil, b, 8), Check: func(g []byte) error { return CheckFloat64(b, g) }, Desc: fmt.Sprintf("double %016x", b)}
}

// Year is a YEAR cell.
func Year(b byte) Cell {
	t := "0000"
	if b != 0 {
		t = strconv.Itoa(1900 + int(b))
	}
	return Cell{Enc: []byte{b}, Text: []byte(t)}
}

// BitMeta is the metadata of BIT(n).
func BitMeta(n int) []byte { return []byte{byte(n % 8), byte(n / 8)} }

// Bit is a BIT(n) cell.
func Bit(n int, v uint64) Cell {
	e := beN(nil, v, (n+7)/8)
	return Cell{Enc: e, Text: append([]byte(nil), e...)}
}

// Enum is an ENUM cell stored on w bytes.
func Enum(w int, idx uint64) Cell {
	return Cell{Enc: leN(nil, idx, w), Text: []byte(strconv.FormatUint(idx, 10))}
}

// Set is a SET cell stored on w bytes.
func Set(w int, mask uint64) Cell {
	return Cell{Enc: leN(nil, mask, w), Text: []byte(strconv.FormatUint(mask, 10))}
}

// RawSet is a SET cell of the bare TypeSet, delivered as its bytes.
var digBytes = [10]int{0, 1, 1, 2, 2, 3, 3, 4, 4, 4}

// DecimalLen is the storage size of DECIMAL(p,s).
func DecimalLen(p, s int) int {
	i := p - s
	return i/9*4 + digBytes[i%9] + s/9*4 + digBytes[s%9]
}

func num(d []byte) uint64 {
	var v uint64
	for _, c := range d {
		v = v*10 + uint64(c-'0')
	}
	return v
}

// AppendDecimal appends the storage of a decimal whose p-s integer digits and
// s fraction digits are given.
func AppendDecimal(b []byte, neg bool, intg, frac []byte) []byte {
	start := len(b)
	i := len(intg) % 9
	b = beN(b, num(intg[:i]), digBytes[i])
	for ; i < len(intg); i += 9 {
		b = beN(b, num(intg[i:i+9]), 4)
	}
	j := 0
	for ; j+9 <= len(frac); j += 9 {
		b = beN(b, num(frac[j:j+9]), 4)
	}
	b = beN(b, num(frac[j:]), digBytes[len(frac)-j])
	if neg {
		for k := start; k < len(b); k++ {
			b[k] ^= 0xff
		}
	}
	b[start] ^= 0x80
	return b
}

// AppendDecimalText appends the canonical text of the same decimal.
func AppendDecimalText(b []byte, neg bool, intg, frac []byte) []byte {
	if neg {
		b = append(b, '-')
	}
	k := 0
	for k < len(intg) && intg[k] == '0' {
		k++
	}
	if k == len(intg) {
		b = append(b, '0')
	}
	b = append(b, intg[k:]...)
	if len(frac) > 0 {
		b = append(b, '.')
		b = append(b, frac...)
	}
	return b
}

// Decimal is a DECIMAL cell.
func Decimal(neg bool, intg, frac string) Cell {
	return Cell{Enc: AppendDecimal(nil, neg, []byte(intg), []byte(frac)), Text: AppendDecimalText(nil, neg, []byte(intg), []byte(frac))}
}

// Date is a DATE cell.
func Date(y, m, d int) Cell {
	return Cell{Enc: leN(nil, uint64(d|m<<5|y<<9), 3), Text: []byte(DateText(y, m, d))}
}

// DateText and friends are MySQL's canonical texts.
func DateText(y, m, d int) string { return string(AppendDate(nil, y, m, d)) }

func appN(b []byte, v, n int) []byte {
	var t [10]byte
	k := len(t)
	for v > 0 || n > 0 {
		k--
		t[k] = byte('0' + v%10)
		v /= 10
		n--
	}
	return append(b, t[k:]...)
}

// AppendDate appends YYYY-MM-DD.
func AppendDate(b []byte, y, m, d int) []byte {
	b = append(appN(b, y, 4), '-')
	b = append(appN(b, m, 2), '-')
	return appN(b, d, 2)
}

// AppendClock appends HH:MM:SS and, with fsp digits, the fraction.
func AppendClock(b []byte, h, m, s, us, fsp int) []byte {
	b = append(appN(b, h, 2), ':')
	b = append(appN(b, m, 2), ':')
	b = appN(b, s, 2)
	if fsp > 0 {
		div := 1
		for i := fsp; i < 6; i++ {
			div *= 10
		}
		b = append(b, '.')
		b = appN(b, us/div, fsp)
	}
	return b
}

// AppendFrac appends the big-endian fraction bytes of the 5.6.4 encodings.
func AppendFrac(b []byte, us, fsp int) []byte {
	switch (fsp + 1) / 2 {
	case 1:
		return beN(b, uint64(us/10000), 1)
	case 2:
		return beN(b, uint64(us/100), 2)
	case 3:
		return beN(b, uint64(us), 3)
	}
	return b
}

// Time is an old TIME cell.
func Time(neg bool, h, m, s int) Cell {
	v := int64(h*10000 + m*100 + s)
	var t []byte
	if neg {
		v = -v
		t = append(t, '-')
	}
	return Cell{Enc: leN(nil, uint64(v), 3), Text: AppendClock(t, h, m, s, 0, 0)}
}

// AppendTime2 appends the 5.6.4 encoding of a time.
func AppendTime2(b []byte, neg bool, h, m, s, us, fsp int) []byte {
	p := int64(h<<12|m<<6|s)<<24 + int64(us)
	if neg {
		p = -p
	}
	ip := p >> 24
	fr := p % (1 << 24)
	switch (fsp + 1) / 2 {
	case 0:
		return beN(b, uint64(0x800000+ip), 3)
	case 1:
		return beN(beN(b, uint64(0x800000+ip), 3), uint64(fr/10000), 1)
	case 2:
		return beN(beN(b, uint64(0x800000+ip), 3), uint64(fr/100), 2)
	}
	return beN(b, uint64(p+0x800000000000), 6)
}

// Time2 is a TIME(fsp) cell.
func Time2(neg bool, h, m, s, us, fsp int) Cell {
	var t []byte
	if neg {
		t = append(t, '-')
	}
	return Cell{Enc: AppendTime2(nil, neg, h, m, s, us, fsp), Text: AppendClock(t, h, m, s, us, fsp)}
}

// DateTime is an old DATETIME cell.
func DateTime(y, mo, d, h, mi, s int) Cell {
	v := uint64(y)*1e10 + uint64(mo)*1e8 + uint64(d)*1e6 + uint64(h)*1e4 + uint64(mi)*100 + uint64(s)
	t := append(AppendDate(nil, y, mo, d), ' ')
	return Cell{Enc: leN(nil, v, 8), Text: AppendClock(t, h, mi, s, 0, 0)}
}

// AppendDateTime2 appends the 5.6.4 encoding.
func AppendDateTime2(b []byte, y, mo, d, h, mi, s, us, fsp int) []byte {
	v := (uint64(y*13+mo)<<5|uint64(d))<<17 | uint64(h)<<12 | uint64(mi)<<6 | uint64(s)
	return AppendFrac(beN(b, v+0x8000000000, 5), us, fsp)
}

// DateTime2 is a DATETIME(fsp) cell.
func DateTime2(y, mo, d, h, mi, s, us, fsp int) Cell {
	t := append(AppendDate(nil, y, mo, d), ' ')
	return Cell{Enc: AppendDateTime2(nil, y, mo, d, h, mi, s, us, fsp), Text: AppendClock(t, h, mi, s, us, fsp)}
}

// AppendTimestampText appends the local rendering of a stored instant.
func AppendTimestampText(b []byte, sec uint32, us, fsp int) []byte {
	if sec == 0 {
		b = append(b, "0000-00-00 "...)
		return AppendClock(b, 0, 0, 0, 0, fsp)
	}
	t := time.Unix(int64(sec), 0).In(time.Local)
	y, mo, d := t.Date()
	h, mi, s := t.Clock()
	b = append(AppendDate(b, y, int(mo), d), ' ')
	return AppendClock(b, h, mi, s, us, fsp)
}

// Timestamp is an old TIMESTAMP cell.
func Timestamp(sec uint32) Cell {
	return Cell{Enc: leN(nil, uint64(sec), 4), Text: AppendTimestampText(nil, sec, 0, 0)}
}

// Timestamp2 is a TIMESTAMP(fsp) cell.
func Timestamp2(sec uint32, us, fsp int) Cell {
	return Cell{Enc: AppendFrac(beN(nil, uint64(sec), 4), us, fsp), Text: AppendTimestampText(nil, sec, us, fsp)}
}

// VarcharMeta is the metadata of a VARCHAR of max bytes.
func VarcharMeta(max int) []byte { return le16(nil, uint16(max)) }

// Varchar is a VARCHAR/VARBINARY cell.
func Varchar(max int, v []byte) Cell {
	w := 1
	if max > 255 {
		w = 2
	}
	return Cell{Enc: append(leN(nil, uint64(len(v)), w), v...), Text: v}
}

// CharMeta is the metadata of a CHAR/BINARY column of max bytes (<= 1023).
func CharMeta(max int) []byte {
	return []byte{0xFE ^ byte((max&0x300)>>4), byte(max)}
}

// Blob is a BLOB/TEXT/GEOMETRY cell whose length prefix has w bytes.
func Blob(w int, v []byte) Cell {
	return Cell{Enc: append(leN(nil, uint64(len(v)), w), v...), Text: v}
}

// JSON is a JSON cell (w bytes of length prefix).
func JSON(w int, d *Doc, large bool) Cell {
	e := d.Encode(large)
	return Cell{Enc: append(leN(nil, uint64(len(e)), w), e...), Check: func(g []byte) error { return CheckJSON(d, g) }, Desc: d.String()}
}

// CheckCell compares delivered data with the cell.
func CheckCell(c *Cell, absent bool, got []byte) error {
	switch {
	case c.Absent:
		if !absent {
			return fmt.Errorf("absent column not flagged as absent (data %q)", clip(got))
		}
		return nil
	case absent:
		return fmt.Errorf("present column flagged as absent")
	case c.Null:
		if got != nil {
			return fmt.Errorf("NULL delivered as data %q", clip(got))
		}
		return nil
	case got == nil:
		return fmt.Errorf("value delivered as NULL (want %q %s)", clip(c.Text), c.Desc)
	case c.Check != nil:
		return c.Check(got)
	case string(got) != string(c.Text):
		return fmt.Errorf("got %q want %q", clip(got), clip(c.Text))
	}
	return nil
}

func clip(b []byte) []byte {
	if len(b) > 120 {
		return append(append([]byte(nil), b[:120]...), "..."...)
	}
	return b
}

// Kind is one column definition with sample cells.
type Kind struct {
	Label string
	Col   Col
	Cells []Cell
}

func pat(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + (seed+byte(i)*7)%26
	}
	return b
}

// Pat exports pat.
func Pat(n int, seed byte) []byte { return pat(n, seed) }

// Kinds is the catalogue of column kinds used end to end: every type and
// every width of metadata/prefix, with boundary values.
func Kinds() []Kind {
	var ks []Kind
	add := func(label string, typ byte, meta []byte, uns bool, cells ...Cell) {
		ks = append(ks, Kind{label, Col{Type: typ, Meta: meta, Unsigned: uns}, cells})
	}
	for _, x := range []struct {
		n string
		t byte
	}{{"tiny", TTiny}, {"short", TShort}, {"int24", TInt24}, {"long", TLong}, {"longlong", TLongLong}} {
		w := uint(8 * IntWidth(x.t))
		for _, u := range []bool{false, true} {
			l := x.n
			if u {
				l += " unsigned"
			}
			add(l, x.t, nil, u, Int(x.t, 1, u), Int(x.t, 1<<(w-1), u), Int(x.t, ^uint64(0), u), Int(x.t, 1<<(w-1)-1, u), Int(x.t, 0, u))
		}
	}
	add("float", TFloat, []byte{4}, false, Float32(1.5), Float32(-3.4e38), Float32(1e-45), Float32(0), Float32(16777216), Float32(0.1))
	add("double", TDouble, []byte{8}, false, Float64(-2.5), Float64(1.7e308), Float64(5e-324), Float64(0), Float64(1e21), Float64(0.1))
	add("year", TYear, nil, false, Year(121), Year(0), Year(255), Year(1))
	for _, n := range []int{1, 8, 9, 16, 33, 64} {
		add(fmt.Sprintf("bit%d", n), TBit, BitMeta(n), false, Bit(n, 1), Bit(n, ^uint64(0)>>(64-uint(n))), Bit(n, 1<<uint(n-1)))
	}
	add("enum1", TString, []byte{TEnum, 1}, false, Enum(1, 1), Enum(1, 255), Enum(1, 0))
	add("enum2", TString, []byte{TEnum, 2}, false, Enum(2, 256), Enum(2, 65535), Enum(2, 1))
	for w := 1; w <= 8; w++ {
		if w == 5 || w == 6 || w == 7 {
			continue
		}
		add(fmt.Sprintf("set%d", w), TString, []byte{TSet, byte(w)}, false, Set(w, 1), Set(w, ^uint64(0)>>(64-8*uint(w))), Set(w, 1<<(8*uint(w)-1)))
	}
	add("date", TDate, nil, false, Date(2021, 5, 13), Date(0, 0, 0), Date(9999, 12, 31))
	add("newdate", TNewDate, nil, false, Date(2020, 2, 29), Date(1, 1, 1))
	add("time", TTime, nil, false, Time(false, 12, 34, 56), Time(false, 838, 59, 59), Time(true, 1, 2, 3), Time(true, 0, 0, 1), Time(false, 0, 0, 0))
	add("datetime", TDateTime, nil, false, DateTime(2021, 5, 13, 1, 2, 3), DateTime(0, 0, 0, 0, 0, 0), DateTime(9999, 12, 31, 23, 59, 59))
	add("timestamp", TTimestamp, nil, false, Timestamp(1620900000), Timestamp(0), Timestamp(1), Timestamp(1<<31-1))
	for fsp := 0; fsp <= 6; fsp++ {
		u := 123456
		m := 999999
		for i := 0; i < 6-fsp; i++ {
			u, m = u/10, m/10
		}
		for i := 0; i < 6-fsp; i++ {
			u, m = u*10, m*10
		}
		add(fmt.Sprintf("time2(%d)", fsp), TTime2, []byte{byte(fsp)}, false, Time2(false, 12, 34, 56, u, fsp), Time2(true, 838, 59, 58, m, fsp), Time2(true, 1, 0, 0, u, fsp), Time2(false, 0, 0, 0, 0, fsp))
		add(fmt.Sprintf("datetime2(%d)", fsp), TDateTime2, []byte{byte(fsp)}, false, DateTime2(2021, 5, 13, 1, 2, 3, u, fsp), DateTime2(0, 0, 0, 0, 0, 0, 0, fsp), DateTime2(9999, 12, 31, 23, 59, 59, m, fsp))
		add(fmt.Sprintf("timestamp2(%d)", fsp), TTimestamp2, []byte{byte(fsp)}, false, Timestamp2(1620900000, u, fsp), Timestamp2(0, 0, fsp), Timestamp2(1<<31-1, m, fsp))
	}
	for _, ps := range [][2]int{{1, 0}, {1, 1}, {4, 2}, {9, 0}, {10, 0}, {10, 10}, {18, 9}, {19, 9}, {30, 30}, {65, 0}, {65, 30}} {
		p, s := ps[0], ps[1]
		nine, one := strings.Repeat("9", p), "0"
		zero := strings.Repeat("0", p)
		one = zero[:p-1] + "1"
		add(fmt.Sprintf("decimal(%d,%d)", p, s), TDecimal, []byte{byte(p), byte(s)}, false,
			Decimal(false, zero[:p-s], zero[p-s:]), Decimal(true, nine[:p-s], nine[p-s:]), Decimal(false, one[:p-s], one[p-s:]), Decimal(true, one[:p-s], one[p-s:]))
	}
	for _, max := range []int{1, 10, 255, 256, 300, 65532} {
		n := max
		if n > 700 {
			n = 700
		}
		add(fmt.Sprintf("varchar(%d)", max), TVarchar, VarcharMeta(max), false, Varchar(max, pat(1, 1)), Varchar(max, []byte{}), Varchar(max, pat(n, 3)), Varchar(max, pat((n+1)/2, 5)))
		add(fmt.Sprintf("varstring(%d)", max), TVarString, VarcharMeta(max), false, Varchar(max, pat(1, 2)), Varchar(max, []byte{}), Varchar(max, pat(n, 4)))
	}
	for _, max := range []int{1, 10, 255, 256, 511, 512, 767, 768, 1020} {
		add(fmt.Sprintf("char(%d)", max), TString, CharMeta(max), false, Varchar(max, pat(1, 1)), Varchar(max, []byte{}), Varchar(max, pat(max, 3)), Varchar(max, []byte{0xff}))
	}
	for w := 1; w <= 4; w++ {
		add(fmt.Sprintf("blob%d", w), TBlob, []byte{byte(w)}, false, Blob(w, []byte("b\x00\xff\xfeb")), Blob(w, []byte{}), Blob(w, pat(255, 9)), Blob(w, []byte{0x27}))
	}
	add("blob2-long", TBlob, []byte{2}, false, Blob(2, pat(5000, 1)), Blob(2, pat(256, 2)))
	add("geometry", TGeometry, []byte{4}, false, Blob(4, []byte{0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xf0, 0x3f, 0, 0, 0, 0, 0, 0, 0, 0x40}), Blob(4, []byte{}))
	add("tinyblob", TTinyBlob, []byte{1}, false, Blob(1, pat(3, 1)))
	add("mediumblob", TMedBlob, []byte{3}, false, Blob(3, pat(300, 1)))
	add("longblob", TLongBlob, []byte{4}, false, Blob(4, pat(300, 2)))
	add("json", TJSON, []byte{4}, false, JSON(4, Obj("a", DInt(1)), false), JSON(4, Arr(DStr("x"), DNull(), Obj("k", Arr())), false), JSON(4, DStr(""), false),
		JSON(4, Arr(DDate(2021, 5, 13), DDecimal(true, "12", "30")), true))
	return ks
}

var _ = binary.LittleEndian
