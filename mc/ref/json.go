package ref

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// JSON document kinds.
const (
	JNull = iota
	JTrue
	JFalse
	JInt
	JUint
	JDouble
	JString
	JArray
	JObject
	JDate
	JTime
	JDateTime
	JDecimal
)

// Doc is a JSON document.
type Doc struct {
	K     int
	Width int // 2, 4, 8: storage width of integers (0: smallest)
	I     int64
	U     uint64
	F     float64
	S     string
	Elems []*Doc
	Keys  []string
	// temporal / decimal
	Neg             bool
	Y, Mo, D        int
	H, Mi, Se, Us   int
	IntDig, FracDig string
}

func DNull() *Doc            { return &Doc{K: JNull} }
func DTrue() *Doc            { return &Doc{K: JTrue} }
func DFalse() *Doc           { return &Doc{K: JFalse} }
func DInt(v int64) *Doc      { return &Doc{K: JInt, I: v} }
func DUint(v uint64) *Doc    { return &Doc{K: JUint, U: v} }
func DDouble(v float64) *Doc { return &Doc{K: JDouble, F: v} }
func DStr(s string) *Doc     { return &Doc{K: JString, S: s} }
func Arr(e ...*Doc) *Doc     { return &Doc{K: JArray, Elems: e} }
func DDate(y, m, d int) *Doc { return &Doc{K: JDate, Y: y, Mo: m, D: d} }
func DTime(neg bool, h, m, s, us int) *Doc {
	return &Doc{K: JTime, Neg: neg, H: h, Mi: m, Se: s, Us: us}
}
func DDateTime(y, mo, d, h, mi, s, us int) *Doc {
	return &Doc{K: JDateTime, Y: y, Mo: mo, D: d, H: h, Mi: mi, Se: s, Us: us}
}
func DDecimal(neg bool, i, f string) *Doc { return &Doc{K: JDecimal, Neg: neg, IntDig: i, FracDig: f} }

// WithWidth forces the storage width of an integer.
func (d *Doc) WithWidth(w int) *Doc { c := *d; c.Width = w; return &c }

// Obj builds an object from key, value pairs and orders keys as MySQL does.
func Obj(kv ...interface{}) *Doc {
	d := &Doc{K: JObject}
	for i := 0; i < len(kv); i += 2 {
		d.Keys = append(d.Keys, kv[i].(string))
		d.Elems = append(d.Elems, kv[i+1].(*Doc))
	}
	return d.sortKeys()
}

// ObjOf builds an object from slices.
func ObjOf(keys []string, el []*Doc) *Doc {
	return (&Doc{K: JObject, Keys: append([]string(nil), keys...), Elems: append([]*Doc(nil), el...)}).sortKeys()
}

func (d *Doc) sortKeys() *Doc {
	idx := make([]int, len(d.Keys))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool {
		x, y := d.Keys[idx[a]], d.Keys[idx[b]]
		if len(x) != len(y) {
			return len(x) < len(y)
		}
		return x < y
	})
	k, e := make([]string, len(idx)), make([]*Doc, len(idx))
	for i, j := range idx {
		k[i], e[i] = d.Keys[j], d.Elems[j]
	}
	d.Keys, d.Elems = k, e
	return d
}

// String is a compact description.
func (d *Doc) String() string {
	switch d.K {
	case JNull:
		return "null"
	case JTrue:
		return "true"
	case JFalse:
		return "false"
	case JInt:
		return fmt.Sprintf("int%d(%d)", d.Width*8, d.I)
	case JUint:
		return fmt.Sprintf("uint%d(%d)", d.Width*8, d.U)
	case JDouble:
		return fmt.Sprintf("double(%x)", math.Float64bits(d.F))
	case JString:
		if len(d.S) > 24 {
			return fmt.Sprintf("str[%d]%q..", len(d.S), d.S[:8])
		}
		return strconv.Quote(d.S)
	case JArray, JObject:
		if len(d.Elems) > 12 {
			return fmt.Sprintf("container[%d]", len(d.Elems))
		}
		var p []string
		for i, e := range d.Elems {
			s := e.String()
			if d.K == JObject {
				k := d.Keys[i]
				if len(k) > 16 {
					k = fmt.Sprintf("%s..[%d]", k[:8], len(k))
				}
				s = strconv.Quote(k) + ":" + s
			}
			p = append(p, s)
		}
		if d.K == JObject {
			return "{" + strings.Join(p, ",") + "}"
		}
		return "[" + strings.Join(p, ",") + "]"
	case JDate:
		return fmt.Sprintf("date(%d-%d-%d)", d.Y, d.Mo, d.D)
	case JTime:
		return fmt.Sprintf("time(%v %d:%d:%d.%d)", d.Neg, d.H, d.Mi, d.Se, d.Us)
	case JDateTime:
		return fmt.Sprintf("datetime(%d-%d-%d %d:%d:%d.%d)", d.Y, d.Mo, d.D, d.H, d.Mi, d.Se, d.Us)
	}
	return fmt.Sprintf("decimal(%v %s.%s)", d.Neg, d.IntDig, d.FracDig)
}

func (d *Doc) width() int {
	if d.Width != 0 {
		return d.Width
	}
	if d.K == JInt {
		switch {
		case d.I >= -1<<15 && d.I < 1<<15:
			return 2
		case d.I >= -1<<31 && d.I < 1<<31:
			return 4
		}
		return 8
	}
	switch {
	case d.U < 1<<16:
		return 2
	case d.U < 1<<32:
		return 4
	}
	return 8
}

func varLen(b []byte, n int) []byte {
	for n >= 0x80 {
		b = append(b, byte(n)|0x80)
		n >>= 7
	}
	return append(b, byte(n))
}

// Encode is the binary JSON value (type byte first). forceLarge uses the
// large format for every container; otherwise it is used only when needed.
func (d *Doc) Encode(forceLarge bool) []byte {
	t, b := d.value(forceLarge)
	return append([]byte{t}, b...)
}

func (d *Doc) value(forceLarge bool) (byte, []byte) {
	switch d.K {
	case JNull:
		return 4, []byte{0}
	case JTrue:
		return 4, []byte{1}
	case JFalse:
		return 4, []byte{2}
	case JInt:
		w := d.width()
		return map[int]byte{2: 5, 4: 7, 8: 9}[w], leN(nil, uint64(d.I), w)
	case JUint:
		w := d.width()
		return map[int]byte{2: 6, 4: 8, 8: 10}[w], leN(nil, d.U, w)
	case JDouble:
		return 11, leN(nil, math.Float64bits(d.F), 8)
	case JString:
		return 12, append(varLen(nil, len(d.S)), d.S...)
	case JArray, JObject:
		base := byte(0)
		if d.K == JArray {
			base = 2
		}
		if !forceLarge {
			if b := d.container(false, false); b != nil {
				return base, b
			}
		}
		return base + 1, d.container(true, forceLarge)
	case JDate:
		return 15, opaque(TDate, leN(nil, uint64(packDT(d.Y, d.Mo, d.D, 0, 0, 0, 0)), 8))
	case JDateTime:
		return 15, opaque(TDateTime, leN(nil, uint64(packDT(d.Y, d.Mo, d.D, d.H, d.Mi, d.Se, d.Us)), 8))
	case JTime:
		v := int64(d.H<<12|d.Mi<<6|d.Se)<<24 + int64(d.Us)
		if d.Neg {
			v = -v
		}
		return 15, opaque(TTime, leN(nil, uint64(v), 8))
	case JDecimal:
		b := []byte{byte(len(d.IntDig) + len(d.FracDig)), byte(len(d.FracDig))}
		return 15, opaque(TDecimal, AppendDecimal(b, d.Neg, []byte(d.IntDig), []byte(d.FracDig)))
	}
	panic("doc kind")
}

func packDT(y, mo, d, h, mi, s, us int) int64 {
	ymd := int64(y*13+mo)<<5 | int64(d)
	return (ymd<<17|int64(h<<12|mi<<6|s))<<24 + int64(us)
}

func opaque(typ byte, b []byte) []byte {
	return append(varLen([]byte{typ}, len(b)), b...)
}

// container encodes an array or object body, or nil when the small format
// overflows.
func (d *Doc) container(large, forceLarge bool) []byte {
	n := len(d.Elems)
	osz := 2
	if large {
		osz = 4
	}
	if !large && n > 65535 {
		return nil
	}
	put := func(b []byte, v int) []byte { return leN(b, uint64(v), osz) }
	hdr := 2*osz + n*(1+osz)
	if d.K == JObject {
		hdr += n * (osz + 2)
	}
	off := hdr
	var keys, vals []byte
	var kent, vent []byte
	if d.K == JObject {
		for _, k := range d.Keys {
			kent = put(kent, off)
			kent = leN(kent, uint64(len(k)), 2)
			keys = append(keys, k...)
			off += len(k)
			if !large && off > 65535 {
				return nil
			}
		}
	}
	for _, e := range d.Elems {
		t, b := e.value(forceLarge)
		vent = append(vent, t)
		inline := t == 4 || t == 5 || t == 6 || large && (t == 7 || t == 8)
		if inline {
			c := make([]byte, osz)
			copy(c, b)
			vent = append(vent, c...)
			continue
		}
		if !large && off > 65535 {
			return nil
		}
		vent = put(vent, off)
		vals = append(vals, b...)
		off += len(b)
	}
	if !large && off > 65535 {
		return nil
	}
	out := put(nil, n)
	out = put(out, off)
	out = append(out, kent...)
	out = append(out, vent...)
	out = append(out, keys...)
	return append(out, vals...)
}

// ---- reading the library's text back ----

type jp struct {
	s string
	i int
}

func (p *jp) ws() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\t' || p.s[p.i] == '\n') {
		p.i++
	}
}

func (p *jp) lit(t string) bool {
	p.ws()
	if strings.HasPrefix(p.s[p.i:], t) {
		p.i += len(t)
		return true
	}
	return false
}

func (p *jp) quoted() (string, error) {
	p.ws()
	if p.i >= len(p.s) || p.s[p.i] != '\'' {
		return "", fmt.Errorf("expected a quoted string at %d", p.i)
	}
	j := strings.IndexByte(p.s[p.i+1:], '\'')
	if j < 0 {
		return "", fmt.Errorf("unterminated string at %d", p.i)
	}
	v := p.s[p.i+1 : p.i+1+j]
	p.i += j + 2
	return v, nil
}

func (p *jp) number() string {
	p.ws()
	j := p.i
	for j < len(p.s) && strings.IndexByte("+-0123456789.eE", p.s[j]) >= 0 {
		j++
	}
	v := p.s[p.i:j]
	p.i = j
	return v
}

func checkNumber(d *Doc, t string) error {
	bad := func() error { return fmt.Errorf("number %q, document has %s", t, d) }
	if t == "" || t[0] == '+' || t[len(t)-1] < '0' || t[len(t)-1] > '9' {
		return bad()
	}
	switch d.K {
	case JDouble:
		f, err := strconv.ParseFloat(t, 64)
		if err != nil || math.Float64bits(f) != math.Float64bits(d.F) {
			return bad()
		}
		return nil
	case JInt, JUint:
		want := new(big.Int).SetUint64(d.U)
		if d.K == JInt {
			want.SetInt64(d.I)
		}
		r, ok := new(big.Rat).SetString(t)
		if !ok || !r.IsInt() || r.Num().Cmp(want) != 0 {
			return bad()
		}
		return nil
	}
	return bad()
}

func (p *jp) value(d *Doc, top bool) error {
	if p.lit("JSON_OBJECT(") {
		if d.K != JObject {
			return fmt.Errorf("object where the document has %s", d)
		}
		for i := range d.Elems {
			if i > 0 && !p.lit(",") {
				return fmt.Errorf("expected , at %d in object (element %d of %d)", p.i, i, len(d.Elems))
			}
			k, err := p.key(len(d.Keys[i]))
			if err != nil {
				return err
			}
			if k != d.Keys[i] {
				return fmt.Errorf("key %q, document has %q", clip([]byte(k)), clip([]byte(d.Keys[i])))
			}
			if !p.lit(",") {
				return fmt.Errorf("expected , after key at %d", p.i)
			}
			if err := p.value(d.Elems[i], false); err != nil {
				return fmt.Errorf("key %q: %w", clip([]byte(k)), err)
			}
		}
		if !p.lit(")") {
			return fmt.Errorf("expected ) at %d of object", p.i)
		}
		return nil
	}
	if p.lit("JSON_ARRAY(") {
		if d.K != JArray {
			return fmt.Errorf("array where the document has %s", d)
		}
		for i := range d.Elems {
			if i > 0 && !p.lit(",") {
				return fmt.Errorf("expected , at %d in array (element %d of %d)", p.i, i, len(d.Elems))
			}
			if err := p.value(d.Elems[i], false); err != nil {
				return fmt.Errorf("element %d: %w", i, err)
			}
		}
		if !p.lit(")") {
			return fmt.Errorf("expected ) at %d of array", p.i)
		}
		return nil
	}
	if p.lit("CAST(") {
		outer := p.lit("CAST(")
		v, err := p.quoted()
		if err != nil {
			return err
		}
		if !p.lit("AS") {
			return fmt.Errorf("expected AS at %d", p.i)
		}
		if err := p.opaque(d, v); err != nil {
			return err
		}
		if !p.lit(")") {
			return fmt.Errorf("expected ) at %d of CAST", p.i)
		}
		if outer && !(p.lit("AS") && p.lit("JSON") && p.lit(")")) {
			return fmt.Errorf("unterminated CAST AS JSON at %d", p.i)
		}
		if top && !outer {
			return fmt.Errorf("top-level CAST is not AS JSON")
		}
		return nil
	}
	p.ws()
	if p.i < len(p.s) && p.s[p.i] == '\'' {
		v, err := p.quoted()
		if err != nil {
			return err
		}
		if !top {
			if d.K != JString || v != d.S {
				return fmt.Errorf("string %q, document has %s", clip([]byte(v)), d)
			}
			return nil
		}
		// JSON text of a scalar
		switch {
		case v == "null":
			return kind(d, JNull, v)
		case v == "true":
			return kind(d, JTrue, v)
		case v == "false":
			return kind(d, JFalse, v)
		case len(v) >= 2 && v[0] == '"' && v[len(v)-1] == '"':
			if d.K != JString || v[1:len(v)-1] != d.S {
				return fmt.Errorf("string %q, document has %s", clip([]byte(v)), d)
			}
			return nil
		}
		return checkNumber(d, v)
	}
	if top {
		return fmt.Errorf("unexpected top-level text %q", clip([]byte(p.s[p.i:])))
	}
	for _, l := range []struct {
		t string
		k int
	}{{"null", JNull}, {"true", JTrue}, {"false", JFalse}} {
		if p.lit(l.t) {
			return kind(d, l.k, l.t)
		}
	}
	return checkNumber(d, p.number())
}

// key reads a quoted key; its length is known from the document only to
// give a better message.
func (p *jp) key(int) (string, error) { return p.quoted() }

func kind(d *Doc, k int, t string) error {
	if d.K != k {
		return fmt.Errorf("%s, document has %s", t, d)
	}
	return nil
}

func parseClock(v string) (neg bool, h, m, s, us int, err error) {
	if strings.HasPrefix(v, "-") {
		neg, v = true, v[1:]
	}
	fr := ""
	if k := strings.IndexByte(v, '.'); k >= 0 {
		v, fr = v[:k], v[k+1:]
		if fr == "" || len(fr) > 6 {
			err = fmt.Errorf("bad fraction %q", fr)
			return
		}
	}
	p := strings.Split(v, ":")
	if len(p) != 3 || len(p[0]) < 2 || len(p[1]) != 2 || len(p[2]) != 2 {
		err = fmt.Errorf("bad clock %q", v)
		return
	}
	for i, d := range []*int{&h, &m, &s} {
		if *d, err = digits(p[i]); err != nil {
			return
		}
	}
	if fr != "" {
		us, err = digits((fr + "000000")[:6])
	}
	return
}

func digits(s string) (int, error) {
	for _, c := range s {
		if c < '0' || c > '9' {
			return 0, fmt.Errorf("bad number %q", s)
		}
	}
	return strconv.Atoi(s)
}

func (p *jp) opaque(d *Doc, v string) error {
	bad := func() error { return fmt.Errorf("opaque %q, document has %s", v, d) }
	switch {
	case p.lit("DATETIME"):
		p.parens()
		if d.K != JDateTime || len(v) < 11 || v[:10] != DateText(d.Y, d.Mo, d.D) || v[10] != ' ' {
			return bad()
		}
		neg, h, m, s, us, err := parseClock(v[11:])
		if err != nil || neg || h != d.H || m != d.Mi || s != d.Se || us != d.Us {
			return bad()
		}
		return nil
	case p.lit("DATE"):
		if d.K != JDate || v != DateText(d.Y, d.Mo, d.D) {
			return bad()
		}
		return nil
	case p.lit("TIME"):
		p.parens()
		neg, h, m, s, us, err := parseClock(v)
		if err != nil || d.K != JTime || neg != d.Neg || h != d.H || m != d.Mi || s != d.Se || us != d.Us {
			return bad()
		}
		return nil
	case p.lit("DECIMAL"):
		ps := p.parens()
		if d.K != JDecimal || v != string(AppendDecimalText(nil, d.Neg, []byte(d.IntDig), []byte(d.FracDig))) {
			return bad()
		}
		if ps != fmt.Sprintf("%d,%d", len(d.IntDig)+len(d.FracDig), len(d.FracDig)) {
			return fmt.Errorf("decimal cast (%s), document has %s", ps, d)
		}
		return nil
	}
	return fmt.Errorf("unknown cast at %q", clip([]byte(p.s[p.i:])))
}

func (p *jp) parens() string {
	if !p.lit("(") {
		return ""
	}
	j := strings.IndexByte(p.s[p.i:], ')')
	if j < 0 {
		return ""
	}
	v := strings.ReplaceAll(p.s[p.i:p.i+j], " ", "")
	p.i += j + 1
	return v
}

// CheckJSON says whether the library's text denotes the document.
func CheckJSON(d *Doc, got []byte) error {
	p := &jp{s: string(got)}
	if err := p.value(d, true); err != nil {
		return fmt.Errorf("JSON text %q: %w", clip(got), err)
	}
	p.ws()
	if p.i != len(p.s) {
		return fmt.Errorf("JSON text %q: trailing text at %d", clip(got), p.i)
	}
	return nil
}
