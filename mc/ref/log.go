package ref

import (
	"fmt"
	"sort"
	"strings"
)

// Options of a simulated master's log.
type Options struct {
	CRC      bool
	Four     bool // 4-byte table ids
	V2       bool // v2 rows events (needs 6-byte table ids)
	Ver      int  // 51, 56, 57, 80: announced event sizes
	GTID     bool // 33/34 events precede transactions when the builder's Tx helpers are used
	ServerID uint32
	File     string // first file (Names decides when empty)
	Names    int    // how the files of the log are called, see FileName
	Optional []byte // optional table-map metadata
	Extra    []byte // extra row data of v2
	Base     uint64 // offset of the first event after the FDE is Base when larger
	HdrLen   int    // event header length announced by the FDE (0: 19)
	// Head alters the header of event n of the log (-1: a format description).
	Head func(n int, h *Header)
	// Quest alters the fields of query event n, and Mark the flags of the body
	// of a table map or rows event; Xid numbers the XID events.
	Quest func(n int, q *QueryInfo)
	Mark  func(n int, typ byte, flags uint16) uint16
	Xid   func(n int) uint64
}

// QueryInfo is what a query event says besides its statement.
type QueryInfo struct {
	Thread, Exec uint32
	Err          uint16
	Vars         []StatusVar
	Charset      *[3]int32 // in Vars
	DB           string
}

// LogEvent is one event of a log file.
type LogEvent struct {
	Bytes      []byte
	Start, End uint64
	Note       string
	// Done is the number of expected transactions complete once this event
	// has been read.
	Done int
}

// File is one binlog file.
type File struct {
	Name   string
	CRC    bool
	FDE    []byte // with its real positions
	FDEEnd uint64
	Events []LogEvent
}

// Change is one expected change of a transaction.
type Change struct {
	Kind          string // begin, insert, update, delete, create, ... as StatementType names them
	DB, Table     string // of rows changes
	SQL, QueryDB  string
	Charset       *[3]int32
	TS            uint32
	Cols          []Col
	Before, After []Image
	HasBefore     bool
	HasAfter      bool
}

// Tran is one expected transaction.
type Tran struct {
	NowFile  string
	NowOff   int64
	NextFile string
	NextOff  int64
	TS       uint32
	Changes  []Change
	Event    int // ordinal of the commit event over the whole log
}

// Log builds files event by event and keeps the expected transactions.
type Log struct {
	Opt   Options
	Files []*File
	Trans []Tran

	file   string
	off    uint64
	posF   string
	posO   int64
	open   bool
	buf    []Change
	ts     uint32
	nev    int
	quest  QueryInfo // of the last query event
	tables map[uint64]*Table
	gno    int64
	Labels []string // operations, for reports
}

// NewLog starts a log whose first file begins with its FDE.
func NewLog(o Options) *Log {
	if o.Ver == 0 {
		o.Ver = 57
	}
	if o.ServerID == 0 {
		o.ServerID = 1
	}
	if o.File == "" {
		o.File = FileName(o.Names, 1)
	}
	l := &Log{Opt: o, ts: 1600000000, tables: map[uint64]*Table{}}
	l.startFile(o.File)
	l.posF, l.posO = o.File, int64(l.off)
	return l
}

func (l *Log) startFile(name string) {
	f := &File{Name: name, CRC: l.Opt.CRC}
	l.Files = append(l.Files, f)
	l.file, l.off = name, 4
	b := l.fde().Event(Header{Timestamp: l.ts, ServerID: l.Opt.ServerID, NextPos: 4})
	end := 4 + uint64(len(b))
	h := Header{Timestamp: l.ts, ServerID: l.Opt.ServerID, NextPos: uint32(end)}
	if l.Opt.Head != nil {
		l.Opt.Head(-1, &h)
	}
	f.FDE = l.fde().Event(h)
	f.FDEEnd = end
	l.off = end
	if l.Opt.Base > end {
		l.off = l.Opt.Base
	}
}

func (l *Log) fde() FDE {
	alg := byte(CksumOff)
	if l.Opt.CRC {
		alg = CksumCRC32
	}
	hl := l.Opt.HdrLen
	if hl == 0 {
		hl = 19
	}
	v := map[int]string{51: "5.6.10-log", 56: "5.6.33-log", 57: "5.7.30-log", 80: "8.0.23"}[l.Opt.Ver]
	return FDE{BinlogVersion: 4, Server: v, HeaderLen: byte(hl), Sizes: Sizes(l.Opt.Ver, l.Opt.Four), Alg: alg}
}

// StartPos is the position of the first event after the first FDE.
func (l *Log) StartPos() (string, int64) {
	f := l.Files[0]
	if len(f.Events) > 0 {
		return f.Name, int64(f.Events[0].Start)
	}
	return f.Name, int64(f.FDEEnd)
}

// Pos is the current end of the log.
func (l *Log) Pos() (string, int64) { return l.file, int64(l.off) }

// Raw appends an event of any type.
func (l *Log) Raw(typ byte, flags uint16, body []byte, note string) *LogEvent {
	hl := l.Opt.HdrLen
	if hl == 0 {
		hl = 19
	}
	n := uint64(hl + len(body))
	if l.Opt.CRC {
		n += 4
	}
	end := l.off + n
	h := Header{Timestamp: l.ts, Type: typ, ServerID: l.Opt.ServerID, NextPos: uint32(end), Flags: flags}
	if l.Opt.Head != nil {
		l.Opt.Head(l.nev, &h)
	}
	b := EventH(h, body, l.Opt.CRC, hl)
	f := l.Files[len(l.Files)-1]
	f.Events = append(f.Events, LogEvent{Bytes: b, Start: l.off, End: end, Note: note, Done: len(l.Trans)})
	l.off = end
	l.nev++
	return &f.Events[len(f.Events)-1]
}

// Tick advances the event clock.
func (l *Log) Tick() { l.ts++ }

// SetTS sets the timestamp of the following events.
func (l *Log) SetTS(ts uint32) { l.ts = ts }

func (l *Log) commit(ev *LogEvent) {
	l.Trans = append(l.Trans, Tran{NowFile: l.posF, NowOff: l.posO, NextFile: l.file, NextOff: int64(l.off), TS: l.ts, Changes: l.buf, Event: l.nev - 1})
	l.posF, l.posO = l.file, int64(l.off)
	l.buf, l.open = nil, false
	ev.Done = len(l.Trans)
}

// DefaultVars are the status variables a 5.7 master writes.
func DefaultVars() []StatusVar {
	return []StatusVar{
		{0, []byte{0, 0, 0, 0}},
		{1, []byte{0, 0, 0, 0x40, 0, 0, 0, 0}},
		{6, append([]byte{3}, "std"...)},
		{4, []byte{33, 0, 33, 0, 8, 0}},
	}
}

// DefaultCharset is the charset DefaultVars carries.
var DefaultCharset = [3]int32{33, 33, 8}

// Query appends a QUERY event without interpreting it.
func (l *Log) Query(db, sql string) *LogEvent {
	l.Tick()
	cs := DefaultCharset
	q := QueryInfo{Thread: 4, Vars: DefaultVars(), Charset: &cs, DB: db}
	if l.Opt.Quest != nil {
		l.Opt.Quest(l.nev, &q)
	}
	l.quest = q
	return l.Raw(EvQuery, 0, QueryBody(q.Thread, q.Exec, q.Err, q.Vars, q.DB, sql), sql)
}

// Open tells whether a transaction is open.
func (l *Log) Open() bool { return l.open }

// Begin opens a transaction.
func (l *Log) Begin(text string) {
	l.Query("db", text)
	l.open = true
	l.buf = nil
}

// XID commits with an XID event.
func (l *Log) XID() {
	l.Tick()
	x := uint64(l.nev) + 100
	if l.Opt.Xid != nil {
		x = l.Opt.Xid(l.nev)
	}
	l.commit(l.Raw(EvXID, 0, leN(nil, x, 8), "xid"))
}

// Commit commits with a COMMIT query.
func (l *Log) Commit(text string) { l.commit(l.Query("db", text)) }

// Rollback ends the transaction without its changes.
func (l *Log) Rollback(text string) {
	ev := l.Query("db", text)
	l.buf = nil
	l.commit(ev)
}

// Statement appends a DDL, SET or DML statement of the given kind.
func (l *Log) Statement(kind, db, sql string) {
	ev := l.Query(db, sql)
	l.buf = append(l.buf, Change{Kind: kind, SQL: sql, QueryDB: l.quest.DB, Charset: l.quest.Charset, TS: l.ts})
	if !l.open {
		l.commit(ev)
	}
}

// TableMap announces a table.
func (l *Log) TableMap(id uint64, t *Table) {
	l.Tick()
	fl := uint16(1)
	if l.Opt.Mark != nil {
		fl = l.Opt.Mark(l.nev, EvTableMap, fl)
	}
	l.Raw(EvTableMap, 0, TableMapBody(id, l.Opt.Four, fl, t, l.Opt.Optional), "map "+t.DB+"."+t.Name)
	l.tables[id] = t
}

// Rows appends a rows event for an announced table.
func (l *Log) Rows(kind int, id uint64, before, after []Image, stmtEnd bool) {
	l.RowsV(kind, id, before, after, stmtEnd, l.Opt.V2)
}

// RowsV is Rows with an explicit rows event version.
func (l *Log) RowsV(kind int, id uint64, before, after []Image, stmtEnd, v2 bool) {
	l.Tick()
	t := l.tables[id]
	r := &RowsEvent{Kind: kind, V2: v2, TableID: id, Four: l.Opt.Four && !v2, NCols: len(t.Cols), Before: before, After: after}
	if stmtEnd {
		r.Flags = 1
	}
	if l.Opt.Mark != nil {
		r.Flags = l.Opt.Mark(l.nev, 0, r.Flags)
	}
	if r.V2 {
		r.Extra = l.Opt.Extra
	}
	ev := l.Raw(r.EvType(), 0, r.Body(), [...]string{"write ", "update ", "delete "}[kind]+t.DB+"."+t.Name)
	l.buf = append(l.buf, Change{Kind: [...]string{"insert", "update", "delete"}[kind], DB: t.DB, Table: t.Name, TS: l.ts, Cols: t.Cols,
		Before: before, After: after, HasBefore: kind != Write, HasAfter: kind != Delete})
	if !l.open {
		l.commit(ev)
	}
}

// GTID appends a GTID event (or an anonymous one).
func (l *Log) GTID(anon bool) {
	l.Tick()
	l.gno++
	var sid [16]byte
	for i := range sid {
		sid[i] = byte(i * 17)
	}
	typ := byte(EvGTID)
	if anon {
		typ = EvAnonGTID
	}
	l.Raw(typ, 0, GTIDBody(1, sid, l.gno, l.Opt.Ver >= 57), "gtid")
}

// PrevGTIDs appends a PREVIOUS_GTIDS event.
func (l *Log) PrevGTIDs() {
	l.Raw(EvPrevGTIDs, 0, leN(nil, 0, 8), "prev-gtids")
}

// Heartbeat puts a heartbeat on the wire: it takes no room in the file. Its
// position is that of the last event.
func (l *Log) Heartbeat() {
	b := Event(Header{Type: EvHeartbeat, ServerID: l.Opt.ServerID, NextPos: uint32(l.off), Flags: 0}, []byte(l.file), l.Opt.CRC)
	f := l.Files[len(l.Files)-1]
	f.Events = append(f.Events, LogEvent{Bytes: b, Start: l.off, End: l.off, Note: "heartbeat", Done: len(l.Trans)})
	l.nev++
}

// Rotate ends the file and starts the next one.
func (l *Log) Rotate(next string) {
	l.Tick()
	l.Raw(EvRotate, 0, RotateBody(4, next), "rotate "+next)
	l.startFile(next)
	l.posF, l.posO = next, 4
	l.nev++ // the FDE
}

// RotateTo is Rotate to a file with other options (a restarted master).
func (l *Log) RotateTo(next string, o Options) {
	l.Tick()
	l.Raw(EvRotate, 0, RotateBody(4, next), "rotate "+next)
	o.File = l.Opt.File
	if o.Ver == 0 {
		o.Ver = l.Opt.Ver
	}
	if o.ServerID == 0 {
		o.ServerID = l.Opt.ServerID
	}
	o.carry(l.Opt)
	l.Opt = o
	l.startFile(next)
	l.posF, l.posO = next, 4
	l.nev++
}

// carry keeps what alters events across files.
func (o *Options) carry(p Options) {
	if o.Head == nil {
		o.Head = p.Head
	}
	if o.Quest == nil {
		o.Quest = p.Quest
	}
	if o.Mark == nil {
		o.Mark = p.Mark
	}
	if o.Xid == nil {
		o.Xid = p.Xid
	}
}

// Crash ends the file as a killed master does, without an event that says so;
// what comes next is known only from the rotation the master makes up.
func (l *Log) Crash(next string, o Options) {
	l.Tick()
	o.File = l.Opt.File
	o.carry(l.Opt)
	l.Opt = o
	l.startFile(next)
	l.posF, l.posO = next, 4
	l.nev++
}

// FileName is the name of file number i (from 1). Names do not always sort in
// the order of the files: the number outgrows its six digits after 999999, and
// a new base name can sort anywhere. They are all different up to number 4800.
func FileName(names, i int) string {
	switch names {
	case 1:
		return fmt.Sprintf("mysql-bin.%06d", 999998+i)
	case 2:
		return fmt.Sprintf("%s.%06d", []string{"m-bin", "z.bin", "A", "a/b\\é"}[i%4], 1000-400*(i%3)+i/12)
	}
	return fmt.Sprintf("mysql-bin.%06d", i)
}

// Packet is one event the master sends, with what it completes.
type Packet struct {
	Bytes []byte
	Note  string
	Done  int // expected transactions (over the whole log) complete after it
}

// Serve lists what the master sends for a dump request at (file, off).
func (l *Log) Serve(file string, off int64) ([]Packet, error) {
	k := -1
	for i, f := range l.Files {
		if f.Name == file {
			k = i
		}
	}
	if k < 0 {
		return nil, fmt.Errorf("Could not find first log file name in binary log index file: %q", file)
	}
	var out []Packet
	done := 0
	for i := 0; i < k; i++ {
		for _, e := range l.Files[i].Events {
			done = e.Done
		}
	}
	if off < 4 {
		return nil, fmt.Errorf("Client requested master to start replication from position < 4")
	}
	crc := l.Files[k].CRC
	for i := k; i < len(l.Files); i++ {
		f := l.Files[i]
		pos := uint64(4)
		if i == k {
			pos = uint64(off)
		}
		out = append(out, Packet{Event(Header{Type: EvRotate, ServerID: l.Opt.ServerID, Flags: 0x20}, RotateBody(pos, f.Name), crc), "fake-rotate", done})
		crc = f.CRC
		fde := f.FDE
		if pos > 4 {
			fde = append([]byte(nil), fde...)
			for j := 13; j < 17; j++ {
				fde[j] = 0
			}
		}
		out = append(out, Packet{fde, "fde", done})
		if pos > 4 {
			ok := pos == f.FDEEnd
			for _, e := range f.Events {
				ok = ok || e.Start == pos || e.End == pos
			}
			if !ok {
				return nil, fmt.Errorf("position %s:%d is not an event boundary", file, off)
			}
		}
		for _, e := range f.Events {
			if e.Start >= pos || pos <= f.FDEEnd {
				out = append(out, Packet{e.Bytes, e.Note, e.Done})
			}
			done = e.Done
		}
	}
	return out, nil
}

// After lists the expected transactions of a stream that starts at (file, off).
func (l *Log) After(file string, off int64) []Tran {
	idx := map[string]int{}
	for i, f := range l.Files {
		idx[f.Name] = i
	}
	k := sort.Search(len(l.Trans), func(i int) bool {
		t := &l.Trans[i]
		a, b := idx[t.NextFile], idx[file]
		return a > b || a == b && t.NextOff > off
	})
	out := append([]Tran(nil), l.Trans[k:]...)
	return out
}

// Describe lists the events of the log.
func (l *Log) Describe() string {
	var b strings.Builder
	for _, f := range l.Files {
		fmt.Fprintf(&b, "[%s crc=%v]", f.Name, f.CRC)
		for _, e := range f.Events {
			n := e.Note
			if len(n) > 40 {
				n = n[:40] + ".."
			}
			fmt.Fprintf(&b, " %d:%s", e.Start, n)
		}
	}
	return b.String()
}
