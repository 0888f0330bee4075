// Package e2e drives the real Streamer against the in-memory master and
// compares what it delivers with the reference.
package e2e

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"

	"github.com/Breeze0806/go/log"
	"github.com/Breeze0806/gobinlog"

	"verif/fm"
	"verif/ref"
)

func init() { Quiet() }

// Quiet silences the library and its driver.
func Quiet() { gobinlog.SetLogger(log.NewDefaultLogger(nil, log.FatalLevel, "")) }

type column struct {
	name string
	uns  bool
}

func (c column) Field() string       { return c.name }
func (c column) IsUnSignedInt() bool { return c.uns }

// Table is a table the mapper answers with.
type Table struct {
	name gobinlog.MysqlTableName
	cols []gobinlog.MysqlColumn
}

// Name implements gobinlog.MysqlTable.
func (t *Table) Name() gobinlog.MysqlTableName { return t.name }

// Columns implements gobinlog.MysqlTable.
func (t *Table) Columns() []gobinlog.MysqlColumn { return t.cols }

// Mapper answers table lookups from reference tables.
type Mapper struct {
	mu     sync.Mutex
	tables map[gobinlog.MysqlTableName]*Table
	Calls  []gobinlog.MysqlTableName
	// Fail, when set, may fail a lookup.
	Fail func(n int, name gobinlog.MysqlTableName) error
	// Hook runs at the start of every lookup.
	Hook func()
}

// NewMapper makes a mapper for the tables.
func NewMapper(ts ...*ref.Table) *Mapper {
	m := &Mapper{tables: map[gobinlog.MysqlTableName]*Table{}}
	for _, t := range ts {
		m.Set(t)
	}
	return m
}

// Set adds or replaces a table.
func (m *Mapper) Set(t *ref.Table) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.SetLocked(t)
}

// Reset forgets the lookups made.
func (m *Mapper) Reset() {
	m.mu.Lock()
	m.Calls = nil
	m.mu.Unlock()
}

// SetLocked is Set from within Fail.
func (m *Mapper) SetLocked(t *ref.Table) {
	x := &Table{name: gobinlog.NewMysqlTableName(t.DB, t.Name)}
	for _, c := range t.Cols {
		x.cols = append(x.cols, column{c.Name, c.Unsigned})
	}
	m.tables[x.name] = x
}

// ErrMapper is an injected lookup failure.
var ErrMapper = errors.New("injected table lookup failure")

// MysqlTable implements gobinlog.MysqlTableMapper.
func (m *Mapper) MysqlTable(name gobinlog.MysqlTableName) (gobinlog.MysqlTable, error) {
	if m.Hook != nil {
		m.Hook()
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	n := len(m.Calls)
	m.Calls = append(m.Calls, name)
	if m.Fail != nil {
		if err := m.Fail(n, name); err != nil {
			return nil, err
		}
	}
	t, ok := m.tables[name]
	if !ok {
		return nil, fmt.Errorf("no table %s.%s", name.DbName, name.TableName)
	}
	return t, nil
}

// Compare tells how a delivered transaction differs from the expected one.
func Compare(got *gobinlog.Transaction, want *ref.Tran) error {
	if got.NowPosition.Filename != want.NowFile || got.NowPosition.Offset != want.NowOff {
		return fmt.Errorf("start label %v, want %s:%d", got.NowPosition, want.NowFile, want.NowOff)
	}
	if got.NextPosition.Filename != want.NextFile || got.NextPosition.Offset != want.NextOff {
		return fmt.Errorf("end label %v, want %s:%d", got.NextPosition, want.NextFile, want.NextOff)
	}
	return CompareContent(got, want)
}

// CompareContent ignores the labels.
func CompareContent(got *gobinlog.Transaction, want *ref.Tran) error {
	if got.Timestamp != int64(want.TS) {
		return fmt.Errorf("timestamp %d, want %d", got.Timestamp, want.TS)
	}
	if len(got.Events) != len(want.Changes) {
		return fmt.Errorf("%d changes %s, want %d", len(got.Events), kinds(got), len(want.Changes))
	}
	for i, e := range got.Events {
		if err := compareChange(e, &want.Changes[i]); err != nil {
			return fmt.Errorf("change %d: %w", i, err)
		}
	}
	return nil
}

func kinds(t *gobinlog.Transaction) string {
	var b bytes.Buffer
	for _, e := range t.Events {
		if e == nil {
			b.WriteString(" nil")
			continue
		}
		fmt.Fprintf(&b, " %s", e.Type)
	}
	return "[" + b.String() + " ]"
}

func compareChange(e *gobinlog.StreamEvent, w *ref.Change) error {
	if e == nil {
		return errors.New("nil change")
	}
	if e.Type.String() != w.Kind {
		return fmt.Errorf("kind %s, want %s", e.Type, w.Kind)
	}
	if e.Timestamp != int64(w.TS) {
		return fmt.Errorf("timestamp %d, want %d", e.Timestamp, w.TS)
	}
	if w.SQL != "" {
		if e.Query.SQL != w.SQL || e.Query.Database != w.QueryDB {
			return fmt.Errorf("statement %q in %q, want %q in %q", e.Query.SQL, e.Query.Database, w.SQL, w.QueryDB)
		}
		switch c := e.Query.Charset; {
		case (c == nil) != (w.Charset == nil):
			return fmt.Errorf("charset %v, want %v", c, w.Charset)
		case c != nil && (c.Client != w.Charset[0] || c.Conn != w.Charset[1] || c.Server != w.Charset[2]):
			return fmt.Errorf("charset %v, want %v", *c, *w.Charset)
		}
		if len(e.RowValues) != 0 || len(e.RowIdentifies) != 0 {
			return errors.New("statement change with rows")
		}
		return nil
	}
	if e.Query.SQL != "" {
		return fmt.Errorf("rows change with statement %q", e.Query.SQL)
	}
	if e.Table.DbName != w.DB || e.Table.TableName != w.Table {
		return fmt.Errorf("table %v, want %s.%s", e.Table, w.DB, w.Table)
	}
	if err := compareRows(e.RowIdentifies, w.Before, w.HasBefore, w.Cols); err != nil {
		return fmt.Errorf("before images: %w", err)
	}
	if err := compareRows(e.RowValues, w.After, w.HasAfter, w.Cols); err != nil {
		return fmt.Errorf("after images: %w", err)
	}
	return nil
}

func compareRows(got []*gobinlog.RowData, want []ref.Image, has bool, cols []ref.Col) error {
	if !has {
		want = nil
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d rows, want %d", len(got), len(want))
	}
	for r := range got {
		if len(got[r].Columns) != len(cols) {
			return fmt.Errorf("row %d: %d columns, want %d", r, len(got[r].Columns), len(cols))
		}
		for c, x := range got[r].Columns {
			if x.Filed != cols[c].Name {
				return fmt.Errorf("row %d column %d: name %q, want %q", r, c, x.Filed, cols[c].Name)
			}
			if int(x.Type) != int(cols[c].Type) {
				return fmt.Errorf("row %d column %d: type %d, want %d", r, c, int(x.Type), cols[c].Type)
			}
			if err := ref.CheckCell(&want[r][c], x.IsEmpty, x.Data); err != nil {
				return fmt.Errorf("row %d column %d (type %d): %w", r, c, cols[c].Type, err)
			}
		}
	}
	return nil
}

// CompareAll compares a whole delivery.
func CompareAll(got []*gobinlog.Transaction, want []ref.Tran) error {
	for i := range got {
		if i >= len(want) {
			return fmt.Errorf("transaction %d delivered, only %d expected (labels %v..%v, changes %s)", i, len(want), got[i].NowPosition, got[i].NextPosition, kinds(got[i]))
		}
		if err := Compare(got[i], &want[i]); err != nil {
			return fmt.Errorf("transaction %d: %w", i, err)
		}
	}
	if len(got) < len(want) {
		return fmt.Errorf("%d transactions delivered, want %d (missing the one ending at %s:%d)", len(got), len(want), want[len(got)].NextFile, want[len(got)].NextOff)
	}
	return nil
}

var addrs atomic.Int64

// Rig is a master, a streamer and a mapper for one worker.
type Rig struct {
	M        *fm.Master
	Mapper   *Mapper
	S        *gobinlog.Streamer
	ServerID uint32
	DSN      func(addr string) string // nil: the master's
}

// NewRig registers a fresh master.
func NewRig(serverID uint32, ts ...*ref.Table) *Rig {
	r := &Rig{M: &fm.Master{Addr: fmt.Sprintf("m%d", addrs.Add(1))}, Mapper: NewMapper(ts...), ServerID: serverID}
	fm.Register(r.M)
	r.Fresh()
	return r
}

// Fresh makes a new streamer and forgets the master's connections.
func (r *Rig) Fresh() {
	dsn := r.M.DSN()
	if r.DSN != nil {
		dsn = r.DSN(r.M.Addr)
	}
	s, err := gobinlog.NewStreamer(dsn, r.ServerID, r.Mapper)
	if err != nil {
		panic(err)
	}
	r.S = s
	r.M.Reset()
	r.M.Fault = nil
}

// Close unregisters the master.
func (r *Rig) Close() { fm.Unregister(r.M) }

// Attempt is the outcome of one Stream call.
type Attempt struct {
	Trans  []*gobinlog.Transaction // accepted by the handler
	Calls  int
	Err    error // Stream
	ErrErr error // Error()
	Again  error // Error(), called again
	Panic  interface{}
	Reqs   []fm.Request
	// SentAt holds, per handler call, how many script packets had been
	// handed to the client when the handler ran.
	SentAt []int
}

// Dump returns the dump requests.
func (a *Attempt) Dump() []fm.Request {
	var d []fm.Request
	for _, r := range a.Reqs {
		if r.Cmd == 0x12 {
			d = append(d, r)
		}
	}
	return d
}

// ScriptOf makes a script of served packets.
func ScriptOf(ps []ref.Packet, end fm.End) *fm.Script {
	s := &fm.Script{End: end, ErrCode: 1236, ErrMsg: "injected master error: binlog truncated in the middle of event"}
	for _, p := range ps {
		s.Packets = append(s.Packets, p.Bytes)
	}
	return s
}

// ServeLog makes the master serve the log truthfully.
func (r *Rig) ServeLog(l *ref.Log, end fm.End) {
	r.M.Dump = func(_ int, q fm.Request) *fm.Script {
		ps, err := l.Serve(q.File, int64(q.Pos))
		if err != nil {
			return &fm.Script{End: fm.EndERR, ErrCode: 1236, ErrMsg: err.Error()}
		}
		return ScriptOf(ps, end)
	}
}

// ErrHandler is an injected handler failure.
var ErrHandler = errors.New("injected handler failure")

// ErrPanic is what handlers and mappers that panic panic with.
var ErrPanic = errors.New("injected panic")

// Run makes one Stream call; handler, when set, may reject a transaction.
func (r *Rig) Run(ctx context.Context, handler func(n int, t *gobinlog.Transaction) error) (a *Attempt) {
	a = &Attempt{}
	n0 := len(r.M.Conns())
	var conn *fm.Conn
	func() {
		defer func() {
			if p := recover(); p != nil {
				a.Panic = p
			}
		}()
		a.Err = r.S.Stream(ctx, func(t *gobinlog.Transaction) error {
			if conn == nil {
				if cs := r.M.Conns(); len(cs) > n0 {
					conn = cs[len(cs)-1]
				}
			}
			n := a.Calls
			a.Calls++
			if conn != nil {
				a.SentAt = append(a.SentAt, conn.Sent())
			}
			if handler != nil {
				if err := handler(n, t); err != nil {
					return err
				}
			}
			a.Trans = append(a.Trans, t)
			return nil
		})
	}()
	if a.Panic == nil || a.Panic == ErrPanic {
		a.ErrErr = r.S.Error()
		a.Again = r.S.Error()
	}
	if cs := r.M.Conns(); len(cs) > n0 {
		for _, c := range cs[n0:] {
			a.Reqs = append(a.Reqs, c.Requests()...)
		}
	}
	return a
}

// Pos makes a position.
func Pos(f string, o int64) gobinlog.Position { return gobinlog.Position{Filename: f, Offset: o} }
