// Package fm is a MySQL master that lives in memory: a net.Conn whose Write
// answers the client protocol inline and whose Read delivers what the script
// of the binlog dump says. The "mem" network is registered with the driver.
package fm

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"time"

	"github.com/Breeze0806/mysql"
)

// End says how the dump script ends.
type End int

// Ends of a dump.
const (
	EndEOF    End = iota // EOF packet, connection stays open
	EndERR               // error packet, connection stays open
	EndClose             // orderly close by the peer
	EndReset             // transport error
	EndHang              // nothing more; the read blocks until the client closes
	EndTrunc             // half a packet, then orderly close
	EndSeq               // a packet with a wrong sequence number, then silence
	EndEmpty             // a packet of no bytes, then silence
	EndHeader            // half a packet header, then orderly close
	EndSeqBack           // a packet with the sequence number of the one before, then silence
)

// Script is what the master sends after a dump request.
type Script struct {
	Packets [][]byte // event bytes, without the leading OK byte
	Raw     [][]byte // when set, raw protocol payloads instead of events
	End     End
	ErrCode uint16
	ErrMsg  string
	NoState bool  // the error packet has no SQL state
	ReadErr error // what EndReset reads
	Chunk   int   // bytes handed out per Read (0: as many as fit)
	// Pause is how long the master is silent before packet i (the end of the
	// script included), Lag how long before each further piece of a packet.
	Pause func(i int) time.Duration
	Lag   time.Duration
	// OnPacket runs (on the reading goroutine) just before the first byte of
	// packet i is handed out; i == len(packets) is the end of the script.
	OnPacket func(i int)
	OnLost   func() // called, with the connection locked, whenever a Read reports the end of the transport
}

// Request is a decoded client command.
type Request struct {
	Cmd      byte
	Query    string
	Pos      uint32
	Flags    uint16
	ServerID uint32
	File     string
	Seq      byte
}

// Fault makes the connection misbehave before the dump.
type Fault struct {
	DialErr    error
	DialHang   bool // the dial returns once its context is done
	GreetERR   bool // error packet instead of a greeting
	GreetDrop  bool // close instead of a greeting
	GreetHang  bool
	AuthERR    bool
	AuthDrop   bool
	AuthHang   bool
	QueryERR   bool // error packet to the first COM_QUERY
	QueryDrop  bool
	QueryHang  bool
	DumpWrErr  bool // the write of the dump request fails
	QueryWrErr bool
}

// Master is one simulated master.
type Master struct {
	Addr string
	// Dump returns the script for a dump request (attempt counts from 0).
	Dump  func(attempt int, r Request) *Script
	Fault func(attempt int) Fault
	// Hook, when set, is told about connection operations (controlled mode).
	Hook Hook

	mu    sync.Mutex
	conns []*Conn
}

// Hook lets a controlled scheduler see the operations of a connection.
type Hook interface {
	Dial(ctx context.Context, c *Conn)
	Dialed(c *Conn)
	Read(c *Conn)
	Write(c *Conn)
	Close(c *Conn)
}

var (
	masters sync.Map
	once    sync.Once
)

// Register makes the master reachable; its DSN is DSN().
func Register(m *Master) {
	once.Do(func() {
		mysql.RegisterDialContext("mem", func(ctx context.Context, addr string) (net.Conn, error) {
			v, ok := masters.Load(addr)
			if !ok {
				return nil, fmt.Errorf("mem: no master at %s", addr)
			}
			return v.(*Master).dial(ctx)
		})
	})
	masters.Store(m.Addr, m)
}

// Unregister forgets it.
func Unregister(m *Master) { masters.Delete(m.Addr) }

// DSN for the master.
func (m *Master) DSN() string { return "u:p@mem(" + m.Addr + ")/db" }

// Conns lists the connections made so far.
func (m *Master) Conns() []*Conn {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]*Conn(nil), m.conns...)
}

// RawConns is Conns for a controller, without synchronisation.
//
//go:norace
func (m *Master) RawConns() []*Conn { return m.conns }

// Reset forgets past connections.
func (m *Master) Reset() {
	m.mu.Lock()
	m.conns = nil
	m.mu.Unlock()
}

func (m *Master) dial(ctx context.Context) (net.Conn, error) {
	m.mu.Lock()
	c := &Conn{m: m, attempt: len(m.conns)}
	m.conns = append(m.conns, c)
	m.mu.Unlock()
	c.cond = sync.NewCond(&c.mu)
	if m.Fault != nil {
		c.fault = m.Fault(c.attempt)
	}
	if m.Hook != nil {
		m.Hook.Dial(ctx, c)
	}
	if c.fault.DialHang {
		<-ctx.Done()
	}
	if ctx.Err() != nil {
		c.Dead = true
		c.closed = true
		return nil, ctx.Err()
	}
	if c.fault.DialErr != nil {
		c.Dead = true
		c.closed = true
		return nil, c.fault.DialErr
	}
	if m.Hook != nil {
		m.Hook.Dialed(c)
	}
	switch {
	case c.fault.GreetERR:
		c.out = packet(c.out, 0, errPayload(1040, "Too many connections"))
	case c.fault.GreetDrop:
		c.rerr = io.EOF
	case c.fault.GreetHang:
	default:
		c.out = packet(c.out, 0, greeting())
	}
	return c, nil
}

// Conn is the client side of one connection.
type Conn struct {
	m       *Master
	attempt int
	fault   Fault
	// Dead is set when the dial itself failed.
	Dead bool

	mu     sync.Mutex
	cond   *sync.Cond
	in     []byte // bytes written by the client, not yet a whole packet
	out    []byte // bytes for the client
	rerr   error  // after out is drained
	authed bool
	nquery int
	reqs   []Request
	script *Script
	next   int // next packet of the script
	seq    byte
	closed bool
	peer   bool // peer-side has closed
	Quit   bool
	reads  int
	until  time.Time // silent until then
	paused int       // packets whose pause has begun
	rdl    time.Time // read deadline
	wdl    time.Time // write deadline
}

// ErrReset is the transport failure of EndReset.
var ErrReset = errors.New("connection reset by peer: injected transport failure")

// ErrWrite is an injected write failure.
var ErrWrite = errors.New("broken pipe: injected write failure")

var errUseClosed = errors.New("use of closed network connection")

func packet(b []byte, seq byte, payload []byte) []byte {
	for {
		n := len(payload)
		if n > 0xffffff {
			n = 0xffffff
		}
		b = append(b, byte(n), byte(n>>8), byte(n>>16), seq)
		b = append(b, payload[:n]...)
		payload = payload[n:]
		seq++
		if n < 0xffffff {
			return b
		}
	}
}

func greeting() []byte {
	b := []byte{10}
	b = append(b, "5.7.30-log\x00"...)
	b = append(b, 1, 0, 0, 0)
	b = append(b, "abcdefgh\x00"...)
	caps := uint32(0x0001 | 0x0004 | 0x0008 | 0x0200 | 0x2000 | 0x8000 | 0x80000 | 0x200000 | 0x1000000)
	b = append(b, byte(caps), byte(caps>>8))
	b = append(b, 33, 2, 0)
	b = append(b, byte(caps>>16), byte(caps>>24))
	b = append(b, 21)
	b = append(b, make([]byte, 10)...)
	b = append(b, "ijklmnopqrst\x00"...)
	return append(b, "mysql_native_password\x00"...)
}

func errPayload(code uint16, msg string) []byte {
	b := []byte{0xff, byte(code), byte(code >> 8), '#'}
	b = append(b, "HY000"...)
	return append(b, msg...)
}

var okPayload = []byte{0, 0, 0, 2, 0, 0, 0}

// EOFPayload is an EOF packet.
var EOFPayload = []byte{0xfe, 0, 0, 2, 0}

// Ready tells (without blocking) whether a Read would return.
func (c *Conn) Ready() bool {
	if !c.mu.TryLock() {
		return true
	}
	defer c.mu.Unlock()
	return c.readyLocked()
}

// ReadyRaw is Ready without any synchronisation, for a controller that looks
// while everything else is parked and must not order their accesses.
//
//go:norace
func (c *Conn) ReadyRaw() bool {
	if c.closed || len(c.out) > 0 || c.rerr != nil || late(c.rdl) {
		return true
	}
	s := c.script
	if s == nil {
		return false
	}
	n := len(s.Packets)
	if s.Raw != nil {
		n = len(s.Raw)
	}
	return c.next < n || c.next == n && s.End != EndHang
}

func (c *Conn) readyLocked() bool {
	if c.closed || len(c.out) > 0 || c.rerr != nil || late(c.rdl) {
		return true
	}
	if c.script != nil {
		return c.next < c.npackets() || c.next == c.npackets() && c.script.End != EndHang
	}
	return false
}

func (c *Conn) npackets() int {
	if c.script.Raw != nil {
		return len(c.script.Raw)
	}
	return len(c.script.Packets)
}

// Read implements net.Conn.
func (c *Conn) Read(p []byte) (int, error) {
	if h := c.m.Hook; h != nil {
		h.Read(c)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.reads++
	for {
		if c.closed {
			return 0, &net.OpError{Op: "read", Net: "mem", Err: errUseClosed}
		}
		if late(c.rdl) {
			return 0, &net.OpError{Op: "read", Net: "mem", Err: os.ErrDeadlineExceeded}
		}
		if c.silent() {
			c.cond.Wait()
			continue
		}
		if len(c.out) == 0 && c.script != nil && c.rerr == nil {
			c.advance()
			if c.closed {
				continue
			}
		}
		if len(c.out) > 0 {
			n := len(p)
			if c.script != nil && c.script.Chunk > 0 && n > c.script.Chunk {
				n = c.script.Chunk
			}
			n = copy(p[:n], c.out)
			c.out = c.out[n:]
			if c.script != nil && c.script.Lag > 0 && len(c.out) > 0 {
				c.hush(c.script.Lag)
			}
			return n, nil
		}
		if c.rerr != nil {
			if c.script != nil && c.script.OnLost != nil {
				c.script.OnLost()
			}
			return 0, c.rerr
		}
		c.cond.Wait()
	}
}

// hush makes the master silent for d.
func (c *Conn) hush(d time.Duration) {
	c.until = time.Now().Add(d)
	time.AfterFunc(d, c.wake)
}

func (c *Conn) wake() {
	c.mu.Lock()
	c.cond.Broadcast()
	c.mu.Unlock()
}

// silent tells whether the master says nothing now.
func (c *Conn) silent() bool {
	s := c.script
	if s != nil && s.Pause != nil && len(c.out) == 0 && c.rerr == nil && c.paused == c.next && c.next <= c.npackets() {
		c.paused++
		if d := s.Pause(c.next); d > 0 {
			c.hush(d)
		}
	}
	return !c.until.IsZero() && time.Now().Before(c.until)
}

func late(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

// advance puts the next packet of the script into out. c.mu is held, and is
// let go around OnPacket.
func (c *Conn) advance() {
	s := c.script
	i := c.next
	if i > c.npackets() {
		return
	}
	if s.OnPacket != nil {
		c.next++
		c.mu.Unlock()
		s.OnPacket(i)
		c.mu.Lock()
	} else {
		c.next++
	}
	if c.closed {
		return
	}
	if i < c.npackets() {
		var pl []byte
		if s.Raw != nil {
			pl = s.Raw[i]
		} else {
			pl = append([]byte{0}, s.Packets[i]...)
		}
		c.out = packet(c.out[:0:0], c.seq, pl)
		c.seq += byte(1 + len(pl)/0xffffff)
		return
	}
	switch s.End {
	case EndEOF:
		c.out = packet(nil, c.seq, EOFPayload)
		c.rerr = nil
	case EndERR:
		pl := errPayload(s.ErrCode, s.ErrMsg)
		if s.NoState {
			pl = append(pl[:3:3], s.ErrMsg...)
		}
		c.out = packet(nil, c.seq, pl)
	case EndClose:
		c.rerr = io.EOF
	case EndReset:
		c.rerr = &net.OpError{Op: "read", Net: "mem", Err: ErrReset}
		if s.ReadErr != nil {
			c.rerr = s.ReadErr
		}
	case EndSeq:
		c.out = packet(nil, c.seq+1, append([]byte{0}, make([]byte, 60)...))
	case EndSeqBack:
		c.out = packet(nil, c.seq-1, append([]byte{0}, make([]byte, 60)...))
	case EndEmpty:
		c.out = packet(nil, c.seq, nil)
	case EndHeader:
		c.out = packet(nil, c.seq, make([]byte, 60))[:2]
		c.rerr = io.EOF
	case EndTrunc:
		c.out = packet(nil, c.seq, make([]byte, 60))[:31]
		c.rerr = io.EOF
	}
	c.seq++
}

// Write implements net.Conn: it answers complete client packets inline.
func (c *Conn) Write(p []byte) (int, error) {
	if h := c.m.Hook; h != nil {
		h.Write(c)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, &net.OpError{Op: "write", Net: "mem", Err: errUseClosed}
	}
	if late(c.wdl) {
		return 0, &net.OpError{Op: "write", Net: "mem", Err: os.ErrDeadlineExceeded}
	}
	if c.rerr != nil && c.rerr != io.EOF {
		return 0, &net.OpError{Op: "write", Net: "mem", Err: ErrWrite}
	}
	c.in = append(c.in, p...)
	for len(c.in) >= 4 {
		n := int(c.in[0]) | int(c.in[1])<<8 | int(c.in[2])<<16
		if len(c.in) < 4+n {
			break
		}
		seq, pl := c.in[3], append([]byte(nil), c.in[4:4+n]...)
		c.in = append([]byte(nil), c.in[4+n:]...)
		if err := c.command(seq, pl); err != nil {
			return 0, err
		}
	}
	c.cond.Broadcast()
	return len(p), nil
}

func (c *Conn) reply(seq byte, payload []byte) { c.out = packet(c.out, seq, payload) }

func (c *Conn) command(seq byte, pl []byte) error {
	if !c.authed {
		c.authed = true
		switch {
		case c.fault.AuthERR:
			c.reply(seq+1, errPayload(1045, "Access denied for user 'u'"))
		case c.fault.AuthDrop:
			c.rerr = io.EOF
		case c.fault.AuthHang:
		default:
			c.reply(seq+1, okPayload)
		}
		return nil
	}
	if len(pl) == 0 {
		return nil
	}
	r := Request{Cmd: pl[0], Seq: seq}
	switch pl[0] {
	case 1: // COM_QUIT
		c.Quit = true
		c.reqs = append(c.reqs, r)
		if c.rerr == nil {
			c.rerr = io.EOF
		}
		return nil
	case 3:
		r.Query = string(pl[1:])
		c.reqs = append(c.reqs, r)
		n := c.nquery
		c.nquery++
		if n == 0 {
			switch {
			case c.fault.QueryWrErr:
				return &net.OpError{Op: "write", Net: "mem", Err: ErrWrite}
			case c.fault.QueryERR:
				c.reply(seq+1, errPayload(1193, "Unknown system variable 'binlog_checksum'"))
				return nil
			case c.fault.QueryDrop:
				c.rerr = io.EOF
				return nil
			case c.fault.QueryHang:
				return nil
			}
		}
		if len(r.Query) > 6 && (r.Query[:6] == "SELECT" || r.Query[:6] == "select") {
			c.reply(seq+1, []byte{1})
			col := []byte{3, 'd', 'e', 'f', 0, 0, 0, 1, 'v', 0, 12, 33, 0, 255, 0, 0, 0, 253, 0, 0, 0, 0, 0}
			c.reply(seq+2, col)
			c.reply(seq+3, EOFPayload)
			c.reply(seq+4, append([]byte{8}, "67108864"...))
			c.reply(seq+5, EOFPayload)
			return nil
		}
		c.reply(seq+1, okPayload)
	case 0x12:
		if len(pl) >= 11 {
			r.Pos = binary.LittleEndian.Uint32(pl[1:])
			r.Flags = binary.LittleEndian.Uint16(pl[5:])
			r.ServerID = binary.LittleEndian.Uint32(pl[7:])
			r.File = string(pl[11:])
		}
		c.reqs = append(c.reqs, r)
		if c.fault.DumpWrErr {
			return &net.OpError{Op: "write", Net: "mem", Err: ErrWrite}
		}
		c.seq = seq + 1
		if c.m.Dump != nil {
			c.script = c.m.Dump(c.attempt, r)
		}
	default:
		c.reqs = append(c.reqs, r)
		c.reply(seq+1, okPayload)
	}
	return nil
}

// Close implements net.Conn.
func (c *Conn) Close() error {
	if h := c.m.Hook; h != nil {
		h.Close(c)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return &net.OpError{Op: "close", Net: "mem", Err: errUseClosed}
	}
	c.closed = true
	c.cond.Broadcast()
	return nil
}

// Closed tells whether the client has closed its side.
func (c *Conn) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// RawState is what a controller may look at while everything is parked.
//
//go:norace
func (c *Conn) RawState() (sent int, reqs int, closed bool) { return c.next, len(c.reqs), c.closed }

// Requests lists what the client asked for.
func (c *Conn) Requests() []Request {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]Request(nil), c.reqs...)
}

// Sent is the number of script packets started so far.
func (c *Conn) Sent() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.next
}

// Wake wakes readers (used after a change of the script).
func (c *Conn) Wake() { c.cond.Broadcast() }

type addr struct{}

func (addr) Network() string { return "mem" }
func (addr) String() string  { return "mem" }

func (c *Conn) LocalAddr() net.Addr  { return addr{} }
func (c *Conn) RemoteAddr() net.Addr { return addr{} }
func (c *Conn) SetDeadline(t time.Time) error {
	c.SetWriteDeadline(t)
	return c.SetReadDeadline(t)
}

// SetReadDeadline makes reads fail from t on.
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	c.rdl = t
	c.cond.Broadcast()
	c.mu.Unlock()
	if !t.IsZero() {
		time.AfterFunc(time.Until(t), c.wake)
	}
	return nil
}

// SetWriteDeadline makes writes fail from t on.
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	c.wdl = t
	c.mu.Unlock()
	return nil
}
