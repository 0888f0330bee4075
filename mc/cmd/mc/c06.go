package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"

	"verif/e2e"
	"verif/fm"
	"verif/ref"
	"verif/run"
)

// timeoutErr is a transport failure that calls itself a timeout.
type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// readErrs are the values a failing read may return.
var readErrs = []struct {
	name string
	err  error
}{
	{"io.EOF", io.EOF}, {"io.ErrUnexpectedEOF", io.ErrUnexpectedEOF}, {"io.ErrClosedPipe", io.ErrClosedPipe},
	{"ECONNRESET", &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}},
	{"EPIPE", &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.EPIPE)}},
	{"ETIMEDOUT", &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ETIMEDOUT)}},
	{"net.ErrClosed", &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}},
	{"timeout", timeoutErr{}}, {"os.ErrDeadlineExceeded", os.ErrDeadlineExceeded},
	{"context.Canceled", context.Canceled}, {"wrapped context.Canceled", &net.OpError{Op: "read", Net: "tcp", Err: context.Canceled}},
	{"context.DeadlineExceeded", context.DeadlineExceeded}, {"empty text", errors.New("")},
}

// dumpTexts are what masters say when they end a dump.
var dumpTexts = []string{
	"could not find next log", "Could not find first log file name in binary log index file", "Could not open log file",
	"could not find next log; the first event 'mysql-bin.000001' at 4, the last event read from './mysql-bin.000001' at 123, the last byte read from './mysql-bin.000001' at 123.",
	"Client requested master to start replication from impossible position", "Client requested master to start replication from position > file size",
	"Client requested master to start replication from impossible position; the first event 'mysql-bin.000007' at 1181936, the last event read from './mysql-bin.000007' at 4, the last byte read from './mysql-bin.000007' at 4.",
	"Binary log is not open", "Misconfigured master - server id was not set", "Misconfigured master - master server_id is 0",
	"Cannot replicate because the master purged required binary logs. Replicate the missing transactions from elsewhere, or provision a new slave from backup. Consider increasing the master's binary log expiration period.",
	"The slave is connecting using CHANGE MASTER TO MASTER_AUTO_POSITION = 1, but the master has purged binary logs containing GTIDs that the slave requires.",
	"binlog truncated in the middle of event; consider out of disk space on master", "bogus data in log event", "memory allocation failed reading log event",
	"I/O error reading log event", "error reading log event", "error reading log entry", "failed on my_net_write()", "run 'before_send_event' hook failed",
	"Slave can not handle replication events with the checksum that master is configured to log", "event read from binlog did not pass crc check",
	"A slave with the same server_uuid/server_id as this slave has connected to the master; the first event 'mysql-bin.000001' at 4",
	"A slave with the same server id has connected to this master; killing the dump thread",
	"Server shutdown in progress", "Query execution was interrupted", "Query execution was interrupted, maximum statement execution time exceeded", "Connection was killed",
	"The client was disconnected by the server because of inactivity. See wait_timeout and interactive_timeout for configuring this behavior.",
	"Access denied; you need (at least one of) the REPLICATION SLAVE privilege(s) for this operation", "Got an error reading communication packets",
	"Got timeout reading communication packets", "Out of memory; check if mysqld or some other process uses all available memory", "Lost connection to MySQL server during query",
	"MySQL server has gone away", "Normal shutdown", "Aborted connection", "Got a packet bigger than 'max_allowed_packet' bytes", "Packets out of order", "end of file", "End of binlog", "No more events",
	"Error: connecting slave requested to start from GTID 0-1-5, which is not in the master's binlog", "io.EOF", "unexpected EOF", "EOF packet", "done", "OK", "reached end of binlog event stream", "stop", "use of closed network connection", "context canceled by the server", "killed", "timeout", "read timeout", "connection reset by peer", "broken pipe", "canceled", "shutdown"}

// masterTexts are messages a master may send.
func masterTexts() []string {
	ts := []string{"x", "EOF", "stream reached EOF", "context canceled", "context deadline exceeded", "invalid connection",
		"Could not find first log file name in binary log index file", "100% wrong %s %d %v %!", "%", "a\nb", "\t", "'\"`\\",
		"\u65e5\u5fd7", "\xff\xfe", "#HY000", "<nil>", "nil", "0", " ", "log event entry exceeded max_allowed_packet; Increase max_allowed_packet on master"}
	ts = append(ts, dumpTexts...)
	for _, n := range []int{2, 3, 100, 511, 512, 513, 4080, 4081, 4082, 4083, 4096, 65535, 70000} {
		ts = append(ts, strings.Repeat("m", n-1)+"!")
	}
	for c := 1; c < 256; c++ {
		ts = append(ts, "message "+string([]byte{byte(c)}))
	}
	return ts
}

func c06Units(tier string) []run.Unit {
	th := tier == "thorough"
	var us []run.Unit
	for li, rl := range richLogs() {
		for fi, f := range formats {
			rl, f := rl, f
			if !th && fi != li && fi != 1 {
				continue
			}
			fs := failures(rl.make(f), true)
			for i := range fs {
				i := i
				us = append(us, unit(fmt.Sprintf("%s, %v, first: %s", rl.name, f, fs[i].name), func(u *run.U) {
					r := e2e.NewRig(21, hT.a, hT.b, hT.z)
					defer r.Close()
					l := rl.make(f)
					fs := failures(l, true)
					var seq []int
					u.Cur(func() string {
						d := ""
						for _, x := range seq {
							d += fs[x].name + "; "
						}
						return d
					})
					play := func() {
						s := newStory(u, r, l)
						st := ""
						for _, x := range seq {
							fs[x].run(s)
							st += fmt.Sprint(s.accepted, ",")
							u.State(run.Hash(rl.name, fmt.Sprint(f), st, fs[x].name))
						}
						u.Eval(1)
						u.Trace(1)
						u.Trans(int64(len(seq)))
					}
					seq = []int{i}
					play()
					for j := range fs {
						seq = append(seq[:1], j)
						play()
					}
				}))
			}
		}
	}
	us = append(us, refusalUnits(true)...)
	ops := []hop{opBegin, opXID, opRoll, opInsA, opCreate, opRotate, opCrash}
	us = append(us, histUnits(tier, "reported after", ops, 4, 5, func(u *run.U, r *e2e.Rig, c *hctx, f formatT) {
		fs := failures(c.l, true)
		for i := range fs {
			fs[i].run(newStory(u, r, c.l))
			u.Extra("failures injected into the small histories", 1)
		}
	})...)
	// what the master says
	rl := richLogs()[0]
	codes := []int{0, 1, 1045, 1129, 1158, 1236, 1290, 1317, 1593, 1594, 1792, 2013, 255, 256, 65280, 65535}
	us = append(us, split("messages of the master", 16, func(u *run.U, i, n int) {
		r := e2e.NewRig(21, hT.a, hT.b, hT.z)
		defer r.Close()
		l := rl.make(formats[1])
		ps := mustServe(l)
		var code int
		var text string
		at, state := 0, false
		u.Cur(func() string {
			return fmt.Sprintf("code %d, %d packets sent, SQL state %v, message %.200q", code, at, state, text)
		})
		say := func() {
			s := newStory(u, r, l)
			a := s.attempt("error packet", context.Background(), func(ps []ref.Packet) *fm.Script {
				sc := e2e.ScriptOf(ps[:at], fm.EndERR)
				sc.ErrCode, sc.ErrMsg, sc.NoState = uint16(code), text, !state
				return sc
			}, nil)
			s.lost(a, true, text)
			u.Eval(1)
			u.Trace(1)
			u.Trans(1)
			u.State(run.Hash("say", fmt.Sprint(code, at, state), text))
		}
		for k, t := range masterTexts() {
			if k%n != i {
				continue
			}
			text = t
			for _, state = range []bool{true, false} {
				if !state && strings.HasPrefix(t, "#") {
					continue
				}
				for _, code = range codes {
					for _, at = range []int{0, 2, len(ps) / 2, len(ps)} {
						say()
					}
				}
			}
		}
		text, state = errMasterText, true
		for code = i; code < 65536; code += n {
			at = code / n % (len(ps) + 1)
			say()
		}
	})...)
	// how the transport fails
	us = append(us, split("failures of the transport", 8, func(u *run.U, i, n int) {
		r := e2e.NewRig(21, hT.a, hT.b, hT.z)
		defer r.Close()
		for _, f := range formats {
			for _, rl := range richLogs() {
				l := rl.make(f)
				ps := mustServe(l)
				at, k := 0, 0
				u.Cur(func() string { return fmt.Sprintf("%s, %v: %s after %d packets", rl.name, f, readErrs[k].name, at) })
				for at = i; at <= len(ps); at += n {
					for k = range readErrs {
						s := newStory(u, r, l)
						a := s.attempt(readErrs[k].name, context.Background(), func(ps []ref.Packet) *fm.Script {
							sc := e2e.ScriptOf(ps[:at], fm.EndReset)
							sc.ReadErr = readErrs[k].err
							return sc
						}, nil)
						s.lost(a, false, "")
						u.Eval(1)
						u.Trace(1)
						u.Trans(1)
						u.State(run.Hash("lost", rl.name, fmt.Sprint(f, at, k)))
					}
				}
			}
		}
	})...)
	us = append(us, attemptUnits(th)...)
	us = append(us, rawUnits(formats[1])...)
	return us
}
