// Package log is a quiet stand-in for github.com/Breeze0806/go/log, which is
// not available offline. It has the same shape as far as gobinlog uses it, and
// drops every message.
package log

import "io"

// Level is the logging level.
type Level int

// Levels.
const (
	DebugLevel Level = iota
	InfoLevel
	WarnLevel
	ErrorLevel
	PanicLevel
	FatalLevel
)

// Logger is what gobinlog logs to.
type Logger interface {
	Debugf(format string, args ...interface{})
	Infof(format string, args ...interface{})
	Warnf(format string, args ...interface{})
	Warningf(format string, args ...interface{})
	Errorf(format string, args ...interface{})
	Debug(args ...interface{})
	Info(args ...interface{})
	Warn(args ...interface{})
	Error(args ...interface{})
	Print(args ...interface{})
	Printf(format string, args ...interface{})
	Println(args ...interface{})
}

// DefaultLogger drops everything.
type DefaultLogger struct{}

// Debugf drops.
func (DefaultLogger) Debugf(string, ...interface{}) {}

// Infof drops.
func (DefaultLogger) Infof(string, ...interface{}) {}

// Warnf drops.
func (DefaultLogger) Warnf(string, ...interface{}) {}

// Warningf drops.
func (DefaultLogger) Warningf(string, ...interface{}) {}

// Errorf drops.
func (DefaultLogger) Errorf(string, ...interface{}) {}

// Debug drops.
func (DefaultLogger) Debug(...interface{}) {}

// Info drops.
func (DefaultLogger) Info(...interface{}) {}

// Warn drops.
func (DefaultLogger) Warn(...interface{}) {}

// Error drops.
func (DefaultLogger) Error(...interface{}) {}

// Print drops.
func (DefaultLogger) Print(...interface{}) {}

// Printf drops.
func (DefaultLogger) Printf(string, ...interface{}) {}

// Println drops.
func (DefaultLogger) Println(...interface{}) {}

var current Logger = DefaultLogger{}

// NewDefaultLogger returns a quiet logger.
func NewDefaultLogger(w io.Writer, level Level, prefix string) Logger { return DefaultLogger{} }

// SetLogger replaces the current logger.
func SetLogger(l Logger) { current = l }

// GetLogger returns the current logger.
func GetLogger() Logger { return current }
