// Package log stands in for the real one.
package log

import (
	"fmt"
	"io"
	real "log"

	"verifsim/rt"
	"verifsim/shim/os"
)

// Logger is a logger whose Fatal ends the simulated process.
type Logger struct{ *real.Logger }

var std *Logger

func init() { rt.RegisterReset(func() { std = New(os.Stderr, "", 0) }) }

// New makes a logger (time stamps come from the simulator and are left out).
func New(w io.Writer, prefix string, flags int) *Logger {
	return &Logger{real.New(w, prefix, flags&^(real.Ldate|real.Ltime|real.Lmicroseconds))}
}

func (l *Logger) SetFlags(flags int) {
	l.Logger.SetFlags(flags &^ (real.Ldate | real.Ltime | real.Lmicroseconds))
}
func (l *Logger) Fatal(v ...any)            { l.Output(2, fmt.Sprint(v...)); os.Exit(1) }
func (l *Logger) Fatalf(f string, v ...any) { l.Output(2, fmt.Sprintf(f, v...)); os.Exit(1) }
func (l *Logger) Fatalln(v ...any)          { l.Output(2, fmt.Sprintln(v...)); os.Exit(1) }

func Default() *Logger             { return std }
func SetOutput(w io.Writer)        { std.SetOutput(w) }
func SetFlags(f int)               { std.SetFlags(f) }
func SetPrefix(p string)           { std.SetPrefix(p) }
func Flags() int                   { return std.Flags() }
func Prefix() string               { return std.Prefix() }
func Writer() io.Writer            { return std.Writer() }
func Output(d int, s string) error { return std.Output(d+1, s) }
func Print(v ...any)               { std.Output(2, fmt.Sprint(v...)) }
func Printf(f string, v ...any)    { std.Output(2, fmt.Sprintf(f, v...)) }
func Println(v ...any)             { std.Output(2, fmt.Sprintln(v...)) }
func Fatal(v ...any)               { std.Fatal(v...) }
func Fatalf(f string, v ...any)    { std.Fatalf(f, v...) }
func Fatalln(v ...any)             { std.Fatalln(v...) }
func Panic(v ...any)               { s := fmt.Sprint(v...); std.Output(2, s); panic(s) }
func Panicf(f string, v ...any)    { s := fmt.Sprintf(f, v...); std.Output(2, s); panic(s) }
func Panicln(v ...any)             { s := fmt.Sprintln(v...); std.Output(2, s); panic(s) }
