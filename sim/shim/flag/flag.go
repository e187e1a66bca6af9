// Package flag stands in for the real one: the command line is that of the
// simulated process, and parse errors end the simulated process.
package flag

import (
	"encoding"
	real "flag"
	"fmt"
	"io"
	"time"

	"verifsim/rt"
	"verifsim/shim/os"
)

// FlagSet is a flag set with simulated exits.
type FlagSet struct {
	*real.FlagSet
	mode real.ErrorHandling
}

// CommandLine is the default set.
var CommandLine *FlagSet

// Usage prints the usage of the command.
var Usage func()

func init() { rt.RegisterReset(reset) }

func reset() {
	name := "xgen"
	if len(os.Args) > 0 {
		name = os.Args[0]
	}
	CommandLine = NewFlagSet(name, real.ExitOnError)
	Usage = func() {
		fmt.Fprintf(CommandLine.Output(), "Usage of %s:\n", name)
		PrintDefaults()
	}
	CommandLine.FlagSet.Usage = func() { Usage() }
}

// NewFlagSet makes a set.
func NewFlagSet(name string, h real.ErrorHandling) *FlagSet {
	f := &FlagSet{real.NewFlagSet(name, real.ContinueOnError), h}
	f.FlagSet.SetOutput(os.Stderr)
	return f
}

// Init sets name and error handling.
func (f *FlagSet) Init(name string, h real.ErrorHandling) {
	f.FlagSet.Init(name, real.ContinueOnError)
	f.mode = h
}

// ErrorHandling returns the mode.
func (f *FlagSet) ErrorHandling() real.ErrorHandling { return f.mode }

// Parse parses; errors are handled as the mode says.
func (f *FlagSet) Parse(args []string) error {
	err := f.FlagSet.Parse(args)
	if err == nil {
		return nil
	}
	switch f.mode {
	case real.ExitOnError:
		if err == real.ErrHelp {
			os.Exit(0)
		}
		os.Exit(2)
	case real.PanicOnError:
		panic(err)
	}
	return err
}

func Parse()                                      { CommandLine.Parse(os.Args[1:]) }
func Parsed() bool                                { return CommandLine.Parsed() }
func Arg(i int) string                            { return CommandLine.Arg(i) }
func Args() []string                              { return CommandLine.Args() }
func NArg() int                                   { return CommandLine.NArg() }
func NFlag() int                                  { return CommandLine.NFlag() }
func PrintDefaults()                              { CommandLine.PrintDefaults() }
func Set(n, v string) error                       { return CommandLine.Set(n, v) }
func Lookup(n string) *real.Flag                  { return CommandLine.Lookup(n) }
func Visit(fn func(*real.Flag))                   { CommandLine.Visit(fn) }
func VisitAll(fn func(*real.Flag))                { CommandLine.VisitAll(fn) }
func Var(v real.Value, n, u string)               { CommandLine.Var(v, n, u) }
func Bool(n string, v bool, u string) *bool       { return CommandLine.Bool(n, v, u) }
func BoolVar(p *bool, n string, v bool, u string) { CommandLine.BoolVar(p, n, v, u) }
func BoolFunc(n, u string, fn func(string) error) { CommandLine.BoolFunc(n, u, fn) }
func Func(n, u string, fn func(string) error)     { CommandLine.Func(n, u, fn) }
func Duration(n string, v time.Duration, u string) *time.Duration {
	return CommandLine.Duration(n, v, u)
}
func DurationVar(p *time.Duration, n string, v time.Duration, u string) {
	CommandLine.DurationVar(p, n, v, u)
}
func Float64(n string, v float64, u string) *float64       { return CommandLine.Float64(n, v, u) }
func Float64Var(p *float64, n string, v float64, u string) { CommandLine.Float64Var(p, n, v, u) }
func Int(n string, v int, u string) *int                   { return CommandLine.Int(n, v, u) }
func IntVar(p *int, n string, v int, u string)             { CommandLine.IntVar(p, n, v, u) }
func Int64(n string, v int64, u string) *int64             { return CommandLine.Int64(n, v, u) }
func Int64Var(p *int64, n string, v int64, u string)       { CommandLine.Int64Var(p, n, v, u) }
func String(n, v, u string) *string                        { return CommandLine.String(n, v, u) }
func StringVar(p *string, n, v, u string)                  { CommandLine.StringVar(p, n, v, u) }
func Uint(n string, v uint, u string) *uint                { return CommandLine.Uint(n, v, u) }
func UintVar(p *uint, n string, v uint, u string)          { CommandLine.UintVar(p, n, v, u) }
func Uint64(n string, v uint64, u string) *uint64          { return CommandLine.Uint64(n, v, u) }
func Uint64Var(p *uint64, n string, v uint64, u string)    { CommandLine.Uint64Var(p, n, v, u) }
func TextVar(p encoding.TextUnmarshaler, n string, v encoding.TextMarshaler, u string) {
	CommandLine.TextVar(p, n, v, u)
}

var _ io.Writer
