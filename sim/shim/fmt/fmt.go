// Package fmt stands in for the real one where it touches standard streams.
package fmt

import (
	real "fmt"
	"io"

	"verifsim/shim/os"
)

func Print(a ...any) (int, error)            { return real.Fprint(os.Stdout, a...) }
func Println(a ...any) (int, error)          { return real.Fprintln(os.Stdout, a...) }
func Printf(f string, a ...any) (int, error) { return real.Fprintf(os.Stdout, f, a...) }
func Scan(a ...any) (int, error)             { return 0, io.EOF }
func Scanln(a ...any) (int, error)           { return 0, io.EOF }
func Scanf(f string, a ...any) (int, error)  { return 0, io.EOF }
