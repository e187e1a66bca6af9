// Command genshim writes zz_gen.go into each package below shim/: aliases for
// whatever the hand-written files there do not replace. Its output is
// committed; run it again after a change of the Go version.
package main

import (
	"bytes"
	"fmt"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"go/ast"
)

// osAllow lists what may be taken from the real package os: nothing there
// touches the outside world.
var osAllow = strings.Fields(`DevNull DirEntry ErrClosed ErrDeadlineExceeded ErrExist ErrInvalid ErrNoDeadline ErrNotExist ErrPermission ErrProcessDone
Expand FileInfo FileMode Interrupt IsExist IsNotExist IsPathSeparator IsPermission IsTimeout Kill LinkError ModeAppend ModeCharDevice ModeDevice ModeDir
ModeExclusive ModeIrregular ModeNamedPipe ModePerm ModeSetgid ModeSetuid ModeSocket ModeSticky ModeSymlink ModeTemporary ModeType NewSyscallError
O_APPEND O_CREATE O_EXCL O_RDONLY O_RDWR O_SYNC O_TRUNC O_WRONLY PathError PathListSeparator PathSeparator SEEK_CUR SEEK_END SEEK_SET Signal SyscallError`)

var pkgs = []string{"os", "io/ioutil", "path/filepath", "fmt", "flag", "log", "time", "sync", "math/rand", "math/rand/v2", "crypto/rand", "runtime"}

func main() {
	root := os.Args[1]
	imp := importer.ForCompiler(token.NewFileSet(), "source", nil)
	for _, path := range pkgs {
		p, err := imp.Import(path)
		if err != nil {
			panic(err)
		}
		dir := filepath.Join(root, path)
		have := map[string]bool{}
		es, _ := os.ReadDir(dir)
		for _, e := range es {
			if !strings.HasSuffix(e.Name(), ".go") || e.Name() == "zz_gen.go" {
				continue
			}
			f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, e.Name()), nil, 0)
			if err != nil {
				panic(err)
			}
			for _, d := range f.Decls {
				switch x := d.(type) {
				case *ast.FuncDecl:
					if x.Recv == nil {
						have[x.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range x.Specs {
						switch y := s.(type) {
						case *ast.TypeSpec:
							have[y.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range y.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
		allow := map[string]bool{}
		if path == "os" {
			for _, n := range osAllow {
				allow[n] = true
			}
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "// Code generated by genshim. DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", p.Name(), path)
		used := false
		sc := p.Scope()
		for _, n := range sc.Names() {
			o := sc.Lookup(n)
			if !o.Exported() || have[n] {
				continue
			}
			if path == "os" && !allow[n] {
				continue
			}
			switch x := o.(type) {
			case *types.Const:
				fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
			case *types.TypeName:
				fmt.Fprintf(&b, "type %s = real.%s\n", n, n)
			case *types.Var:
				fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
			case *types.Func:
				if x.Type().(*types.Signature).TypeParams().Len() > 0 {
					panic(path + "." + n + " is generic: write it by hand")
				}
				fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
			}
			used = true
		}
		if !used {
			os.Remove(filepath.Join(dir, "zz_gen.go"))
			continue
		}
		src, err := format.Source(b.Bytes())
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(filepath.Join(dir, "zz_gen.go"), src, 0o644); err != nil {
			panic(err)
		}
	}
}
