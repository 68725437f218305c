// Command genrt writes, for each simulated standard package, a file that
// re-exports whatever the hand-written part of the package does not define.
// usage: genrt RTDIR (the hand-written parts lie in RTDIR/<path>/*.go)
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"log"
	"os"
	"path/filepath"
	"strings"
)

func main() {
	for _, path := range []string{"sync", "sync/atomic", "time", "context", "net", "math/rand", "math/rand/v2", "runtime", "crypto/rand"} {
		dir := filepath.Join(os.Args[1], path)
		out := filepath.Join(dir, "zz_reexport.go")
		os.Remove(out)
		have := map[string]bool{}
		fset := token.NewFileSet()
		pkgs, err := parser.ParseDir(fset, dir, nil, 0)
		if err != nil {
			log.Fatal(err)
		}
		name := ""
		for n, p := range pkgs {
			name = n
			for _, f := range p.Files {
				for _, d := range f.Decls {
					switch d := d.(type) {
					case *ast.FuncDecl:
						if d.Recv == nil {
							have[d.Name.Name] = true
						}
					case *ast.GenDecl:
						for _, s := range d.Specs {
							switch s := s.(type) {
							case *ast.TypeSpec:
								have[s.Name.Name] = true
							case *ast.ValueSpec:
								for _, i := range s.Names {
									have[i.Name] = true
								}
							}
						}
					}
				}
			}
		}
		if name == "" {
			log.Fatalf("%s: no hand-written part", path)
		}
		p, err := importer.ForCompiler(fset, "source", nil).Import(path)
		if err != nil {
			log.Fatal(err)
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "// Code generated by genrt. DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", name, path)
		for _, n := range p.Scope().Names() {
			o := p.Scope().Lookup(n)
			if !o.Exported() || have[n] {
				continue
			}
			switch o := o.(type) {
			case *types.Const:
				fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
			case *types.Var:
				fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					log.Printf("%s.%s: generic function left out", path, n)
					continue
				}
				fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
			case *types.TypeName:
				if t, ok := o.Type().(*types.Named); ok && t.TypeParams().Len() > 0 {
					log.Printf("%s.%s: generic type left out", path, n)
					continue
				}
				fmt.Fprintf(&b, "type %s = real.%s\n", n, n)
			}
		}
		src, err := format.Source(b.Bytes())
		if err != nil {
			log.Fatal(err)
		}
		if !strings.Contains(string(src), "real.") {
			continue
		}
		if err := os.WriteFile(out, src, 0o666); err != nil {
			log.Fatal(err)
		}
	}
}
