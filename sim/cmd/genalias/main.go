// genalias writes alias.go for a replacement package: every exported symbol of
// the standard package that the replacement does not define itself.
// Usage: genalias <std import path> <dir of replacement>
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

func main() {
	path, dir := os.Args[1], os.Args[2]
	fset := token.NewFileSet()
	own := map[string]bool{}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	pkgName := ""
	for _, f := range files {
		if filepath.Base(f) == "alias.go" {
			continue
		}
		a, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			panic(err)
		}
		pkgName = a.Name.Name
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					own[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						own[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							own[n.Name] = true
						}
					}
				}
			}
		}
	}
	pkg, err := importer.ForCompiler(fset, "source", nil).Import(path)
	if err != nil {
		panic(err)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Code generated by genalias; DO NOT EDIT.\n\npackage %s\n\nimport std %q\n\n", pkgName, path)
	for _, n := range pkg.Scope().Names() {
		if !ast.IsExported(n) || own[n] {
			continue
		}
		switch o := pkg.Scope().Lookup(n).(type) {
		case *types.TypeName:
			if named, ok := o.Type().(*types.Named); ok && named.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = std.%s\n", n, n)
		case *types.Const:
			fmt.Fprintf(&b, "const %s = std.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = std.%s\n", n, n)
		case *types.Func:
			s := o.Type().(*types.Signature)
			if s.TypeParams().Len() > 0 {
				continue
			}
			if strings.Contains(s.String(), "chan ") {
				continue
			}
			fmt.Fprintf(&b, "var %s = std.%s\n", n, n)
		}
	}
	out, err := format.Source(b.Bytes())
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "alias.go"), out, 0o644); err != nil {
		panic(err)
	}
}
