// mkalias writes simos/alias.go: every exported name of package os which simos does not replace.
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	pkgName, dir := os.Args[1], os.Args[2]
	have := map[string]bool{}
	fset := token.NewFileSet()
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "alias.go") {
			continue
		}
		a, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range a.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil {
					have[x.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range x.Specs {
					switch y := s.(type) {
					case *ast.TypeSpec:
						have[y.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range y.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	p, err := importer.ForCompiler(fset, "source", nil).Import(pkgName)
	if err != nil {
		panic(err)
	}
	var out []string
	base := filepath.Base(pkgName)
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() || have[n] {
			continue
		}
		switch o.(type) {
		case *types.Const:
			out = append(out, fmt.Sprintf("const %s = %s.%s", n, base, n))
		case *types.Var, *types.Func:
			out = append(out, fmt.Sprintf("var %s = %s.%s", n, base, n))
		case *types.TypeName:
			out = append(out, fmt.Sprintf("type %s = %s.%s", n, base, n))
		}
	}
	sort.Strings(out)
	fmt.Printf("// Code generated by tools/mkalias; DO NOT EDIT.\n\npackage %s\n\nimport %q\n\n%s\n", filepath.Base(dir), pkgName, strings.Join(out, "\n"))
}
