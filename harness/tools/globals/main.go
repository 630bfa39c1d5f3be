// Lists the package-level variables of the files given as an adapter file.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
)

func main() {
	var names []string
	fset := token.NewFileSet()
	for _, p := range os.Args[1:] {
		f, err := parser.ParseFile(fset, p, nil, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					if n.Name != "_" {
						names = append(names, n.Name)
					}
				}
			}
		}
	}
	sort.Strings(names)
	fmt.Println("package crypto\n\nfunc init() {\n\tVerifHooks[\"globals\"] = []interface{}{")
	for _, n := range names {
		fmt.Printf("\t\t&%s,\n", n)
	}
	fmt.Println("\t}\n}")
}
