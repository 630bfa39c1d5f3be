// trace OUTDIR FILE... writes copies of the files of a package that report what an
// observer of control flow and table accesses sees: entries of the functions of the
// arithmetic, branches taken inside them, indices, sizes of big integers. Prints the
// list of points.
//
// Which functions: those whose receiver, parameters or results are elements of the
// field or the group or encoded field elements (the arithmetic), and those that take
// and give only numbers, booleans and byte strings (its helpers). Calls with a
// signature, public key or encoded group element as receiver or parameter, and
// constructors of signatures, work on public data and are left out with all they
// call. Encoding, comparing and printing turn results into public data: inside of
// them only the entries of functions count.
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type ins struct {
	off  int
	text string
	ord  int
}

var (
	fset   = token.NewFileSet()
	info   = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	points []string
	cur    []ins
	off    func(token.Pos) int
)

type lenient struct{ imp types.Importer }

func (l lenient) Import(path string) (*types.Package, error) {
	if l.imp != nil && !strings.Contains(path, ".") {
		if p, err := l.imp.Import(path); err == nil {
			return p, nil
		}
	}
	p := types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	return p, nil
}

func point(p token.Pos, kind string) int {
	x := fset.Position(p)
	points = append(points, fmt.Sprintf("%s:%d:%d %s", filepath.Base(x.Filename), x.Line, x.Column, kind))
	return len(points) - 1
}

func put(p token.Pos, text string) { cur = append(cur, ins{off(p), text, len(cur)}) }

const (
	secret = iota
	arith
	helper
	public
	other
)

var publicTypes = map[string]bool{"Signature": true, "PublicKey": true, "Ed25519EncodedGroupElement": true}
var arithTypes = map[string]bool{"Ed25519FieldElement": true, "Ed25519EncodedFieldElement": true, "Ed25519GroupElement": true, "FieldElements": true}
var declassify = map[string]bool{"Encode": true, "Decode": true, "IsNegative": true, "IsNonZero": true, "Equals": true, "String": true, "SatisfiesCurveEquation": true}

// named types that occur in a type expression
func names(e ast.Expr, f func(string)) {
	ast.Inspect(e, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok {
			f(i.Name)
		}
		return true
	})
}

func kind(fd *ast.FuncDecl) int {
	k := helper
	private := false
	see := func(l *ast.FieldList, result bool) {
		if l == nil {
			return
		}
		for _, x := range l.List {
			names(x.Type, func(n string) {
				private = private || n == "PrivateKey"
				switch {
				case publicTypes[n] && !result:
					k = public
				case k == public:
				case n == "Signature" && fd.Recv == nil: // constructor
					k = public
				case arithTypes[n]:
					k = arith
				case k == arith:
				case n != "big" && n != "Int" && types.Universe.Lookup(n) == nil:
					k = other
				}
			})
		}
	}
	see(fd.Type.Results, true)
	see(fd.Recv, false)
	see(fd.Type.Params, false)
	if private && k == public {
		k = other
	}
	return k
}

func main() {
	out := os.Args[1]
	var files []*ast.File
	for _, p := range os.Args[2:] {
		f, err := parser.ParseFile(fset, p, nil, parser.ParseComments)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		files = append(files, f)
		ast.Inspect(f, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt, *ast.ChanType:
				fmt.Fprintln(os.Stderr, "goroutines or channels in the package:", fset.Position(n.Pos()))
				os.Exit(3)
			}
			return true
		})
	}
	conf := types.Config{Importer: lenient{importer.ForCompiler(fset, "source", nil)}, Error: func(error) {}}
	conf.Check(files[0].Name.Name, fset, files, info)
	for i, f := range files {
		name := os.Args[2+i]
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		cur = nil
		base := fset.File(f.Pos())
		off = func(p token.Pos) int { return base.Offset(p) }
		put(f.Name.End(), "; import vtrace \"verifharness/vtrace\"")
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || (fd.Recv == nil && fd.Name.Name == "init") {
				continue
			}
			k := kind(fd)
			head := ""
			switch {
			case k == public:
				put(fd.Body.Lbrace+1, " defer vtrace.Public()();")
				continue
			case k == other:
				continue
			}
			head = fmt.Sprintf(" vtrace.Call(%d);", point(fd.Pos(), "entering "+fd.Name.Name))
			if declassify[fd.Name.Name] {
				put(fd.Body.Lbrace+1, head+" defer vtrace.Plain()();")
				continue
			}
			put(fd.Body.Lbrace+1, head)
			body(fd.Body)
		}
		sort.SliceStable(cur, func(a, b int) bool { return cur[a].off < cur[b].off })
		var sb strings.Builder
		sb.WriteString("//go:build go1.21\n\n") // generic functions are used
		last := 0
		for _, x := range cur {
			sb.Write(src[last:x.off])
			sb.WriteString(x.text)
			last = x.off
		}
		sb.Write(src[last:])
		sb.WriteString("\nvar _ = vtrace.Call\n")
		if i == 0 {
			sb.WriteString("\nfunc init() { vtrace.Points = verifTracePoints }\n")
			// the number is only known at the end
		}
		if err := os.WriteFile(filepath.Join(out, filepath.Base(name)), []byte(sb.String()), 0o644); err != nil {
			panic(err)
		}
	}
	first := filepath.Join(out, filepath.Base(os.Args[2]))
	b, _ := os.ReadFile(first)
	os.WriteFile(first, append(b, []byte(fmt.Sprintf("\nconst verifTracePoints = %d\n", len(points)))...), 0o644)
	os.WriteFile(filepath.Join(out, "points.txt"), []byte(strings.Join(points, "\n")), 0o644)
	fmt.Println(len(points))
}

func body(b ast.Node) {
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.IfStmt:
			put(x.Body.Lbrace+1, fmt.Sprintf(" vtrace.Block(%d);", point(x.Pos(), "if")))
		case *ast.ForStmt:
			put(x.Body.Lbrace+1, fmt.Sprintf(" vtrace.Block(%d);", point(x.Pos(), "loop")))
		case *ast.RangeStmt:
			put(x.Body.Lbrace+1, fmt.Sprintf(" vtrace.Block(%d);", point(x.Pos(), "loop")))
		case *ast.CaseClause:
			put(x.Colon+1, fmt.Sprintf(" vtrace.Block(%d);", point(x.Pos(), "case")))
		case *ast.BinaryExpr:
			if tv := info.Types[x]; (x.Op == token.LAND || x.Op == token.LOR) && tv.Value == nil {
				put(x.Y.Pos(), fmt.Sprintf("vtrace.Right(%d, ", point(x.Y.Pos(), "right operand")))
				put(x.Y.End(), ")")
			}
		case *ast.IndexExpr:
			tv, ok := info.Types[x.X]
			iv, ok2 := info.Types[x.Index]
			if !ok || !ok2 || iv.Value != nil || iv.Type == nil || !isInt(iv.Type) || !indexable(tv.Type) {
				return true
			}
			put(x.Index.Pos(), fmt.Sprintf("vtrace.Index(%d, ", point(x.Pos(), "index")))
			put(x.Index.End(), ")")
		case *ast.SliceExpr:
			for _, e := range []ast.Expr{x.Low, x.High, x.Max} {
				if e == nil {
					continue
				}
				if iv, ok := info.Types[e]; ok && iv.Value == nil && iv.Type != nil && isInt(iv.Type) {
					put(e.Pos(), fmt.Sprintf("vtrace.Index(%d, ", point(e.Pos(), "slice bound")))
					put(e.End(), ")")
				}
			}
		case *ast.CallExpr:
			s, ok := x.Fun.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			sel := info.Selections[s]
			if sel == nil || sel.Obj().Pkg() == nil || sel.Obj().Pkg().Path() != "math/big" {
				return true
			}
			if tv, ok := info.Types[x]; !ok || tv.Type == nil || !strings.HasSuffix(tv.Type.String(), "math/big.Int") {
				return true
			}
			put(x.Pos(), fmt.Sprintf("vtrace.Big(%d, ", point(x.Pos(), "big integer")))
			put(x.End(), ")")
		}
		return true
	})
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUntyped == 0
}

func indexable(t types.Type) bool {
	if t == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	switch t.Underlying().(type) {
	case *types.Slice, *types.Array, *types.Basic:
		return true
	}
	return false
}
