// instr OUTDIR FILE... writes copies of the files of a package with a scheduling
// point before every statement that touches memory other goroutines could reach:
// package-level variables, and anything reached through a pointer, slice or map.
// "sync" is replaced by the stand-in of the scheduler, and so are channels, select
// and go statements.
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type ins struct {
	off  int
	text string
	del  int
	kind int // where several begin at one place: points, ends of expressions (inner ones first), beginnings
}

var (
	fset = token.NewFileSet()
	info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	pkg  *types.Package
	id   int
	cur  []ins
)

type lenient struct{ imp types.Importer }

func (l lenient) Import(path string) (*types.Package, error) {
	if l.imp != nil && !strings.Contains(path, ".") {
		if p, err := l.imp.Import(path); err == nil {
			return p, nil
		}
	}
	p := types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	return p, nil
}

func main() {
	out := os.Args[1]
	var files []*ast.File
	var names []string
	for _, p := range os.Args[2:] {
		f, err := parser.ParseFile(fset, p, nil, parser.ParseComments)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		files = append(files, f)
		names = append(names, p)
	}
	conf := types.Config{Importer: lenient{importer.ForCompiler(fset, "source", nil)}, Error: func(error) {}}
	pkg, _ = conf.Check(files[0].Name.Name, fset, files, info)
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.TypeSpec:
				if _, ok := x.Type.(*ast.ChanType); ok {
					refuse(x, "a named type of channels")
				}
			case *ast.RangeStmt:
				if isChan(x.X) && (x.Tok == token.ASSIGN || x.Value != nil) {
					refuse(x, "range over a channel with =")
				}
			}
			return true
		})
	}
	for i, f := range files {
		src, err := os.ReadFile(names[i])
		if err != nil {
			panic(err)
		}
		cur = nil
		base := fset.File(f.Pos())
		off := func(p token.Pos) int { return base.Offset(p) }
		cur = append(cur, ins{off(f.Name.End()), "; import verifsched \"verifharness/sched\"; import verifsync \"verifharness/vsync\"", 0, 0})
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` {
				if im.Name == nil {
					cur = append(cur, ins{off(im.Path.Pos()), `sync "verifharness/vsync"`, len(im.Path.Value), 0})
				} else {
					cur = append(cur, ins{off(im.Path.Pos()), `"verifharness/vsync"`, len(im.Path.Value), 0})
				}
			}
		}
		channels(f, off)
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				block(fd.Body.List, off)
			}
		}
		for a, b := 0, len(cur)-1; a < b; a, b = a+1, b-1 {
			cur[a], cur[b] = cur[b], cur[a]
		}
		// now the ends of inner expressions come before those of outer ones
		sort.SliceStable(cur, func(a, b int) bool {
			return cur[a].off < cur[b].off || cur[a].off == cur[b].off && cur[a].kind < cur[b].kind
		})
		for a := 0; a < len(cur); { // beginnings: outer ones first
			b := a
			for b < len(cur) && cur[b].off == cur[a].off && cur[b].kind == cur[a].kind {
				b++
			}
			if cur[a].kind != 1 {
				for i, j := a, b-1; i < j; i, j = i+1, j-1 {
					cur[i], cur[j] = cur[j], cur[i]
				}
			}
			a = b
		}
		var sb strings.Builder
		sb.WriteString("//go:build go1.21\n\n") // for the type parameters of the stand-ins
		last := 0
		for _, x := range cur {
			sb.Write(src[last:x.off])
			sb.WriteString(x.text)
			last = x.off + x.del
		}
		sb.Write(src[last:])
		sb.WriteString("\nvar _ = verifsched.P\nvar _ verifsync.Mutex\n")
		if err := os.WriteFile(filepath.Join(out, filepath.Base(names[i])), []byte(sb.String()), 0o644); err != nil {
			panic(err)
		}
	}
	fmt.Println(id)
}

func refuse(n ast.Node, what string) {
	fmt.Fprintln(os.Stderr, what+":", fset.Position(n.Pos()))
	os.Exit(3)
}

func isChan(e ast.Expr) bool {
	tv, ok := info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

// channels replaces channel types and operations, select and go statements.
func channels(f *ast.File, off func(token.Pos) int) {
	put := func(from, to token.Pos, text string) {
		cur = append(cur, ins{off(from), text, off(to) - off(from), 2})
	}
	putEnd := func(from, to token.Pos, text string) {
		cur = append(cur, ins{off(from), text, off(to) - off(from), 1})
	}
	done := map[ast.Node]bool{}
	recv := func(e ast.Expr) *ast.UnaryExpr {
		for {
			p, ok := e.(*ast.ParenExpr)
			if !ok {
				break
			}
			e = p.X
		}
		u, ok := e.(*ast.UnaryExpr)
		if ok && u.Op == token.ARROW {
			return u
		}
		return nil
	}
	seld := 0
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			id, ok := x.Fun.(*ast.Ident)
			if !ok || len(x.Args) == 0 {
				break
			}
			if _, ok := info.Uses[id].(*types.Builtin); !ok {
				break
			}
			switch id.Name {
			case "make":
				if ct, ok := x.Args[0].(*ast.ChanType); ok {
					done[ct] = true
					put(x.Pos(), ct.Value.Pos(), "verifsync.NewChan[")
					if len(x.Args) > 1 {
						putEnd(ct.Value.End(), x.Args[1].Pos(), "](")
					} else {
						putEnd(ct.Value.End(), ct.Value.End(), "](")
					}
				}
			case "close", "len", "cap":
				if isChan(x.Args[0]) {
					put(id.Pos(), id.End(), "verifsync."+strings.ToUpper(id.Name[:1])+id.Name[1:])
				}
			}
		case *ast.ChanType:
			if !done[x] {
				put(x.Begin, x.Value.Pos(), "*verifsync.Chan[")
				putEnd(x.Value.End(), x.Value.End(), "]")
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u := recv(x.Rhs[0]); u != nil && !done[u] {
					done[u] = true
					put(u.OpPos, u.X.Pos(), "(")
					putEnd(u.X.End(), u.X.End(), ").Recv2()")
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !done[x] {
				put(x.OpPos, x.X.Pos(), "(")
				putEnd(x.X.End(), x.X.End(), ").Recv()")
			}
		case *ast.SendStmt:
			if !done[x] {
				put(x.Chan.Pos(), x.Chan.Pos(), "(")
				putEnd(x.Chan.End(), x.Value.Pos(), ").Send(")
				putEnd(x.Value.End(), x.Value.End(), ")")
			}
		case *ast.RangeStmt:
			if isChan(x.X) {
				k := "_"
				if x.Key != nil {
					k = x.Key.(*ast.Ident).Name
				}
				put(x.For, x.X.Pos(), "for verifch := ")
				t := k + ", verifok := verifch.Recv2()"
				putEnd(x.X.End(), x.Body.Lbrace+1, "; ; { "+t+"; if !verifok { break }; ")
			}
		case *ast.SelectStmt:
			seld++
			ch := fmt.Sprintf("verifsel%d", seld)
			dflt := false
			var cases []string
			src := func(a, b token.Pos) string {
				t, _ := os.ReadFile(fset.Position(f.Pos()).Filename)
				return string(t[off(a):off(b)])
			}
			k := 0
			for _, s := range x.Body.List {
				c := s.(*ast.CommClause)
				if c.Comm == nil {
					dflt = true
					put(c.Case, c.Colon+1, "default:")
					continue
				}
				ast.Inspect(c.Comm, func(m ast.Node) bool {
					if m != nil {
						done[m] = true
					}
					return true
				})
				t := fmt.Sprintf("case %d:", k)
				k++
				switch y := c.Comm.(type) {
				case *ast.SendStmt:
					cases = append(cases, "verifsync.SendCase("+src(y.Chan.Pos(), y.Chan.End())+", "+src(y.Value.Pos(), y.Value.End())+")")
				case *ast.ExprStmt:
					u := recv(y.X)
					cases = append(cases, "verifsync.RecvCase("+src(u.X.Pos(), u.X.End())+", "+ch+")")
				case *ast.AssignStmt:
					u := recv(y.Rhs[0])
					cases = append(cases, "verifsync.RecvCase("+src(u.X.Pos(), u.X.End())+", "+ch+")")
					take := ".Take("
					if len(y.Lhs) == 2 {
						take = ".Take2("
					}
					t += src(y.Lhs[0].Pos(), y.Lhs[len(y.Lhs)-1].End()) + " " + y.Tok.String() + " (" + src(u.X.Pos(), u.X.End()) + ")" + take + ch + ");"
				}
				put(c.Case, c.Colon+1, t)
			}
			put(x.Select, x.Body.Lbrace, fmt.Sprintf("switch %s := new(verifsync.Chosen); verifsync.Select(%s, %v, %s).I ", ch, ch, dflt, strings.Join(cases, ", ")))
		case *ast.GoStmt:
			if _, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
				put(x.Go, x.Call.Fun.Pos(), "verifsched.Go(")
				putEnd(x.Call.Fun.End(), x.Call.End(), ")")
				break
			}
			var names []string
			for i := range x.Call.Args {
				names = append(names, fmt.Sprintf("verifarg%d", i))
			}
			put(x.Go, x.Call.Fun.Pos(), "{ veriff"+strings.Join(append([]string{""}, names...), ", ")+" := ")
			args := strings.Join(names, ", ")
			if x.Call.Ellipsis.IsValid() {
				args += "..."
			}
			end := "; verifsched.Go(func() { veriff(" + args + ") }) }"
			if len(names) == 0 {
				putEnd(x.Call.Fun.End(), x.Call.End(), end)
			} else {
				putEnd(x.Call.Fun.End(), x.Call.Args[0].Pos(), ", ")
				putEnd(x.Call.Args[len(names)-1].End(), x.Call.End(), end)
			}
		}
		return true
	})
}

func block(list []ast.Stmt, off func(token.Pos) int) {
	for _, s := range list {
		stmt(s, off, true)
	}
}

// stmt puts a point before the statement, if it needs one, and goes into nested blocks.
func stmt(s ast.Stmt, off func(token.Pos) int, inList bool) {
	if inList && touches(s) {
		id++
		cur = append(cur, ins{off(s.Pos()), fmt.Sprintf("verifsched.P(%d); ", id), 0, 0})
	}
	switch x := s.(type) {
	case *ast.BlockStmt:
		block(x.List, off)
	case *ast.IfStmt:
		block(x.Body.List, off)
		if x.Else != nil {
			stmt(x.Else, off, false)
		}
	case *ast.ForStmt:
		block(x.Body.List, off)
	case *ast.RangeStmt:
		block(x.Body.List, off)
	case *ast.SwitchStmt:
		for _, c := range x.Body.List {
			block(c.(*ast.CaseClause).Body, off)
		}
	case *ast.TypeSwitchStmt:
		for _, c := range x.Body.List {
			block(c.(*ast.CaseClause).Body, off)
		}
	case *ast.SelectStmt:
		for _, c := range x.Body.List {
			block(c.(*ast.CommClause).Body, off)
		}
	case *ast.LabeledStmt:
		stmt(x.Stmt, off, false)
	}
	// function literals in the statement
	ast.Inspect(s, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.BlockStmt:
			return false
		case *ast.FuncLit:
			block(y.Body.List, off)
			return false
		}
		return true
	})
}

// touches: does the statement itself (without nested blocks and function
// literals) read or write memory that may be shared?
func touches(s ast.Stmt) (yes bool) {
	if l, ok := s.(*ast.LabeledStmt); ok {
		return touches(l.Stmt)
	}
	ast.Inspect(s, func(n ast.Node) bool {
		if yes || n == nil {
			return false
		}
		switch x := n.(type) {
		case *ast.BlockStmt:
			return n == ast.Node(s)
		case *ast.FuncLit:
			return false
		case *ast.CaseClause:
			return false
		case *ast.Ident:
			if v, ok := info.Uses[x].(*types.Var); ok && pkg != nil && v.Parent() == pkg.Scope() {
				yes = true
			}
			if p, ok := info.Uses[x].(*types.PkgName); ok && p.Imported().Path() == "sync/atomic" {
				yes = true
			}
			if b, ok := info.Uses[x].(*types.Builtin); ok && (b.Name() == "copy" || b.Name() == "append" || b.Name() == "delete" || b.Name() == "clear") {
				yes = true
			}
		case *ast.StarExpr:
			if tv, ok := info.Types[x]; !ok || !tv.IsType() {
				yes = true
			}
		case *ast.SelectorExpr:
			if sel := info.Selections[x]; sel != nil {
				if sel.Kind() == types.FieldVal && (isPtr(sel.Recv()) || sel.Indirect()) {
					yes = true
				}
			} else if i, ok := x.X.(*ast.Ident); ok {
				if _, isPkg := info.Uses[i].(*types.PkgName); !isPkg {
					yes = true
				}
			}
		case *ast.IndexExpr:
			yes = yes || sharedIndex(x.X)
		case *ast.RangeStmt:
			yes = yes || sharedIndex(x.X)
		case *ast.UnaryExpr:
			yes = yes || x.Op == token.ARROW
		case *ast.SendStmt, *ast.SelectStmt:
			yes = true
		}
		return !yes
	})
	return
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func sharedIndex(e ast.Expr) bool {
	tv, ok := info.Types[e]
	if !ok || tv.Type == nil {
		return true
	}
	switch t := tv.Type.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer:
		return true
	case *types.Basic:
		return t.Kind() == types.Invalid
	}
	return false
}
