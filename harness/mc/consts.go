package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// The constants of the source say where the code may behave differently: the
// lengths at which it changes its way of working, and the texts it knows. The
// exploration takes its bounds from them: lengths next to every number, and
// arguments that begin with, end with or are every text. They select inputs
// only; what the results have to be does not depend on them.
type dictionary struct {
	ints  []int    // 3 .. 1<<18
	large []int    // 1<<18+1 .. 1<<25
	strs  [][]byte // texts, byte lists, and texts of hexadecimal digits decoded
}

var dictMemo *dictionary

func dict() *dictionary {
	if dictMemo == nil {
		dictMemo = readDict()
	}
	return dictMemo
}

type noImporter struct{}

func (noImporter) Import(string) (*types.Package, error) { return nil, fmt.Errorf("not needed") }

func readDict() *dictionary {
	d := &dictionary{}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	names, _ := filepath.Glob(filepath.Join(repo, "*.go"))
	fset := token.NewFileSet()
	var files []*ast.File
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		if f, err := parser.ParseFile(fset, n, nil, 0); err == nil {
			files = append(files, f)
		}
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: noImporter{}, Error: func(error) {}}
	conf.Check("p", fset, files, info)
	ints, strs := map[int]bool{}, map[string]bool{}
	value := func(v constant.Value) {
		switch v.Kind() {
		case constant.Int:
			if n, ok := constant.Int64Val(v); ok && n >= 3 && n <= 1<<25 {
				ints[int(n)] = true
			}
		case constant.Float:
			if n, ok := constant.Int64Val(constant.ToInt(v)); ok && n >= 3 && n <= 1<<25 {
				ints[int(n)] = true
			}
		case constant.String:
			if s := constant.StringVal(v); len(s) >= 1 && len(s) <= 4096 {
				strs[s] = true
			}
		}
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.CompositeLit:
				var b []byte
				for _, e := range x.Elts {
					v := info.Types[e].Value
					if v == nil || v.Kind() != constant.Int {
						b = nil
						break
					}
					n, ok := constant.Int64Val(v)
					if !ok || n < 0 || n > 255 {
						b = nil
						break
					}
					b = append(b, byte(n))
				}
				if len(b) > 1 && len(b) <= 256 {
					strs[string(b)] = true
				}
				// tables of numbers are data and not bounds
				return len(x.Elts) < 9
			case ast.Expr:
				if v := info.Types[x].Value; v != nil {
					value(v)
				}
			}
			return true
		})
	}
	for _, o := range info.Defs {
		if c, ok := o.(*types.Const); ok && c.Val() != nil {
			value(c.Val())
		}
	}
	for n := range ints {
		if n <= 1<<18 {
			d.ints = append(d.ints, n)
		} else {
			d.large = append(d.large, n)
		}
	}
	sort.Ints(d.ints)
	sort.Ints(d.large)
	for s := range strs {
		if b, err := hex.DecodeString(s); err == nil && len(b) > 0 {
			strs[string(b)] = true
		}
	}
	for s := range strs {
		d.strs = append(d.strs, []byte(s))
	}
	sort.Slice(d.strs, func(i, j int) bool { return string(d.strs[i]) < string(d.strs[j]) })
	return d
}

// dictLengths: next to every number of the source and its double, above min
func dictLengths(min int) []int {
	seen := map[int]bool{}
	var r []int
	for _, n := range dict().ints {
		for _, l := range []int{n - 1, n, n + 1, 2 * n} {
			if l > min && l <= 1<<18+1 && !seen[l] {
				seen[l] = true
				r = append(r, l)
			}
		}
	}
	return r
}

// largeLengths: next to the numbers of the source above 2^18, up to 2^25.
func largeLengths() []int {
	seen := map[int]bool{}
	var r []int
	for _, n := range dict().large {
		for _, l := range []int{n - 1, n, n + 1, n + 100} {
			if !seen[l] {
				seen[l] = true
				r = append(r, l)
			}
		}
	}
	return r
}

// dictBytes: values made of base and the constants of the source.
func dictBytes(base []byte, vary bool) [][]byte {
	var r [][]byte
	cat := func(a, b []byte) []byte { return append(append([]byte{}, a...), b...) }
	for _, s := range dict().strs {
		if vary {
			r = append(r, s, cat(s, base), cat(base, s))
			continue
		}
		n := len(s)
		if n > len(base) {
			n = len(base)
		}
		a, b := cat(base, nil), cat(base, nil)
		copy(a, s[:n])
		copy(b[len(b)-n:], s[len(s)-n:])
		r = append(r, a)
		if !eq(a, b) {
			r = append(r, b)
		}
	}
	for _, n := range dict().ints {
		if vary {
			continue
		}
		if len(base) >= 8 {
			a, b := make([]byte, len(base)), make([]byte, len(base))
			binary.LittleEndian.PutUint32(a, uint32(n))
			binary.BigEndian.PutUint32(b[len(b)-4:], uint32(n))
			r = append(r, a, b)
		}
	}
	if vary {
		for _, l := range dictLengths(len(base) + 8) {
			b := pattern(l, byte(l))
			copy(b, base)
			r = append(r, b)
		}
	}
	return r
}
