// Command mutate lists and writes single-point mutants of Go source files.
//
//	mutate list FILE...          one line per mutant: FILE:LINE KIND before => after
//	mutate write N OUT FILE...   writes mutant N of the list to OUT (a file with the mutated source)
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	file, kind, txt string
	line            int
	do, undo        func()
}

func src(fs *token.FileSet, n ast.Node) string {
	var b bytes.Buffer
	printer.Fprint(&b, fs, n)
	s := b.String()
	if len(s) > 90 {
		s = s[:90]
	}
	return strings.Join(strings.Fields(s), " ")
}

func collect(fs *token.FileSet, name string, f *ast.File) (ms []mutant) {
	add := func(n ast.Node, kind, txt string, do, undo func()) {
		ms = append(ms, mutant{name, kind, txt, fs.Position(n.Pos()).Line, do, undo})
	}
	stmts := func(l []ast.Stmt) {
		for i := range l {
			i, s := i, l[i]
			kind := ""
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
				kind = "drop"
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					kind = "drop"
				}
			case *ast.IfStmt:
				if x.Else == nil {
					kind = "drop"
				}
			case *ast.BranchStmt:
				kind = "drop"
			case *ast.RangeStmt, *ast.ForStmt:
				kind = "drop"
			case *ast.ReturnStmt:
				// return err -> return nil
				for j := range x.Results {
					j, r := j, x.Results[j]
					if j == len(x.Results)-1 {
						if id, ok := r.(*ast.Ident); ok && (id.Name == "nil") {
							continue
						}
						add(s, "retnil", src(fs, s), func() { x.Results[j] = ast.NewIdent("nil") }, func() { x.Results[j] = r })
					}
					if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
						o := map[string]string{"true": "false", "false": "true"}[id.Name]
						add(s, "bool", src(fs, s), func() { x.Results[j] = ast.NewIdent(o) }, func() { x.Results[j] = r })
					}
				}
			}
			if kind != "" {
				add(s, kind, src(fs, s), func() { l[i] = &ast.EmptyStmt{} }, func() { l[i] = s })
			}
			if i+1 < len(l) {
				t := l[i+1]
				add(s, "swap", src(fs, s)+" <-> "+src(fs, t), func() { l[i], l[i+1] = t, s }, func() { l[i], l[i+1] = s, t })
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			return x.Tok != token.IMPORT
		case *ast.FuncDecl:
			if x.Name.Name == "init" {
				return false
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
			if len(x.List) > 1 {
				for j := range x.List {
					l := x.List
					j := j
					add(x, "dropcase", src(fs, l[j]), func() {
						n := append([]ast.Expr(nil), l[:j]...)
						x.List = append(n, l[j+1:]...)
					}, func() { x.List = l })
				}
			}
		case *ast.IfStmt:
			c := x.Cond
			add(x, "negate", src(fs, c), func() { x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: c}} }, func() { x.Cond = c })
			add(x, "iffalse", src(fs, c), func() { x.Cond = &ast.BinaryExpr{X: ast.NewIdent("false"), Op: token.LAND, Y: &ast.ParenExpr{X: c}} }, func() { x.Cond = c })
			add(x, "iftrue", src(fs, c), func() { x.Cond = &ast.BinaryExpr{X: ast.NewIdent("true"), Op: token.LOR, Y: &ast.ParenExpr{X: c}} }, func() { x.Cond = c })
		case *ast.BinaryExpr:
			op := x.Op
			for _, o := range map[token.Token][]token.Token{token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR}, token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
				token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD}, token.QUO: {token.MUL}, token.AND: {token.OR}, token.OR: {token.AND}, token.SHL: {token.SHR}, token.REM: {token.ADD}}[op] {
				o := o
				add(x, "op", src(fs, x)+" with "+o.String(), func() { x.Op = o }, func() { x.Op = op })
			}
		case *ast.BasicLit:
			v := x.Value
			switch x.Kind {
			case token.INT:
				if k, err := strconv.ParseInt(v, 0, 64); err == nil {
					add(x, "const", v+"+1", func() { x.Value = fmt.Sprint(k + 1) }, func() { x.Value = v })
					if k > 0 {
						add(x, "const", v+"-1", func() { x.Value = fmt.Sprint(k - 1) }, func() { x.Value = v })
					}
				}
			case token.STRING:
				if len(v) > 2 && v[0] == '"' {
					add(x, "str", v+" -> other", func() { x.Value = `"` + "~" + v[1:] }, func() { x.Value = v })
				} else if v == `""` {
					add(x, "str", v+" -> other", func() { x.Value = `"~"` }, func() { x.Value = v })
				}
			}
		case *ast.CallExpr:
			// same-shaped neighbouring arguments swapped
			for j := 0; j+1 < len(x.Args); j++ {
				j := j
				a, b := x.Args[j], x.Args[j+1]
				if _, ok := b.(*ast.FuncLit); ok {
					continue
				}
				add(x, "args", src(fs, x), func() { x.Args[j], x.Args[j+1] = b, a }, func() { x.Args[j], x.Args[j+1] = a, b })
			}
			// f(x) -> x for one-argument string functions
			if len(x.Args) == 1 {
				if s, ok := x.Fun.(*ast.SelectorExpr); ok {
					old := x.Fun
					add(x, "ident", src(fs, x), func() { x.Fun = &ast.ParenExpr{X: ast.NewIdent("string")} }, func() { x.Fun = old })
					_ = s
				}
			}
		case *ast.SliceExpr:
			lo, hi := x.Low, x.High
			if lo != nil && hi != nil {
				add(x, "slice", src(fs, x), func() { x.Low = nil }, func() { x.Low = lo })
			}
			if hi != nil {
				add(x, "slice", src(fs, x), func() { x.High = nil }, func() { x.High = hi })
			}
		}
		return true
	})
	return
}

func main() {
	mode := os.Args[1]
	args := os.Args[2:]
	want, out := -1, ""
	if mode == "write" {
		want, _ = strconv.Atoi(args[0])
		out = args[1]
		args = args[2:]
	}
	k := 0
	for _, name := range args {
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		for _, m := range collect(fs, name, f) {
			if mode == "list" {
				fmt.Printf("%d\t%s:%d\t%s\t%s\n", k, m.file, m.line, m.kind, m.txt)
			} else if k == want {
				m.do()
				var b bytes.Buffer
				printer.Fprint(&b, fs, f)
				os.WriteFile(out, b.Bytes(), 0644)
				fmt.Println(m.file)
				return
			}
			k++
		}
	}
}
