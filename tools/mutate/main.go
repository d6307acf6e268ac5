// mutate lists or applies mechanical changes: mutate list ROOT PKG...; mutate
// apply ROOT KEY, where KEY is a line of the list.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type mut struct {
	file     string
	from, to int
	with     string
	what     string
}

func collect(root, file string) []mut {
	src, err := os.ReadFile(filepath.Join(root, file))
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, 0)
	if err != nil {
		panic(err)
	}
	var out []mut
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(n ast.Node, with, what string) {
		s := string(src[off(n.Pos()):off(n.End())])
		if strings.HasPrefix(s, "log.") || strings.Contains(s, ".log.") && !strings.Contains(s, "{") {
			return
		}
		out = append(out, mut{file, off(n.Pos()), off(n.End()), with, what})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				for _, s := range x.List {
					stmt(s, add, text)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					stmt(s, add, text)
				}
			case *ast.CommClause:
				for _, s := range x.Body {
					stmt(s, add, text)
				}
			case *ast.IfStmt:
				c := text(x.Cond)
				add(x.Cond, "!("+c+")", "negate")
			case *ast.BinaryExpr:
				switch x.Op {
				case token.LAND:
					add(x, text(x.X), "&& left only")
					add(x, text(x.Y), "&& right only")
				case token.LOR:
					add(x, text(x.X), "|| left only")
					add(x, text(x.Y), "|| right only")
				case token.LSS:
					add(x, text(x.X)+" <= "+text(x.Y), "< to <=")
				case token.GTR:
					add(x, text(x.X)+" >= "+text(x.Y), "> to >=")
				case token.LEQ:
					add(x, text(x.X)+" < "+text(x.Y), "<= to <")
				case token.GEQ:
					add(x, text(x.X)+" > "+text(x.Y), ">= to >")
				case token.ADD:
					add(x, text(x.X)+" - "+text(x.Y), "+ to -")
				}
			case *ast.GoStmt:
				add(x, text(x.Call), "go to plain")
			}
			return true
		})
	}
	return out
}

func stmt(s ast.Stmt, add func(ast.Node, string, string), text func(ast.Node) string) {
	switch x := s.(type) {
	case *ast.ExprStmt:
		add(x, "_ = 0", "delete")
	case *ast.SendStmt:
		add(x, "_ = 0", "delete")
	case *ast.IncDecStmt:
		add(x, "_ = 0", "delete")
	case *ast.GoStmt, *ast.DeferStmt:
		add(x, "_ = 0", "delete")
	case *ast.AssignStmt:
		if x.Tok == token.ASSIGN {
			keep := "_ = 0"
			add(x, keep, "delete")
		}
	case *ast.BranchStmt:
		add(x, "_ = 0", "delete")
	case *ast.IfStmt:
		if x.Else == nil {
			add(x, "_ = 0", "delete if")
		}
	case *ast.ReturnStmt:
		if len(x.Results) == 0 {
			add(x, "_ = 0", "delete return")
		} else if len(x.Results) == 1 && text(x.Results[0]) == "iodefine.IOSuccess" {
			add(x, "return iodefine.IOErr", "err")
		} else if len(x.Results) == 1 && text(x.Results[0]) == "iodefine.IOErr" {
			add(x, "return iodefine.IOSuccess", "ok")
		}
	}
}

func main() {
	root := os.Args[2]
	switch os.Args[1] {
	case "list":
		for _, p := range os.Args[3:] {
			fs, _ := filepath.Glob(filepath.Join(root, p, "*.go"))
			for _, f := range fs {
				if strings.HasSuffix(f, "_test.go") || strings.HasPrefix(filepath.Base(f), "mock") || strings.Contains(f, "/mock/") {
					continue
				}
				rel, _ := filepath.Rel(root, f)
				src, _ := os.ReadFile(f)
				for i, m := range collect(root, rel) {
					t := strings.Join(strings.Fields(string(src[m.from:m.to])), " ")
					if len(t) > 90 {
						t = t[:90]
					}
					fmt.Printf("%s\t%d\t%d\t%s\t%s\n", rel, i, 1+strings.Count(string(src[:m.from]), "\n"), m.what, t)
				}
			}
		}
	case "apply":
		var i int
		fmt.Sscan(os.Args[4], &i)
		m := collect(root, os.Args[3])[i]
		p := filepath.Join(root, m.file)
		src, _ := os.ReadFile(p)
		out := string(src[:m.from]) + m.with + string(src[m.to:])
		if err := os.WriteFile(p, []byte(out), 0o644); err != nil {
			panic(err)
		}
	}
}
