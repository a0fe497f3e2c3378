// mutate lists small changes of the repository's Go files, as a development aid: the
// checks are run against each of them to find what they do not see.
//
// usage: mutate REPO > list.jsonl
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Kind string `json:"kind"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	Text string `json:"text"`
	Old  string `json:"old"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.SHL: {">>"}, token.SHR: {"<<"},
	token.AND: {"|"}, token.OR: {"&"}, token.MUL: {"+"}, token.QUO: {"*"},
}

func main() {
	repo := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	filepath.Walk(repo, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, _ := os.ReadFile(path)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, path, src, parser.ParseComments)
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(repo, path)
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		add := func(kind string, from, to int, text string) {
			enc.Encode(mutant{rel, fs.Position(f.FileStart + token.Pos(from)).Line, kind, from, to - from, text, string(src[from:to])})
		}
		drop := func(n ast.Stmt) {
			from, to := off(n.Pos()), off(n.End())
			text := ""
			// keep variables used
			if a, ok := n.(*ast.AssignStmt); ok {
				if a.Tok == token.DEFINE {
					return
				}
			}
			add("delete", from, to, text)
		}
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				switch s := s.(type) {
				case *ast.AssignStmt, *ast.IncDecStmt, *ast.ExprStmt, *ast.DeferStmt, *ast.BranchStmt, *ast.SendStmt, *ast.GoStmt:
					drop(s)
				case *ast.IfStmt:
					if s.Else == nil {
						drop(s)
					}
				case *ast.ReturnStmt:
					for _, r := range s.Results {
						if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
							add("return", off(r.Pos()), off(r.End()), "nil")
						}
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, t := range swaps[n.Op] {
					add("operator", off(n.OpPos), off(n.OpPos)+len(n.Op.String()), t)
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					v, err := strconv.ParseInt(n.Value, 0, 64)
					if err == nil {
						add("constant", off(n.Pos()), off(n.End()), fmt.Sprint(v+1))
						if v > 0 {
							add("constant", off(n.Pos()), off(n.End()), fmt.Sprint(v-1))
						}
					}
				}
				if n.Kind == token.STRING && strings.Trim(n.Value, "\"01 ") == "" && len(n.Value) > 3 {
					return true
				}
			case *ast.Ident:
				if n.Name == "true" {
					add("bool", off(n.Pos()), off(n.End()), "false")
				} else if n.Name == "false" {
					add("bool", off(n.Pos()), off(n.End()), "true")
				}
			case *ast.IfStmt:
				from, to := off(n.Cond.Pos()), off(n.Cond.End())
				c := string(src[from:to])
				add("condition", from, to, "("+c+") && false")
				add("condition", from, to, "("+c+") || true")
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
			case *ast.CommClause:
				stmts(n.Body)
			}
			return true
		})
		return nil
	})
}
