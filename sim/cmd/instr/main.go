// instr writes instrumented copies of the repository's Go files, and an overlay
// file that makes the go command use them in place of the originals.
//
// Instrumentation does not change what the code does. It adds, on the same line:
//   - simtick.T() at the start of every function and loop body and at goto labels: a
//     deterministic step counter, so that an endless loop is a reproducible event;
//   - simtick.P(site) before every statement: a point at which callers that use the library
//     at the same time can be made to take turns;
//   - simtick.Y(site) before every statement of a goroutine's own body: a point at
//     which the simulator may run somebody else;
//   - defer simtick.G() at the start of a goroutine, so that a panic there is
//     reported as the outcome of the run instead of ending the simulator.
//
// Two choices that the Go runtime makes by itself are handed to the simulator: which case
// of a select proceeds when several can (the one that simtick.Sel names is tried first),
// and who gets a lock (package sync is replaced by simsync, whose locks block on
// channels, so that a goroutine that waits for one counts as blocked in a synctest bubble).
//
// usage: instr REPO OUTDIR TICKFILE SYNCFILE
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/32bitkid/mpeg"

type insertion struct {
	off  int
	text string
}

func main() {
	repo, out, tickFile, syncFile := os.Args[1], os.Args[2], os.Args[3], os.Args[4]
	replace := map[string]string{
		filepath.Join(repo, "simtick", "simtick.go"): tickFile,
		filepath.Join(repo, "simsync", "simsync.go"): syncFile,
	}
	if os.Getenv("VERIF_NO_INSTR") == "" {
		site := 0
		err := filepath.Walk(repo, func(path string, info os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if info.IsDir() {
				if strings.HasPrefix(info.Name(), ".") && path != repo {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
				return nil
			}
			src, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			res := instrument(path, selects(path, src), &site)
			if res == nil {
				return nil
			}
			rel, _ := filepath.Rel(repo, path)
			dst := filepath.Join(out, strings.ReplaceAll(rel, string(filepath.Separator), "__"))
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				return err
			}
			replace[path] = dst
			return nil
		})
		if err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			os.Exit(2)
		}
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), js, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

// selects rewrites select statements so that the simulator decides which case comes first.
func selects(path string, src []byte) []byte {
	for pass := 0; pass < 50; pass++ {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			return src
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		var found *ast.SelectStmt
		ast.Inspect(f, func(n ast.Node) bool {
			s, ok := n.(*ast.SelectStmt)
			if !ok || found != nil {
				return found == nil
			}
			if string(src[max(0, off(s.Pos())-len(selMark)):off(s.Pos())]) == selMark {
				return true // done
			}
			comms, labels := 0, false
			for _, c := range s.Body.List {
				if c.(*ast.CommClause).Comm != nil {
					comms++
				}
			}
			ast.Inspect(s.Body, func(m ast.Node) bool {
				if _, ok := m.(*ast.LabeledStmt); ok {
					labels = true
				}
				return true
			})
			if comms > 1 && !labels {
				found = s
			}
			return true
		})
		if found == nil {
			return src
		}
		whole := string(src[off(found.Pos()):off(found.End())])
		var out strings.Builder
		var comms []*ast.CommClause
		for _, c := range found.Body.List {
			if cc := c.(*ast.CommClause); cc.Comm != nil {
				comms = append(comms, cc)
			}
		}
		fmt.Fprintf(&out, "switch simtick.Sel(%d) { ", len(comms))
		for i, c := range comms {
			if i < len(comms)-1 {
				fmt.Fprintf(&out, "case %d: ", i)
			} else {
				out.WriteString("default: ")
			}
			fmt.Fprintf(&out, "%sselect { %s\ndefault: %s%s }\n", selMark, src[off(c.Pos()):off(c.End())], selMark, whole)
		}
		out.WriteString("}")
		src = []byte(string(src[:off(found.Pos())]) + out.String() + string(src[off(found.End()):]))
	}
	return src
}

const selMark = "/*sel*/"

// talks reports whether a function does something with channels or locks itself.
func talks(body *ast.BlockStmt) bool {
	res := false
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.SendStmt, *ast.SelectStmt:
			res = true
		case *ast.UnaryExpr:
			res = res || x.Op == token.ARROW
		case *ast.CallExpr:
			switch fn := x.Fun.(type) {
			case *ast.Ident:
				res = res || fn.Name == "close"
			case *ast.SelectorExpr:
				switch fn.Sel.Name {
				case "Lock", "Unlock", "RLock", "RUnlock", "Wait", "Done", "Signal", "Broadcast":
					res = true
				}
			}
		}
		return !res
	})
	return res
}

func instrument(path string, src []byte, site *int) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil // the build will report it
	}
	var ins []insertion
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(p token.Pos, text string) { ins = append(ins, insertion{off(p), text}) }

	// bodies of goroutines: literals in go statements, and functions named in them
	goNames := map[string]bool{}
	goBodies := map[*ast.BlockStmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if g, ok := n.(*ast.GoStmt); ok {
			switch fn := g.Call.Fun.(type) {
			case *ast.FuncLit:
				goBodies[fn.Body] = true
			case *ast.Ident:
				goNames[fn.Name] = true
			case *ast.SelectorExpr:
				goNames[fn.Sel.Name] = true
			}
		}
		return true
	})
	ast.Inspect(f, func(n ast.Node) bool {
		if d, ok := n.(*ast.FuncDecl); ok && d.Body != nil && goNames[d.Name.Name] {
			goBodies[d.Body] = true
		}
		return true
	})
	// Functions that talk to other goroutines get yield points too.
	talkers := map[*ast.BlockStmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		var b *ast.BlockStmt
		switch d := n.(type) {
		case *ast.FuncDecl:
			b = d.Body
		case *ast.FuncLit:
			b = d.Body
		}
		if b != nil && !goBodies[b] && talks(b) {
			talkers[b] = true
		}
		return true
	})

	var yields func(n ast.Node)
	yields = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			if b, ok := m.(*ast.BlockStmt); ok && m != n && (goBodies[b] || talkers[b]) {
				return false // handled on its own
			}
			var list []ast.Stmt
			switch b := m.(type) {
			case *ast.BlockStmt:
				list = b.List
			case *ast.CaseClause:
				list = b.Body
			case *ast.CommClause:
				list = b.Body
			}
			for _, s := range list {
				switch s.(type) {
				case *ast.LabeledStmt, *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
					continue
				}
				*site++
				add(s.Pos(), fmt.Sprintf("simtick.Y(%d); ", *site))
				if d, ok := s.(*ast.DeferStmt); ok {
					// runs just before what is deferred here
					*site++
					add(d.End(), fmt.Sprintf("; defer simtick.Y(%d)", *site))
				}
			}
			return true
		})
	}

	// Between any two statements somebody else may run, if the simulator wants that.
	ast.Inspect(f, func(n ast.Node) bool {
		var list []ast.Stmt
		switch b := n.(type) {
		case *ast.BlockStmt:
			list = b.List
		case *ast.CaseClause:
			list = b.Body
		case *ast.CommClause:
			list = b.Body
		}
		for _, s := range list {
			switch s.(type) {
			case *ast.LabeledStmt, *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			*site++
			add(s.Pos(), fmt.Sprintf("simtick.P(%d); ", *site))
		}
		return true
	})

	// Where a goroutine begins, or has just received something, somebody else may be running:
	// there the yield point comes before the step is counted.
	var stack []ast.Node
	tick := func(body *ast.BlockStmt) {
		gated := goBodies[body] || talkers[body]
		for i := len(stack) - 1; i >= 0 && !gated; i-- {
			var b *ast.BlockStmt
			switch f := stack[i].(type) {
			case *ast.FuncDecl:
				b = f.Body
			case *ast.FuncLit:
				b = f.Body
			default:
				continue
			}
			gated = b != body && (goBodies[b] || talkers[b])
			if b != body {
				break
			}
		}
		if gated {
			*site++
			add(body.Lbrace+1, fmt.Sprintf(" simtick.Y(%d); simtick.T(); ", *site))
		} else {
			add(body.Lbrace+1, " simtick.T(); ")
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		switch s := n.(type) {
		case *ast.FuncDecl:
			if s.Body != nil {
				tick(s.Body)
			}
		case *ast.FuncLit:
			tick(s.Body)
		case *ast.ForStmt:
			tick(s.Body)
		case *ast.RangeStmt:
			tick(s.Body)
		case *ast.LabeledStmt:
			switch s.Stmt.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.EmptyStmt:
			default:
				add(s.Colon+1, " simtick.T(); ")
			}
		case *ast.BlockStmt:
			if goBodies[s] {
				add(s.Lbrace+1, " defer simtick.G(); ")
				yields(s)
			} else if talkers[s] {
				yields(s)
			}
		}
		return true
	})
	for _, im := range f.Imports {
		if im.Path.Value != `"sync"` {
			continue
		}
		name := "sync "
		if im.Name != nil {
			name = ""
		}
		ins = append(ins, insertion{off(im.Path.Pos()), name + strconv.Quote(modPath+"/simsync") + " //"})
	}
	if len(ins) == 0 {
		return nil
	}
	add(f.Name.End(), fmt.Sprintf("; import simtick %q", modPath+"/simtick"))
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var out []byte
	last := 0
	for _, i := range ins {
		out = append(out, src[last:i.off]...)
		out = append(out, i.text...)
		last = i.off
	}
	return append(out, src[last:]...)
}
