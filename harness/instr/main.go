// Command instr writes an instrumented copy of the Go sources under a
// directory, and the overlay file that makes the go command use it.
//
//	instr -src /repo -out DIR
//
// In the copy, package sync is replaced by verifharness/vsync, goroutines are
// started through vsync.Wrap, operations on channels go through vsync.Send and
// the like, and every statement is preceded by a call of vsync.Y. The edits are
// insertions of text at the positions the parser reports, so line numbers stay
// as they are and any source that parses can be handled. It prints "clock" if
// the sources use the clock, which the scheduler does not own.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	at   int
	seq  int
	del  int
	text string
}

var builtins = map[string]bool{"append": true, "cap": true, "clear": true, "close": true, "complex": true,
	"copy": true, "delete": true, "imag": true, "len": true, "make": true, "max": true, "min": true,
	"new": true, "panic": true, "print": true, "println": true, "real": true, "recover": true}

func main() {
	src := flag.String("src", "/repo", "source tree")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	overlay := map[string]string{}
	clock := false
	n := 0
	fset := token.NewFileSet()
	dirs := map[string][]*source{}
	err := filepath.Walk(*src, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		base := filepath.Base(path)
		if info.IsDir() {
			if path != *src && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(base, ".go") || strings.HasSuffix(base, "_test.go") ||
			strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || strings.HasSuffix(base, "_easyjson.go") {
			return nil
		}
		text, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, path, text, parser.ParseComments)
		if err != nil {
			return err
		}
		key := filepath.Dir(path) + " " + f.Name.Name
		dirs[key] = append(dirs[key], &source{path, text, f})
		return nil
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	for _, files := range dirs {
		info := typesOf(fset, files)
		for _, s := range files {
			res, clk := rewrite(fset, s, info)
			clock = clock || clk
			dst := filepath.Join(*out, fmt.Sprintf("%03d_%s", n, filepath.Base(s.path)))
			n++
			overlay[s.path] = dst
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
		}
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	if clock {
		fmt.Println("clock")
	}
}

// typesOf finds out which expressions are channels. Nothing is imported: what
// depends on other packages stays unknown.
func typesOf(fset *token.FileSet, files []*source) *types.Info {
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Error: func(error) {}, Importer: nothing{}}
	var fs []*ast.File
	for _, s := range files {
		fs = append(fs, s.file)
	}
	conf.Check("p", fset, fs, info)
	return info
}

type nothing struct{}

func (nothing) Import(path string) (*types.Package, error) {
	return nil, fmt.Errorf("not imported")
}

type source struct {
	path string
	text []byte
	file *ast.File
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func rewrite(fset *token.FileSet, src *source, info *types.Info) ([]byte, bool) {
	text, f := src.text, src.file
	tf := fset.File(f.Pos())
	var edits []edit
	// What ends an expression goes before what begins the next, innermost first.
	ins := func(p token.Pos, s string) { edits = append(edits, edit{tf.Offset(p), 1 + len(edits), 0, s}) }
	end := func(p token.Pos, s string) { edits = append(edits, edit{tf.Offset(p), -1 - len(edits), 0, s}) }
	cut := func(from, to token.Pos) {
		edits = append(edits, edit{tf.Offset(from), 1 + len(edits), int(to - from), ""})
	}
	clock := false
	comm, real, two := map[ast.Stmt]bool{}, map[ast.Expr]bool{}, map[ast.Expr]bool{}

	ins(f.Name.End(), `; import vsync__ "verifharness/vsync"`)
	for _, im := range f.Imports {
		switch im.Path.Value {
		case `"sync"`:
			name := ""
			if im.Name == nil {
				name = "sync "
			}
			edits = append(edits, edit{tf.Offset(im.Path.Pos()), 1 + len(edits), len(im.Path.Value), name + `"verifharness/vsync"`})
		case `"time"`, `"context"`:
			clock = true
		}
	}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			ins(s.Pos(), "vsync__.Y(); ")
			inner := s
			if l, ok := s.(*ast.LabeledStmt); ok {
				inner = l.Stmt
			}
			if _, ok := inner.(*ast.SelectStmt); ok {
				ins(s.Pos(), "vsync__.Leave(); ")
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.LabeledStmt:
		case *ast.GoStmt:
			if id, ok := x.Call.Fun.(*ast.Ident); ok && builtins[id.Name] {
				return true
			}
			ins(x.Call.Fun.Pos(), "vsync__.Wrap(")
			end(x.Call.Fun.End(), ")")
		case *ast.SelectStmt:
			for _, c := range x.Body.List {
				if cc, ok := c.(*ast.CommClause); ok && cc.Comm != nil {
					comm[cc.Comm] = true
				}
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				two[ast.Unparen(x.Rhs[0])] = true
			}
			if comm[x] && len(x.Rhs) == 1 {
				real[ast.Unparen(x.Rhs[0])] = true
			}
		case *ast.ExprStmt:
			if comm[x] {
				real[ast.Unparen(x.X)] = true
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				two[ast.Unparen(x.Values[0])] = true
			}
		case *ast.SendStmt:
			if !comm[x] {
				ins(x.Chan.Pos(), "vsync__.Send(")
				end(x.Chan.End(), ")(")
				cut(x.Arrow, x.Arrow+2)
				end(x.Value.End(), ")")
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !real[x] {
				f := "Recv"
				if two[x] {
					f = "Recv2"
				}
				cut(x.OpPos, x.OpPos+2)
				ins(x.OpPos+2, "vsync__."+f+"(")
				end(x.X.End(), ")")
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && len(x.Args) == 1 {
				if _, ok := info.Uses[id].(*types.Builtin); ok {
					cut(id.Pos(), id.End())
					ins(id.End(), "vsync__.Close")
				}
			}
		case *ast.RangeStmt:
			tv, ok := info.Types[x.X]
			if !ok || tv.Type == nil {
				return true
			}
			if _, ok := tv.Type.Underlying().(*types.Chan); !ok {
				return true
			}
			at := x.For + 3
			cut(at, x.X.Pos())
			switch {
			case x.Key == nil || isBlank(x.Key):
				ins(x.X.Pos(), " c__, ok__ := vsync__.FirstOf(")
				end(x.X.End(), "); ok__; ok__ = vsync__.More(c__)")
			case x.Tok == token.DEFINE:
				k := x.Key.(*ast.Ident).Name
				ins(x.X.Pos(), " c__, "+k+", ok__ := vsync__.First(")
				end(x.X.End(), "); ok__; "+k+", ok__ = vsync__.Recv2(c__)")
			default:
				k := string(text[tf.Offset(x.Key.Pos()):tf.Offset(x.Key.End())])
				ins(x.X.Pos(), " c__, ok__ := vsync__.FirstInto(")
				end(x.X.End(), ", &"+k+"); ok__; ok__ = vsync__.MoreInto(c__, &"+k+")")
			}
		}
		return true
	})
	// A line of its own at the end, so that an unused import cannot happen.
	tail := "\nfunc init() { vsync__.Loaded() }\n"

	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].at != edits[j].at {
			return edits[i].at < edits[j].at
		}
		return edits[i].seq < edits[j].seq
	})
	var b strings.Builder
	last := 0
	for _, e := range edits {
		b.Write(text[last:e.at])
		b.WriteString(e.text)
		last = e.at + e.del
	}
	b.Write(text[last:])
	b.WriteString(tail)
	return []byte(b.String()), clock
}
