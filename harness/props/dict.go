package props

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// The literals of the code under test, so that generation tries what it
// compares with: a word it treats in its own way, a size at which it changes
// course. They only choose inputs; no oracle looks at them.
var (
	dictWords []string
	dictSizes []int
)

// ReadLiterals collects them from the sources in dir.
func ReadLiterals(dir string) {
	words, sizes := map[string]bool{}, map[int]bool{}
	filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		base := filepath.Base(path)
		if info.IsDir() {
			if path != dir && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(base, ".go") || strings.HasSuffix(base, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.Field: // a tag is not compared with anything
				n.Tag = nil
			case *ast.CompositeLit:
				if len(n.Elts) > 40 { // a table, known to the generators
					return false
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.STRING:
					if s, err := strconv.Unquote(n.Value); err == nil && s != "" && len(s) <= 60 && !strings.Contains(s, "%") {
						words[s] = true
					}
				case token.CHAR:
					if s, err := strconv.Unquote(n.Value); err == nil {
						words[s] = true
					}
				}
			}
			if e, ok := n.(ast.Expr); ok {
				if v, ok := number(e); ok && v > 8 && v <= 100000 {
					sizes[v] = true
				}
			}
			return true
		})
		return nil
	})
	for w := range words {
		dictWords = append(dictWords, w)
	}
	for n := range sizes {
		dictSizes = append(dictSizes, n)
	}
	sort.Strings(dictWords)
	sort.Ints(dictSizes)
}

// number is the value of an expression of integer literals.
func number(e ast.Expr) (int, bool) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return number(e.X)
	case *ast.BasicLit:
		if e.Kind == token.INT {
			v, err := strconv.ParseInt(e.Value, 0, 40)
			return int(v), err == nil
		}
	case *ast.BinaryExpr:
		x, ok := number(e.X)
		y, ok2 := number(e.Y)
		if !ok || !ok2 {
			return 0, false
		}
		switch e.Op {
		case token.SHL:
			if x >= 0 && x < 1<<20 && y >= 0 && y < 20 {
				return x << y, true
			}
		case token.MUL:
			if x < 1<<20 && y < 1<<20 {
				return x * y, true
			}
		case token.ADD:
			return x + y, true
		case token.SUB:
			return x - y, true
		}
	}
	return 0, false
}

// dictWord is a literal of the code under test, alone or with s.
func dictWord(t *T, s string) string {
	if len(dictWords) == 0 {
		return s
	}
	w := oneOf(t, dictWords)
	switch intn(t, 6) {
	case 0:
		return w + s
	case 1:
		return s + w
	}
	return w
}

// upTo draws a size from lo to hi; half the time one about which the code under
// test changes course, if there is one in reach.
func upTo(t *T, lo, hi, most int) int {
	n := sort.SearchInts(dictSizes, most)
	if n > 0 && chance(t, 50) {
		v := oneOf(t, dictSizes[:n]) + oneOf(t, []int{-1, 0, 1, 1, 2})
		if v >= lo {
			return v
		}
	}
	return between(t, lo, hi)
}
