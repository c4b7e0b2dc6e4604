package main

// The dictionary: every word and number that occurs as a constant in the
// sources of the tree under test, with near variants. Behaviour that singles
// out one value has to name it somewhere; the families below try every value
// named. Nothing is concluded from where or how a constant is used.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

const (
	dictMaxWords = 1200
	dictMaxInts  = 48
)

var dict struct {
	once  sync.Once
	words []string
	ints  []int // > 1, as written
}

func dictLoad() {
	words := map[string]bool{}
	ints := map[int]bool{}
	for _, w := range []string{"empty", "epsilon", "eps", "nothing", "none", "null", "nil", "true", "false", "EOF", "EOS", "EOL", "eof", "eol", "start", "root", "main", "rule", "syntax", "literal", "terminal", "text", "char", "any", "error", "name", "type", "node", "self", "builtin", "Unknown", "unknown", "S", "S-0", "ignore", "opt", "list", "end"} {
		words[w] = true
	}
	var eval func(e ast.Expr) constant.Value
	eval = func(e ast.Expr) (v constant.Value) {
		defer func() {
			if recover() != nil {
				v = constant.MakeUnknown()
			}
		}()
		switch x := e.(type) {
		case *ast.ParenExpr:
			return eval(x.X)
		case *ast.BasicLit:
			return constant.MakeFromLiteral(x.Value, x.Kind, 0)
		case *ast.BinaryExpr:
			l, r := eval(x.X), eval(x.Y)
			if l.Kind() != constant.Int || r.Kind() != constant.Int {
				return constant.MakeUnknown()
			}
			switch x.Op {
			case token.SHL, token.SHR:
				n, ok := constant.Uint64Val(r)
				if !ok || n > 70 {
					return constant.MakeUnknown()
				}
				return constant.Shift(l, x.Op, uint(n))
			case token.ADD, token.SUB, token.MUL:
				return constant.BinaryOp(l, x.Op, r)
			}
		}
		return constant.MakeUnknown()
	}
	take := func(v constant.Value) {
		switch v.Kind() {
		case constant.String:
			s := constant.StringVal(v)
			if len(s) <= 80 {
				words[s] = true
			}
			parts := strings.FieldsFunc(s, func(r rune) bool {
				return !(r == '-' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z')
			})
			for _, p := range parts {
				if len(p) <= 40 {
					words[p] = true
				}
			}
		case constant.Int:
			if n, ok := constant.Int64Val(v); ok && n > 1 {
				ints[int(n)] = true
			}
		}
	}
	for _, root := range []string{"/repo/pkg", "/repo/examples"} {
		filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
			if err != nil {
				return nil
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.BasicLit:
					take(eval(x))
				case *ast.BinaryExpr:
					take(eval(x))
				}
				return true
			})
			return nil
		})
	}
	delete(words, "")
	for w := range words {
		dict.words = append(dict.words, w)
	}
	sort.Slice(dict.words, func(i, j int) bool {
		a, b := dict.words[i], dict.words[j]
		return len(a) < len(b) || len(a) == len(b) && a < b
	})
	if len(dict.words) > dictMaxWords {
		dict.words = dict.words[:dictMaxWords]
	}
	for n := range ints {
		dict.ints = append(dict.ints, n)
	}
	sort.Ints(dict.ints)
}

func dictWords() []string {
	dict.once.Do(dictLoad)
	return dict.words
}

// dictNames: the words a BNF text can use as names, in three cases.
func dictNames() []string {
	seen := map[string]bool{}
	var r []string
	for _, w := range dictWords() {
		for _, v := range []string{w, strings.ToLower(w), strings.ToUpper(w)} {
			ok := v != "" && (v[0]|32) >= 'a' && (v[0]|32) <= 'z'
			for k := range []byte(v) {
				b := v[k]
				ok = ok && (b == '-' || b >= '0' && b <= '9' || (b|32) >= 'a' && (b|32) <= 'z')
			}
			if ok && !seen[v] {
				seen[v] = true
				r = append(r, v)
			}
		}
	}
	return r
}

// dictLiterals: the words that BNF text can denote.
func dictLiterals() []string {
	var r []string
	for _, w := range dictWords() {
		ok := true
		for k := range []byte(w) {
			b := w[k]
			ok = ok && (b >= 32 && b < 127 || b == '\t' || b == '\n' || b == '\r')
		}
		if ok {
			r = append(r, w)
		}
	}
	return r
}

// dictSizes: the numbers named by the sources within (above, upto], with
// their neighbours; the largest ones when there are many.
func dictSizes(above, upto int) []int {
	dict.once.Do(dictLoad)
	var base []int
	for _, n := range dict.ints {
		if n > above && n <= upto {
			base = append(base, n)
		}
	}
	if len(base) > dictMaxInts {
		base = base[len(base)-dictMaxInts:]
	}
	seen := map[int]bool{}
	var r []int
	for _, n := range base {
		for _, v := range []int{n - 1, n, n + 1} {
			if v > 0 && !seen[v] {
				seen[v] = true
				r = append(r, v)
			}
		}
	}
	return r
}

// dictFamily: grammars whose names, literals or sizes come from the dictionary.
func dictFamily() gramFam {
	names := append(append([]string{}, dictWords()...), dictNames()...)
	var terms []string
	for _, w := range dictWords() {
		if w[0] != 0 {
			terms = append(terms, w)
		}
	}
	type sized struct{ shape, n int }
	var sz []sized
	shapes := ladderShapes()
	for k := range shapes {
		up := 2048
		switch k {
		case 1, 5, 6, 7: // the sets take cubic time
			up = 400
		case 2:
			up = 254
		case 3, 4:
			up = 200_000
		case 8:
			up = 20_000
		}
		for _, n := range dictSizes(70, up) {
			if k == 2 && n > 255 {
				continue
			}
			sz = append(sz, sized{k, n})
		}
	}
	nn, nt := uint64(len(names)), uint64(len(terms))
	return gramFam{"dictionary", fmt.Sprintf("grammars whose rules are named by each of %d words (first, second of 2, second, third of 3, fourth of 5), whose terminals are each of %d words, or whose sizes are each of %d numbers: those occurring in the sources under test, some keywords, and their neighbours", nn, nt, len(sz)), nn*5 + nt*2 + uint64(len(sz)), func(i uint64) *Gram {
		switch {
		case i < 2*nn:
			g := mkGram(body(alt("a", 1, "c"), alt("d")), body(alt("b", 0, 1), a0))
			g.Names = []string{"S-other", names[i%nn]}
			if i >= nn {
				g = mkGram(body(alt("a", 1, "c"), alt(1)), body(alt("b", 0, 1), alt("x")))
				g.Names = []string{names[i%nn], "T-other"}
			}
			return g
		case i < 4*nn:
			g := mkGram(body(alt("a", 1, 2)), body(alt("b", 2), alt("c")), body(alt("d", 1), a0))
			g.Names = []string{"S-other", names[i%nn], "T-other"}
			if i >= 3*nn {
				g.Names = []string{"S-other", "T-other", names[i%nn]}
			}
			return g
		case i < 5*nn:
			g := mkGram(body(alt(1, 2, 3, 4)), body(alt("a", 3), alt("b")), body(alt("c")), body(alt("d", 4), a0), body(alt("e", 0)))
			g.Names = []string{"S-other", "T-other", "U-other", names[i%nn], "V-other"}
			return g
		}
		i -= 5 * nn
		switch {
		case i < nt:
			return mkGram(body(alt(terms[i], 1)), body(alt(terms[i], 1), a0))
		case i < 2*nt:
			return mkGram(body(alt("\x01", 1, terms[i-nt]), a0), body(alt("\x02"), a0))
		}
		it := sz[i-2*nt]
		return shapes[it.shape](it.n)
	}}
}
