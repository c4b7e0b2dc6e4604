package main

// Calls into the real library, with panics and runaway loops turned into
// observable outcomes, and comparison of results with the reference models.

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
	hook "github.com/TooManySugar/ll1parser/pkg/verifhook"
)

type outOfFuel struct{}

// guarded runs f with a statement budget; it returns the number of library
// statements executed, the recovered panic value and whether the budget ran out.
func guarded(fuel int64, f func()) (ticks int64, pan any, hang bool) {
	hook.Left = fuel
	hook.Slow = func() { panic(outOfFuel{}) }
	hook.Block = nil
	defer func() {
		ticks = fuel - hook.Left
		hook.Slow = nil
		hook.Left = 1 << 62
		if r := recover(); r != nil {
			if _, ok := r.(outOfFuel); ok {
				hang = true
				return
			}
			pan = r
		}
	}()
	f()
	return
}

type Table = map[int]map[byte][]parser.ParserOp

type FG struct {
	table *Table
	names *map[int]string
	err   error
	pan   any
	hang  bool
	ticks int64
}

func (f *FG) bad() string {
	if f.hang {
		return "table generation did not finish (statement budget exhausted)"
	}
	if f.pan != nil {
		return fmt.Sprintf("table generation panicked: %v", f.pan)
	}
	return ""
}

func fgFuel(rules, syms int) int64 {
	r, s := int64(rules)+2, int64(syms)+4
	f := 2_000_000 + 400*r*r*s + 60*s*s
	if f > 12_000_000_000 {
		f = 12_000_000_000
	}
	return f
}

func callFG(g bnf.Grammar, fuel int64) *FG {
	r := &FG{}
	r.ticks, r.pan, r.hang = guarded(fuel, func() { r.table, r.names, r.err = tablegen.FromGrammar(g) })
	return r
}

type PR struct {
	node  cst.Node
	names *map[int]string
	err   error
	pan   any
	hang  bool
	ticks int64
}

func (p *PR) bad() string {
	if p.hang {
		return "parsing did not finish (statement budget exhausted)"
	}
	if p.pan != nil {
		return fmt.Sprintf("parsing panicked: %v", p.pan)
	}
	return ""
}

func callParse(p parser.LL1Parser, src any, fuel int64) *PR {
	r := &PR{}
	r.ticks, r.pan, r.hang = guarded(fuel, func() { r.node, r.names, r.err = p.Parse(src) })
	return r
}

// parseFuel: generous bound, linear in the reference machine's work. A step
// may cost as much as an alternative is long (a long terminal may be unfolded
// before its first byte fails to match), so the grammar's size comes on top.
func parseFuel(g *Gram, moves, n int) int64 {
	text := 0
	if g != nil {
		for _, b := range g.Rules {
			for _, a := range b {
				text += 1 + len(a)
				for _, s := range a {
					text += len(s.T)
				}
			}
		}
	}
	return 50_000 + 400*int64(moves+n+1) + 200*int64(text)
}

func toBNF(g *Gram) bnf.Grammar {
	var r bnf.Grammar
	for i, b := range g.Rules {
		rule := bnf.Rule{Head: bnf.SymbolNonTerminal{Name: g.Names[i]}}
		for _, a := range b {
			var seq bnf.Sequence
			if len(a) == 0 {
				seq.Symbols = []bnf.Symbol{bnf.SymbolNothing{}}
			}
			for _, s := range a {
				if s.NT {
					seq.Symbols = append(seq.Symbols, bnf.SymbolNonTerminal{Name: g.Names[s.N]})
				} else {
					seq.Symbols = append(seq.Symbols, bnf.SymbolTerminal{Name: s.T})
				}
			}
			rule.Tail.Sequences = append(rule.Tail.Sequences, seq)
		}
		r.Rules = append(r.Rules, rule)
	}
	return r
}

// diffTree compares a parse tree with the reference tree; "" when equal.
func diffTree(want *RT, got cst.Node, path string) string {
	if got == nil {
		return path + ": node is nil"
	}
	if got.Type() != want.Typ || got.Pos() != want.Pos || got.End() != want.End {
		return fmt.Sprintf("%s: want type %d span [%d,%d), got type %d span [%d,%d)", path, want.Typ, want.Pos, want.End, got.Type(), got.Pos(), got.End())
	}
	k := got.Childs()
	if len(k) != len(want.Kids) {
		return fmt.Sprintf("%s (type %d [%d,%d)): want %d children, got %d", path, want.Typ, want.Pos, want.End, len(want.Kids), len(k))
	}
	for i := range k {
		p := path
		if len(p) < 80 {
			p = fmt.Sprintf("%s/%d", path, i)
		}
		if d := diffTree(want.Kids[i], k[i], p); d != "" {
			return d
		}
	}
	return ""
}

func treeString(n cst.Node) string {
	if n == nil {
		return "nil"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d[%d,%d)", n.Type(), n.Pos(), n.End())
	if k := n.Childs(); len(k) > 0 {
		sb.WriteString("(")
		for i, c := range k {
			if i > 0 {
				sb.WriteString(" ")
			}
			sb.WriteString(treeString(c))
		}
		sb.WriteString(")")
	}
	return sb.String()
}

func refTreeString(n *RT) string {
	if n == nil {
		return "nil"
	}
	s := fmt.Sprintf("%d[%d,%d)", n.Typ, n.Pos, n.End)
	if len(n.Kids) > 0 {
		s += "("
		for i, c := range n.Kids {
			if i > 0 {
				s += " "
			}
			s += refTreeString(c)
		}
		s += ")"
	}
	return s
}

func charCode(b byte) string { return fmt.Sprintf("'%c' (%d)", b, b) }

// diffTable compares the generated table with the textbook one.
func diffTable(t *Theory, tbl Table) string {
	if len(tbl) != len(t.g.Rules) {
		return fmt.Sprintf("table has %d rows for %d rules", len(tbl), len(t.g.Rules))
	}
	for i, b := range t.g.Rules {
		row, ok := tbl[i]
		if !ok {
			return fmt.Sprintf("no row for rule %d", i)
		}
		want := 0
		for la := 0; la <= EOI; la++ {
			c := t.table[i][la]
			if c == 0 {
				continue
			}
			want++
			key := byte(la) // end of input is column 0
			cell, ok := row[key]
			if !ok {
				return fmt.Sprintf("row %d: no entry for lookahead %d", i, la)
			}
			var exp []parser.ParserOp
			if c > 0 {
				for _, s := range b[c-1] {
					if s.NT {
						exp = append(exp, parser.OpNonTerminal(s.N))
					} else {
						exp = append(exp, parser.OpTerminal(s.T))
					}
				}
			}
			if len(exp) != len(cell) {
				return fmt.Sprintf("row %d lookahead %d: want %d symbols %v, got %v", i, la, len(exp), exp, cell)
			}
			for k := range exp {
				if !reflect.DeepEqual(exp[k], cell[k]) {
					return fmt.Sprintf("row %d lookahead %d: want %v, got %v", i, la, exp, cell)
				}
			}
		}
		if len(row) != want {
			return fmt.Sprintf("row %d has %d entries, want %d: %v", i, len(row), want, row)
		}
	}
	return ""
}

func wantNames(g *Gram, builtin bool) map[int]string {
	m := map[int]string{}
	for i, n := range g.Names {
		m[i] = n
	}
	if builtin {
		m[-1] = "_literal"
		m[-2] = "_nothing"
	}
	return m
}

func namesEqual(a map[int]string, b *map[int]string) bool {
	if b == nil || len(a) != len(*b) {
		return false
	}
	for k, v := range a {
		if w, ok := (*b)[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// ---- the BNF front end --------------------------------------------------------

type frontEnd struct {
	p        parser.LL1Parser
	bindings fromcst.BNFCSTtoASTBindings
}

func newFrontEnd() (*frontEnd, string) {
	fg := callFG(bnf.SelfGrammar(), 1<<40)
	if b := fg.bad(); b != "" {
		return nil, b
	}
	if fg.err != nil {
		return nil, "the BNF grammar itself is refused: " + fg.err.Error()
	}
	return &frontEnd{parser.NewLL1Parser(*fg.table, *fg.names), fromcst.SelfCSTtoASTBindings()}, ""
}

type RD struct {
	g     *bnf.Grammar
	err   error // from parsing or conversion
	stage string
	bad   string
	ticks int64
}

func (fe *frontEnd) read(text string) *RD {
	fuel := int64(200_000 + 20_000*(len(text)+1))
	pr := callParse(fe.p, text, fuel)
	if b := pr.bad(); b != "" {
		return &RD{bad: b, stage: "parse"}
	}
	if pr.err != nil {
		return &RD{err: pr.err, stage: "parse"}
	}
	r := &RD{stage: "convert"}
	_, pan, hang := guarded(fuel*4, func() { r.g, r.err = fe.bindings.ToAST(pr.node, text) })
	if hang {
		r.bad = "conversion did not finish (statement budget exhausted)"
	} else if pan != nil {
		r.bad = fmt.Sprintf("conversion panicked: %v", pan)
	} else if r.err == nil && r.g == nil {
		r.bad = "conversion returned neither a grammar nor an error"
	}
	return r
}

func diffGrammar(want, got bnf.Grammar) string {
	if len(want.Rules) != len(got.Rules) {
		return fmt.Sprintf("want %d rules, got %d", len(want.Rules), len(got.Rules))
	}
	for i := range want.Rules {
		a, b := want.Rules[i], got.Rules[i]
		if a.Head.Name != b.Head.Name {
			return fmt.Sprintf("rule %d: want name %q, got %q", i, a.Head.Name, b.Head.Name)
		}
		if len(a.Tail.Sequences) != len(b.Tail.Sequences) {
			return fmt.Sprintf("rule %d: want %d alternatives, got %d", i, len(a.Tail.Sequences), len(b.Tail.Sequences))
		}
		for j := range a.Tail.Sequences {
			x, y := a.Tail.Sequences[j].Symbols, b.Tail.Sequences[j].Symbols
			if len(x) != len(y) {
				return fmt.Sprintf("rule %d alternative %d: want %d symbols, got %d", i, j, len(x), len(y))
			}
			for k := range x {
				if x[k] != y[k] {
					return fmt.Sprintf("rule %d alternative %d symbol %d: want %#v, got %#v", i, j, k, x[k], y[k])
				}
			}
		}
	}
	return ""
}
