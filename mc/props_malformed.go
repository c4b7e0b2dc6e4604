package main

// C05: malformed grammars.

import (
	"fmt"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
)

type foreignSymbol struct{}

// look-alikes: not of the kinds the representation defines, whatever they say.
type lookAlike struct{ t int }

func (l lookAlike) Type() int    { return l.t }
func (lookAlike) String() string { return "\"a\"" }

type embedded struct{ bnf.SymbolTerminal }

func foreigners() []bnf.Symbol {
	return []bnf.Symbol{foreignSymbol{}, nil, &bnf.SymbolTerminal{Name: "p"}, &bnf.SymbolNonTerminal{Name: "S"}, &bnf.SymbolNothing{}, (*bnf.SymbolTerminal)(nil),
		lookAlike{bnf.TypeTerminal}, lookAlike{bnf.TypeNonTerminal}, lookAlike{bnf.TypeNothing}, lookAlike{-1}, embedded{bnf.SymbolTerminal{Name: "e"}}}
}

// defects: every way to spoil one place of a grammar.
type place struct{ r, a, s int }

func places(g bnf.Grammar) []place {
	var p []place
	for r := range g.Rules {
		for a, q := range g.Rules[r].Tail.Sequences {
			for s := range q.Symbols {
				p = append(p, place{r, a, s})
			}
		}
	}
	return p
}

func copyGrammar(g bnf.Grammar) bnf.Grammar {
	n := bnf.Grammar{}
	for _, r := range g.Rules {
		x := bnf.Rule{Head: r.Head}
		for _, q := range r.Tail.Sequences {
			x.Tail.Sequences = append(x.Tail.Sequences, bnf.Sequence{Symbols: append([]bnf.Symbol{}, q.Symbols...)})
		}
		n.Rules = append(n.Rules, x)
	}
	return n
}

func undefinedNames(g bnf.Grammar) []string {
	heads := map[string]bool{}
	for _, r := range g.Rules {
		heads[r.Head.Name] = true
	}
	last := g.Rules[len(g.Rules)-1].Head.Name
	var r []string
	for _, n := range []string{"", "undefined", last + " ", " " + last, last + last, "_nothing", "EOL", "<" + last + ">", last[:len(last)/2], string([]byte{0}), last + string([]byte{0}), "0", "-2"} {
		if !heads[n] {
			r = append(r, n)
		}
	}
	return r
}

// defectKinds: kind k at place p of g; nil when not applicable.
func defectKinds() []func(g bnf.Grammar, p place) {
	sub := func(y bnf.Symbol) func(g bnf.Grammar, p place) {
		return func(g bnf.Grammar, p place) { g.Rules[p.r].Tail.Sequences[p.a].Symbols[p.s] = y }
	}
	ins := func(y bnf.Symbol, after int) func(g bnf.Grammar, p place) {
		return func(g bnf.Grammar, p place) {
			q := &g.Rules[p.r].Tail.Sequences[p.a]
			at := p.s + after
			q.Symbols = append(q.Symbols[:at:at], append([]bnf.Symbol{y}, q.Symbols[at:]...)...)
		}
	}
	k := []func(g bnf.Grammar, p place){
		ins(bnf.SymbolNothing{}, 0), ins(bnf.SymbolNothing{}, 1), ins(tm(""), 0), ins(tm(""), 1), sub(tm("")), sub(tm("\x00")), ins(tm("\x00\x01"), 1), ins(nt("undefined"), 1),
		func(g bnf.Grammar, p place) { g.Rules[p.r].Tail.Sequences[p.a].Symbols = nil },
		func(g bnf.Grammar, p place) { // an alternative without symbols before this one
			t := &g.Rules[p.r].Tail
			t.Sequences = append(t.Sequences[:p.a:p.a], append([]bnf.Sequence{{}}, t.Sequences[p.a:]...)...)
		},
		func(g bnf.Grammar, p place) { // and after the last
			t := &g.Rules[p.r].Tail
			t.Sequences = append(t.Sequences, bnf.Sequence{Symbols: []bnf.Symbol{}})
		},
	}
	for _, f := range foreigners() {
		k = append(k, sub(f), ins(f, 1))
	}
	for n := 0; n < 12; n++ {
		n := n
		k = append(k, func(g bnf.Grammar, p place) {
			u := undefinedNames(g)
			g.Rules[p.r].Tail.Sequences[p.a].Symbols[p.s] = nt(u[n%len(u)])
		})
	}
	return k
}

func defectBases() []bnf.Grammar {
	var r []bnf.Grammar
	for _, g := range handmade() {
		r = append(r, toBNF(g))
	}
	r = append(r, toBNF(bnfGram()), toBNF(jsonGram()))
	for _, sh := range ladderShapes() {
		for _, n := range []int{1, 2, 9, 33, 65, 129, 257} {
			r = append(r, toBNF(sh(n)))
		}
	}
	return r
}

func defectFamilies() []astFam {
	bases, kinds := defectBases(), defectKinds()
	type ref struct {
		b int
		p place
	}
	var refs []ref
	var dups [][3]int // base, rule, where its copy goes
	for b, g := range bases {
		for _, p := range places(g) {
			refs = append(refs, ref{b, p})
		}
		n := len(g.Rules)
		for r := 0; r < n; r++ {
			for at := 0; at <= n; at++ {
				if n > 40 && at != 0 && at != n && at != r+1 && (at-r)%61 != 0 {
					continue
				}
				dups = append(dups, [3]int{b, r, at})
			}
		}
	}
	nk := uint64(len(kinds))
	return []astFam{
		{"defects", fmt.Sprintf("%d grammars (handmade, BNF, JSON, size shapes to 257) with each of %d defects at every symbol position", len(bases), nk), uint64(len(refs)) * nk, func(i uint64) bnf.Grammar {
			f := refs[i/nk]
			g := copyGrammar(bases[f.b])
			kinds[i%nk](g, f.p)
			return g
		}},
		{"duplicates", "the same grammars with a second rule for every name, with the same or another right side, at every place (large grammars: at every 61st and next to the first)", uint64(len(dups)) * 2, func(i uint64) bnf.Grammar {
			d := dups[i/2]
			g := copyGrammar(bases[d[0]])
			r := g.Rules[d[1]]
			if i%2 == 1 {
				r = bnf.Rule{Head: r.Head, Tail: bnf.Substitution{Sequences: []bnf.Sequence{{Symbols: []bnf.Symbol{tm("\xfe")}}}}}
			}
			g.Rules = append(g.Rules[:d[2]:d[2]], append([]bnf.Rule{r}, g.Rules[d[2]:]...)...)
			return g
		}},
		{"removed", "the same grammars with each rule but the first left out", func() uint64 {
			n := uint64(0)
			for _, g := range bases {
				n += uint64(len(g.Rules) - 1)
			}
			return n
		}(), func(i uint64) bnf.Grammar {
			for _, g := range bases {
				if n := uint64(len(g.Rules) - 1); i >= n {
					i -= n
					continue
				}
				x := copyGrammar(g)
				x.Rules = append(x.Rules[:i+1:i+1], x.Rules[i+2:]...)
				return x
			}
			panic("unreachable")
		}},
	}
}

func (foreignSymbol) Type() int      { return 7 }
func (foreignSymbol) String() string { return "?" }

// wellFormed: "" or the reason why the grammar is malformed.
func wellFormed(g bnf.Grammar) string {
	if len(g.Rules) == 0 {
		return "no rules"
	}
	heads := map[string]int{}
	for _, r := range g.Rules {
		heads[r.Head.Name]++
	}
	for _, r := range g.Rules {
		if heads[r.Head.Name] > 1 {
			return "two rules with the same name"
		}
	}
	for _, r := range g.Rules {
		for _, s := range r.Tail.Sequences {
			if len(s.Symbols) == 0 {
				return "alternative without symbols"
			}
			for _, y := range s.Symbols {
				switch v := y.(type) {
				case bnf.SymbolTerminal:
					if v.Name == "" {
						return "empty terminal"
					}
					if v.Name[0] == 0 {
						return "terminal starting with NUL"
					}
				case bnf.SymbolNothing:
					if len(s.Symbols) > 1 {
						return "empty string inside a longer alternative"
					}
				case bnf.SymbolNonTerminal:
					if heads[v.Name] == 0 {
						return "undefined nonterminal"
					}
				default:
					return "symbol of unknown kind"
				}
			}
		}
	}
	return ""
}

func seqsOf(syms []bnf.Symbol, max int) []bnf.Sequence {
	var r []bnf.Sequence
	cur := []bnf.Sequence{{}}
	for l := 0; l <= max; l++ {
		r = append(r, cur...)
		var nxt []bnf.Sequence
		for _, a := range cur {
			for _, s := range syms {
				nxt = append(nxt, bnf.Sequence{Symbols: append(append([]bnf.Symbol{}, a.Symbols...), s)})
			}
		}
		cur = nxt
	}
	return r
}

func tailsOf(ss []bnf.Sequence, min, max int) []bnf.Substitution {
	var r []bnf.Substitution
	cur := []bnf.Substitution{{}}
	for l := 0; l <= max; l++ {
		if l >= min {
			r = append(r, cur...)
		}
		if l == max {
			break
		}
		var nxt []bnf.Substitution
		for _, t := range cur {
			for _, s := range ss {
				nxt = append(nxt, bnf.Substitution{Sequences: append(append([]bnf.Sequence{}, t.Sequences...), s)})
			}
		}
		cur = nxt
	}
	return r
}

func nt(n string) bnf.Symbol { return bnf.SymbolNonTerminal{Name: n} }
func tm(n string) bnf.Symbol { return bnf.SymbolTerminal{Name: n} }

type astFam struct {
	name, desc string
	n          uint64
	at         func(i uint64) bnf.Grammar
}

func astProduct(name, desc string, heads []string, cats ...[]bnf.Substitution) astFam {
	n := uint64(1)
	for _, c := range cats {
		n *= uint64(len(c))
	}
	return astFam{name, desc, n, func(i uint64) bnf.Grammar {
		g := bnf.Grammar{Rules: make([]bnf.Rule, len(cats))}
		for k := len(cats) - 1; k >= 0; k-- {
			g.Rules[k] = bnf.Rule{Head: bnf.SymbolNonTerminal{Name: heads[k]}, Tail: cats[k][i%uint64(len(cats[k]))]}
			i /= uint64(len(cats[k]))
		}
		return g
	}}
}

func malformedFamilies(tier string) []astFam {
	all := []bnf.Symbol{tm("a"), tm("b"), nt("S"), nt("A"), nt("U"), bnf.SymbolNothing{}, tm(""), tm("\x00"), tm("\x00a"), tm("a\x00"), nt("")}
	all = append(all, foreigners()...)
	some := []bnf.Symbol{tm("a"), nt("S"), nt("A"), nt("U"), bnf.SymbolNothing{}, tm("")}
	one := tailsOf(seqsOf(all, 2), 0, 2)
	two := tailsOf(seqsOf(some, 2), 1, 1)
	two = append(two, tailsOf(seqsOf(some, 1), 2, 2)...)
	loop := tailsOf(seqsOf([]bnf.Symbol{nt("A"), nt("S"), tm("b")}, 2), 0, 1) // rules that derive nothing
	long := tailsOf(seqsOf([]bnf.Symbol{tm("a"), nt("A"), nt("U"), bnf.SymbolNothing{}}, 4), 1, 1)
	r := []astFam{
		{"empty", "the grammar without rules (nil and empty rule list)", 2, func(i uint64) bnf.Grammar {
			if i == 0 {
				return bnf.Grammar{}
			}
			return bnf.Grammar{Rules: []bnf.Rule{}}
		}},
		astProduct("m1", "1 rule, 0..2 alternatives of length 0..2 over every symbol kind (incl. undefined, empty, NUL, nil, foreign)", []string{"S"}, one),
		astProduct("m2", "2 rules S, A over a, S, A, undefined, empty string, empty terminal", []string{"S", "A"}, two, two),
		astProduct("m2dup", "2 rules with the same name", []string{"S", "S"}, two, two),
		astProduct("mpos", "S ::= 0..4 symbols over a, A, undefined, empty string; A any small (also unproductive) rule: positions that can never be reached", []string{"S", "A"}, long, loop),
		astProduct("m3dup", "3 rules S, A and a duplicate of A or S", []string{"S", "A", "A"}, tailsOf(seqsOf([]bnf.Symbol{tm("a"), nt("A")}, 2), 1, 1), tailsOf(seqsOf([]bnf.Symbol{tm("a"), nt("S")}, 1), 1, 2), tailsOf(seqsOf([]bnf.Symbol{tm("b"), nt("A"), bnf.SymbolNothing{}}, 1), 0, 2)),
	}
	r = append(r, defectFamilies()...)
	r = append(r, lookDefects())
	if tier == "thorough" {
		two3 := tailsOf(seqsOf(some, 2), 1, 2)
		r = append(r, astProduct("m2deep", "2 rules S, A, <=2 alternatives of length 0..2", []string{"S", "A"}, two3, tailsOf(seqsOf(some, 2), 0, 1)),
			astProduct("m1long", "1 rule, 1 alternative of length <=5 over every symbol kind", []string{"S"}, tailsOf(seqsOf(all, 5), 1, 1)))
	}
	return r
}

func astString(g bnf.Grammar) string {
	s := ""
	for _, r := range g.Rules {
		s += fmt.Sprintf("%q ::= %#v ; ", r.Head.Name, r.Tail.Sequences)
	}
	return s
}

func init() {
	register(&Property{ID: "C05", Title: "malformed grammars",
		Rule:   "items are grammar objects (well-formed and malformed) enumerated completely from symbol kinds; states are the grammars, transitions the symbols in them; each grammar is run through the real generator and compared with the well-formedness predicate",
		Assume: commonAssume,
		Families: func(tier string) []Family {
			var r []Family
			for _, af := range malformedFamilies(tier) {
				af := af
				r = append(r, Family{Name: af.name, Desc: af.desc, N: af.n, Chunk: 16, Run: func(c *Ctx, i uint64) {
					g := af.at(i)
					why := wellFormed(g)
					c.st.States++
					for _, r := range g.Rules {
						for _, s := range r.Tail.Sequences {
							c.st.Transitions += int64(len(s.Symbols))
						}
					}
					c.st.Traces++
					syms := 0
					for _, r := range g.Rules {
						for _, q := range r.Tail.Sequences {
							syms += len(q.Symbols) + 1
						}
					}
					f := callFG(g, fgFuel(len(g.Rules), syms))
					if f.pan != nil || f.hang {
						c.violate(f.bad(), "grammar", astString(g), "well-formedness", why)
						return
					}
					if why != "" {
						if f.err == nil {
							c.violate("a malformed grammar got a table ("+why+")", "grammar", astString(g))
							return
						}
						if f.table != nil || f.names != nil {
							c.violate("an error is returned together with a table or names ("+why+")", "grammar", astString(g))
							return
						}
						c.out("refused: " + why)
						c.sample(func() string { return astString(g) + " -> " + f.err.Error() })
						return
					}
					if f.err == nil {
						c.out("well-formed: table")
					} else {
						c.out("well-formed: refused as not LL(1)")
					}
				}})
			}
			return r
		}})
}
