package main

// Pairs of names that are different but close to each other.

import (
	"fmt"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
)

func lookPairs() [][2]string {
	var r [][2]string
	seen := map[[2]string]bool{}
	add := func(x, y string) {
		for _, p := range [][2]string{{x, y}, {y, x}} {
			if x != y && !seen[p] {
				seen[p] = true
				r = append(r, p)
			}
		}
	}
	for _, base := range []string{"S", "expr-1", "", "\u00e9", strings.Repeat("name", 40)} {
		for b := 0; b < 256; b++ {
			c := string([]byte{byte(b)})
			h := len(base) / 2
			add(base, base+c)
			add(base, c+base)
			add(base, base[:h]+c+base[h:])
			if len(base) > 1 {
				add(base, base[:len(base)-1]+c)
				add(base, c+base[1:])
			}
			if b < 33 || b > 126 {
				add(base, base+c+c)
				add(base, c+base+c)
				add(base+c, base+string([]byte{byte(b + 1)}))
			}
		}
		add(base, strings.ToUpper(base))
		add(base, strings.ToLower(base))
		add(base, base+base)
		add(base, "<"+base+">")
		add(base, "\""+base+"\"")
		add(base+"\n", base+"\r\n")
		add(base, base+"\r\n")
		add(base, base+"\u00a0")
		add(base+"\xff", base+"\uFFFD")
		add(base+"\xff", base+"?")
		add(base+"\xc3\xa9", base+"\xe9")
		add(base, base+"\u200b")
		add(base, base+"\u0301")
	}
	for _, x := range namePool {
		for _, y := range namePool {
			add(x, y)
		}
	}
	for n := 0; n < 40; n++ { // numbers as names
		add(fmt.Sprint(n), fmt.Sprint(n+1))
		add(fmt.Sprint(n), fmt.Sprintf("%02d", n))
		add(fmt.Sprintf("Unknown_%d", n), fmt.Sprint(n))
		add(fmt.Sprintf("n%d", n), fmt.Sprintf("n%d0", n))
	}
	for _, w := range dictWords() {
		add("S-1", w)
	}
	for _, p := range collidingNames() { // one hash value
		add(p[0], p[1])
	}
	for n := 1; n < 600; n = n + 1 + n/16 { // differing only at one end of a long name
		l := strings.Repeat("q", n)
		add(l, l+"q")
		add(l+"a", l+"b")
		add("a"+l, "b"+l)
		add(l+"a"+l, l+"b"+l)
	}
	return r
}

// lookFamily: both names defined, hence different rules.
func lookFamily() gramFam {
	pairs := lookPairs()
	return gramFam{"lookalikes", fmt.Sprintf("2 grammars of 2 and 3 rules whose names are any of %d pairs of nearly equal names", len(pairs)), uint64(len(pairs)) * 2, func(i uint64) *Gram {
		p := pairs[i/2]
		if i%2 == 0 {
			g := mkGram(body(alt("a", 1, "c"), alt("d")), body(alt("b", 0, 1), a0))
			g.Names = []string{p[0], p[1]}
			return g
		}
		g := mkGram(body(alt("(", 1, 2, ")")), body(alt("x", 2), a0), body(alt("y", 1), alt("z")))
		g.Names = []string{"start of " + p[0], p[0], p[1]}
		return g
	}}
}

// lookDefects: one of the two names has no rule.
func lookDefects() astFam {
	pairs := lookPairs()
	mk := func(rules ...bnf.Rule) bnf.Grammar { return bnf.Grammar{Rules: rules} }
	rule := func(n string, seqs ...[]bnf.Symbol) bnf.Rule {
		r := bnf.Rule{Head: bnf.SymbolNonTerminal{Name: n}}
		for _, s := range seqs {
			r.Tail.Sequences = append(r.Tail.Sequences, bnf.Sequence{Symbols: s})
		}
		return r
	}
	q := func(s ...bnf.Symbol) []bnf.Symbol { return s }
	forms := []func(x, y string) bnf.Grammar{
		func(x, y string) bnf.Grammar { return mk(rule(x, q(tm("a"), nt(y)), q(tm("b")))) },
		func(x, y string) bnf.Grammar { return mk(rule(x, q(nt(y)))) },
		func(x, y string) bnf.Grammar {
			o := x + y + "?"
			return mk(rule(o, q(nt(x), tm("c")), q(tm("d"))), rule(x, q(tm("a"), nt(x)), q(bnf.SymbolNothing{})), rule(o+"?", q(tm("u"), nt(y), tm("v"))))
		},
		func(x, y string) bnf.Grammar { // x twice and y not at all
			return mk(rule(x, q(tm("a"))), rule(x, q(tm("b"), nt(x))))
		},
	}
	forms = append(forms, func(x, y string) bnf.Grammar {
		return mk(rule(x, q(tm("a"))), rule(x, q(tm("b"))))
	}, func(x, y string) bnf.Grammar {
		return mk(rule(x+y+"?", q(tm("a"))), rule(y, q(tm("b"))), rule(y, q(tm("c"))))
	})
	for a := 0; a < 256; a++ { // every two single bytes, alone and in a name
		for b := 0; b < 256; b++ {
			if a != b {
				x, y := string([]byte{byte(a)}), string([]byte{byte(b)})
				pairs = append(pairs, [2]string{x, y}, [2]string{"r" + x, "r" + y})
			}
		}
	}
	n := uint64(len(forms))
	return astFam{"lookalikes", fmt.Sprintf("%d grammars in which, of %d pairs of nearly equal names, one is defined and the other mentioned (or one defined twice)", n, len(pairs)), uint64(len(pairs)) * n, func(i uint64) bnf.Grammar {
		p := pairs[i/n]
		return forms[i%n](p[0], p[1])
	}}
}
