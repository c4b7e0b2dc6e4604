package main

// C17 on larger grammars, inputs and trees: state that only comes into being
// beyond some size (caches, pools, lazily built parts) is shared state too.

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

type wideGram struct {
	name string
	mk   func() *Gram
}

var wideList []wideGram

// made before any thread starts
func wideGrams() []wideGram {
	if wideList == nil {
		wideList = makeWideGrams()
	}
	return wideList
}

func makeWideGrams() []wideGram {
	var r []wideGram
	add := func(name string, mk func() *Gram) { r = append(r, wideGram{name, mk}) }
	for k := range handmade() {
		add(fmt.Sprintf("handmade %d", k), func() *Gram { return handmade()[k] })
	}
	for k, sh := range ladderShapes() {
		sizes := []int{3, 17, 65, 130}
		if bySymbols(k) {
			sizes = []int{3, 65, 300, 1100, 4200}
		}
		if k == 1 || k >= 5 && k <= 7 { // many passes over all pairs of rules
			sizes = []int{3, 17, 40}
		}
		for _, n := range sizes {
			add(fmt.Sprintf("ladder shape %d size %d", k, n), func() *Gram { return sh(n) })
		}
	}
	add("the BNF notation", bnfGram)
	add("JSON", jsonGram)
	for k := range longGrams() {
		add(fmt.Sprintf("long %d", k), func() *Gram { return longGrams()[k] })
	}
	per := denseFamily().n / 255
	for k := uint64(0); k < per; k++ {
		add(fmt.Sprintf("dense %d", k), func() *Gram { return denseFamily().at(127*per + k) })
	}
	for k := uint64(0); k < 8; k++ {
		add(fmt.Sprintf("dag %d", k), func() *Gram { return dagFamily().at(9*8 + k) })
	}
	return r
}

const wideKinds = 8

var wideKindNames = []string{"generating twice from one grammar", "two accepted inputs, one parser", "an accepted and a rejected input, one parser", "building parsers from one table, and parsing",
	"printing and generating, both ways round", "converting one tree twice with shared bindings", "walking one tree twice", "generating, building and parsing one input"}

func gramUses() int { return len(wideGrams()) * wideKinds }

func wideCount() int { return gramUses() + len(probeGroupNames()) }

func wideName(i int) string {
	if k := i - gramUses(); k >= 0 {
		return "each thread, in opposite orders, all of: " + probeGroupNames()[k] + "0..255"
	}
	return wideKindNames[i%wideKinds] + ": " + wideGrams()[i/wideKinds].name
}

func wideParse(p parser.LL1Parser, src any) string {
	r := &PR{}
	r.node, r.names, r.err = p.Parse(src)
	o := outcomeDigest(r)
	return fmt.Sprint(o.err, "|", o.tree, "|", o.names)
}

func wideGen(g bnf.Grammar) string {
	t, n, err := tablegen.FromGrammar(g)
	if err != nil {
		return "error " + err.Error()
	}
	h, cells := uint64(14695981039346656037), 0
	mix := func(s string) {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
	}
	for k := 0; k < len(*t); k++ {
		for b := 0; b < 256; b++ {
			if ops, ok := (*t)[k][byte(b)]; ok {
				cells++
				mix(fmt.Sprint(k, b, len(ops)))
				for _, o := range ops {
					mix(fmt.Sprintf("%#v", o))
				}
			}
		}
	}
	mix(fmt.Sprint(*n))
	return fmt.Sprintf("%d rows %d cells digest %x", len(*t), cells, h)
}

// wideScenario builds number i; nil when it does not apply to the grammar. It
// makes its inputs without calling the operations under test where possible,
// so that a first call is a first call.
func wideScenario(i int, maxBytes int) func() []func() string {
	if k := i - gramUses(); k >= 0 {
		ps := probeGroups()[probeGroupNames()[k]]
		return func() []func() string {
			f := func(rev bool) func() string {
				return func() string {
					out := make([]string, len(ps))
					for k := range ps {
						if rev {
							k = len(ps) - 1 - k
						}
						out[k] = digest(ps[k].run())
					}
					return strings.Join(out, "\n")
				}
			}
			return []func() string{f(false), f(true)}
		}
	}
	g := wideGrams()[i/wideKinds].mk()
	kind := i % wideKinds
	cells := 0
	for _, b := range g.Rules {
		for _, a := range b {
			cells += len(a)
		}
	}
	t := analyse(g)
	same := func(f func() string) []func() string { return []func() string{f, f} }
	sentences := func() []string {
		var r []string
		for s := 0; s < 2; s++ {
			for _, budget := range []int{maxBytes, 20} {
				if w, ok := t.sentence(s, budget, maxBytes); ok && len(w) <= 4*maxBytes {
					r = append(r, w)
				}
			}
		}
		return r
	}
	table := func() (Table, map[int]string) { return rTable(t), namesOf(g) }
	switch kind {
	case 0:
		return func() []func() string {
			b := toBNF(g)
			return same(func() string { return wideGen(b) })
		}
	case 4:
		return func() []func() string {
			b := toBNF(g)
			return []func() string{func() string { return b.String() + wideGen(b) }, func() string { return wideGen(b) + b.String() }}
		}
	case 5, 6:
		if cells > 1500 {
			return nil
		}
		text := toBNF(g).String()
		bt := analyse(bnfGram())
		ref := bt.run(text, false)
		if ref.Tree == nil {
			return nil
		}
		return func() []func() string {
			node, _, err := parser.NewLL1Parser(rTable(bt), namesOf(bnfGram())).Parse(text)
			if err != nil {
				return same(func() string { return "error " + err.Error() })
			}
			bind := fromcst.SelfCSTtoASTBindings()
			if kind == 5 {
				return same(func() string { return aOut(bind.ToAST(node, text)) })
			}
			return same(func() string {
				v := &digestVisitor{}
				cst.Walk(v, node)
				return fmt.Sprint(v.n, v.h)
			})
		}
	}
	if t.conflict {
		return nil
	}
	ws := sentences()
	if len(ws) == 0 {
		return nil
	}
	w1, w2 := ws[0], ws[len(ws)-1]
	switch kind {
	case 1:
		return func() []func() string {
			tb, n := table()
			p := parser.NewLL1Parser(tb, n)
			buf := []byte(w1)
			return []func() string{func() string { return wideParse(p, w1) + wideParse(p, buf) }, func() string { return wideParse(p, strings.NewReader(ws[len(ws)/2])) + wideParse(p, buf) + wideParse(p, w2) }}
		}
	case 2:
		bad := w1 + "\x01\xfe"
		if len(w1) > 0 {
			bad = w1[:len(w1)-1]
		}
		return func() []func() string {
			tb, n := table()
			p := parser.NewLL1Parser(tb, n)
			return []func() string{func() string { return wideParse(p, w1) }, func() string { return wideParse(p, bad) + wideParse(p, bytes.NewReader([]byte(w1+"\x01\xfe"))) }}
		}
	case 3:
		return func() []func() string {
			tb, n := table()
			f := func(w string) func() string {
				return func() string { return wideParse(parser.NewLL1Parser(tb, n), w) }
			}
			return []func() string{f(w1), f(w2)}
		}
	default:
		return func() []func() string {
			b := toBNF(g)
			f := func(w string) func() string {
				return func() string {
					t, n, err := tablegen.FromGrammar(b)
					if err != nil {
						return "error " + err.Error()
					}
					return wideParse(parser.NewLL1Parser(*t, *n), w)
				}
			}
			return []func() string{f(w2), f(w1)}
		}
	}
}

type digestVisitor struct {
	n int
	h uint64
}

func (d *digestVisitor) Visit(n cst.Node) cst.Visitor {
	d.n++
	for _, v := range []int{n.Type(), n.Pos(), n.End()} {
		d.h = (d.h ^ uint64(v)) * 1099511628211
	}
	return d
}
