package main

// C12: conversion of trees under arbitrary bindings.

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

// refConv is the specification of the conversion, from the comments on
// BNFCSTtoASTBindings.
type refConv struct {
	b       fromcst.BNFCSTtoASTBindings
	text    string
	unclear bool // the tree is outside what the bindings' documentation settles
}

func (r *refConv) ignored(t int) bool {
	for _, x := range r.b.IgnoreNodeTypes {
		if x == t {
			return true
		}
	}
	return false
}

// outer: nodes of the type, outermost ones, in document order, skipping ignored subtrees
func (r *refConv) outer(n *RT, typ int, ign bool, out []*RT) []*RT {
	if ign && r.ignored(n.Typ) {
		return out
	}
	if n.Typ == typ {
		return append(out, n)
	}
	for _, k := range n.Kids {
		out = r.outer(k, typ, ign, out)
	}
	return out
}

func (r *refConv) str(n *RT) string { return r.text[n.Pos:n.End] }

func (r *refConv) literal(n *RT) (string, bool) {
	if n.Typ == r.b.EscapeSequenceType {
		c := r.outer(n, r.b.EscapeCharacterType, true, nil)
		if len(c) == 0 {
			return "", false
		}
		v, ok := r.b.EscapeMapping[r.str(c[0])]
		return v, ok
	}
	if n.Typ == -1 {
		return r.str(n), true
	}
	s := ""
	for _, k := range n.Kids {
		x, ok := r.literal(k)
		if !ok {
			return "", false
		}
		s += x
	}
	return s, true
}

func (r *refConv) symbol(n *RT) (bnf.Symbol, bool) {
	var found []*RT
	kinds := 0
	seen := map[int]bool{}
	for _, t := range r.b.SymbolTerminalTypes {
		if seen[t] {
			continue
		}
		seen[t] = true
		if f := r.outer(n, t, true, nil); len(f) > 0 {
			kinds++
			if found == nil {
				found = f
			}
		}
	}
	names := r.outer(n, r.b.SymbolNonTerminalType, true, nil)
	if len(names) > 0 {
		kinds++
	}
	if kinds > 1 {
		r.unclear = true
	}
	if found != nil {
		s, ok := r.literal(found[0])
		if !ok {
			return nil, false
		}
		if s == "" {
			return bnf.SymbolNothing{}, true
		}
		return bnf.SymbolTerminal{Name: s}, true
	}
	if len(names) == 0 {
		return nil, false
	}
	return bnf.SymbolNonTerminal{Name: r.str(names[0])}, true
}

func (r *refConv) grammar(root *RT) (bnf.Grammar, bool) {
	var g bnf.Grammar
	for _, rn := range r.outer(root, r.b.RuleType, true, nil) {
		h := r.outer(rn, r.b.RuleHeadType, true, nil)
		t := r.outer(rn, r.b.RuleTailType, true, nil)
		if len(h) == 0 || len(t) == 0 {
			return g, false
		}
		rule := bnf.Rule{Head: bnf.SymbolNonTerminal{Name: r.str(h[0])}}
		for _, sn := range r.outer(t[0], r.b.ExpressionSequencesType, true, nil) {
			var seq bnf.Sequence
			for _, yn := range r.outer(sn, r.b.SequencesSymbolType, true, nil) {
				y, ok := r.symbol(yn)
				if !ok {
					return g, false
				}
				seq.Symbols = append(seq.Symbols, y)
			}
			rule.Tail.Sequences = append(rule.Tail.Sequences, seq)
		}
		g.Rules = append(g.Rules, rule)
	}
	return g, true
}

func toNode(n *RT) cst.Node {
	var kids []cst.Node
	for _, k := range n.Kids {
		kids = append(kids, toNode(k))
	}
	return cst.NewNode(n.Typ, n.Pos, n.End, kids)
}

func fromNode(n cst.Node) *RT {
	r := &RT{Typ: n.Type(), Pos: n.Pos(), End: n.End()}
	for _, k := range n.Childs() {
		r.Kids = append(r.Kids, fromNode(k))
	}
	return r
}

func (n *RT) size() int {
	s := 1
	for _, k := range n.Kids {
		s += k.size()
	}
	return s
}

func bindString(b fromcst.BNFCSTtoASTBindings) string { return fmt.Sprintf("%+v", b) }

// convCheck converts the tree for real and compares with the specification.
func convCheck(c *Ctx, n *RT, text string, b fromcst.BNFCSTtoASTBindings) bool {
	c.st.Traces++
	ref := &refConv{b: b, text: text}
	want, ok := ref.grammar(n)
	node := toNode(n)
	var got *bnf.Grammar
	var err error
	_, pan, hang := guarded(int64(1_000_000+20_000*n.size()), func() { got, err = b.ToAST(node, text) })
	show := func(what string) bool {
		kv := []any{"tree", clip(refTreeString(n)), "text", fmt.Sprintf("%q", clip(text)), "bindings", bindString(b)}
		if ok {
			kv = append(kv, "expected", clip(deepGrammar(want)))
		} else {
			kv = append(kv, "expected", "an error")
		}
		if got != nil {
			kv = append(kv, "got", clip(deepGrammar(*got)))
		}
		c.violate(what, kv...)
		return false
	}
	if hang {
		return show("conversion did not finish")
	}
	if pan != nil {
		return show(fmt.Sprintf("conversion panicked: %v", pan))
	}
	if (err == nil) == (got == nil) {
		return show(fmt.Sprintf("conversion gave both or neither of a grammar and an error (%v)", err))
	}
	if ref.unclear {
		c.out("unspecified")
		return true
	}
	if !ok {
		c.out("error")
		if err == nil {
			return show("a tree that has to be refused is converted")
		}
		return true
	}
	c.out("grammar")
	if err != nil {
		return show("conversion fails: " + err.Error())
	}
	if d := diffGrammar(want, *got); d != "" {
		return show("conversion gives another grammar: " + d)
	}
	return true
}

// roles of the bindings under three numberings
const (
	roRoot = iota
	roRule
	roHead
	roTail
	roSeq
	roSym
	roT1
	roT2
	roName
	roEsc
	roChr
	roIgn
	roOther
	roLit
	nRoles
)

type numbering struct {
	name string
	typ  [nRoles]int
	b    fromcst.BNFCSTtoASTBindings
}

func numberings() []numbering {
	mk := func(name string, ign []int, swap bool, t ...int) numbering {
		n := numbering{name: name}
		copy(n.typ[:], t)
		n.typ[roLit] = -1
		terms := []int{n.typ[roT1], n.typ[roT2]}
		if swap {
			terms[0], terms[1] = terms[1], terms[0]
		}
		n.b = fromcst.BNFCSTtoASTBindings{IgnoreNodeTypes: ign, RuleType: n.typ[roRule], RuleHeadType: n.typ[roHead], RuleTailType: n.typ[roTail],
			ExpressionSequencesType: n.typ[roSeq], SequencesSymbolType: n.typ[roSym], SymbolTerminalTypes: terms, SymbolNonTerminalType: n.typ[roName],
			EscapeSequenceType: n.typ[roEsc], EscapeCharacterType: n.typ[roChr], EscapeMapping: map[string]string{"t": "\t", "n": "\n", `\`: `\`, "z": "", "xy": "XY"}}
		return n
	}
	return []numbering{
		// the library's own numbers
		mk("own numbers", []int{25}, false, 0, 4, 18, 5, 7, 9, 11, 12, 18, 16, 17, 25, 3),
		// every role distinct, every own number reused for a different role, ignored types unsorted
		mk("own numbers in other roles", []int{40, 9, 30, 9, -5}, true, 16, 7, 5, 18, 4, 25, 17, 16001, 12, 11, 1, 9, 18001),
		// high numbers in reverse, head and names distinct
		mk("reversed high numbers", []int{1001, 2000, 1000}, false, 900, 113, 112, 111, 110, 109, 108, 107, 106, 105, 104, 1000, 25),
	}
}

// forests of n nodes as shape lists come from forestsOf (props_walk.go)

type hole struct {
	name  string
	roles []int // what may stand in the hole
	wrap  func(t func(int, ...*RT) *RT, hole []*RT) *RT
}

func holes() []hole {
	all := []int{roRule, roHead, roTail, roSeq, roSym, roT1, roT2, roName, roIgn, roOther, roLit}
	deep := []int{roTail, roSeq, roSym, roT1, roT2, roName, roEsc, roChr, roIgn, roOther, roLit, roRule}
	type tf = func(int, ...*RT) *RT
	okTail := func(t tf) *RT { return t(roTail, t(roSeq, t(roSym, t(roT1, t(roLit))))) }
	return []hole{
		{"root", all, func(t tf, h []*RT) *RT { return t(roRoot, h...) }},
		{"rule", all, func(t tf, h []*RT) *RT { return t(roRoot, t(roRule, h...), t(roRule, t(roHead), okTail(t))) }},
		{"rule before", all, func(t tf, h []*RT) *RT {
			return t(roRoot, t(roRule, append(append([]*RT{}, h...), t(roHead), okTail(t))...))
		}},
		{"rule after", all, func(t tf, h []*RT) *RT {
			return t(roRoot, t(roRule, append([]*RT{t(roOther, t(roHead)), t(roIgn, okTail(t)), t(roOther, okTail(t))}, h...)...))
		}},
		{"tail", deep, func(t tf, h []*RT) *RT { return t(roRoot, t(roRule, t(roHead), t(roTail, h...))) }},
		{"sequence", deep, func(t tf, h []*RT) *RT {
			return t(roRoot, t(roRule, t(roHead), t(roTail, t(roSeq, h...), t(roSeq, t(roSym, t(roName))))))
		}},
		{"symbol", deep, func(t tf, h []*RT) *RT {
			return t(roRoot, t(roRule, t(roHead), t(roTail, t(roSeq, t(roSym, h...), t(roSym, t(roName))))))
		}},
		{"literal 1", deep, func(t tf, h []*RT) *RT {
			return t(roRoot, t(roRule, t(roHead), t(roTail, t(roSeq, t(roSym, t(roT1, h...))))))
		}},
		{"literal 2", deep, func(t tf, h []*RT) *RT {
			return t(roRoot, t(roRule, t(roHead), t(roTail, t(roSeq, t(roSym, t(roOther, t(roT2, append([]*RT{t(roLit)}, h...)...)))))))
		}},
		{"escape", deep, func(t tf, h []*RT) *RT {
			return t(roRoot, t(roRule, t(roHead), t(roTail, t(roSeq, t(roSym, t(roT2, t(roLit), t(roEsc, h...), t(roEsc, t(roLit), t(roChr))))))))
		}},
	}
}

// layText gives every leaf its own text and every node its span.
func layText(n *RT, style uint64, chr int) string {
	var sb strings.Builder
	leaf := 0
	var rec func(n *RT, inChr bool)
	rec = func(n *RT, inChr bool) {
		n.Pos = sb.Len()
		inChr = inChr || n.Typ == chr
		for _, k := range n.Kids {
			rec(k, inChr)
		}
		if len(n.Kids) == 0 {
			switch {
			case inChr:
				sb.WriteString([]string{"t", "n", "z", "xy", `\`, "q", ""}[(uint64(leaf)+style)%7])
			case (uint64(leaf)*3+style)%8 == 3:
			default:
				sb.WriteString([]string{"a", "Bc", "'", "d-1", "\\t", "\"", "t"}[(uint64(leaf)*5+style)%7])
			}
			leaf++
		}
		n.End = sb.Len()
	}
	rec(n, false)
	return sb.String()
}

// small texts whose trees are edited
var c12Texts = []string{
	"<a>::='x'\"y\\n\"|<b> ''\n<b> ::= '\\\\\\\"' <a>|\"\"",
	"<S>::=<S>'\\t\\r'",
	" <k-1> ::= \"a b\" | '' | <k-1>'|' \r\n\r\n<l>::=''",
}

func cloneRT(n *RT) *RT {
	r := &RT{n.Typ, n.Pos, n.End, nil}
	for _, k := range n.Kids {
		r.Kids = append(r.Kids, cloneRT(k))
	}
	return r
}

// nth node in preorder with its parent
func nthRT(root *RT, n int) (node, parent *RT, at int) {
	cnt := 0
	var rec func(x, p *RT, i int) bool
	rec = func(x, p *RT, i int) bool {
		if cnt == n {
			node, parent, at = x, p, i
			return true
		}
		cnt++
		for j, k := range x.Kids {
			if rec(k, x, j) {
				return true
			}
		}
		return false
	}
	rec(root, nil, 0)
	return
}

// editRT applies edit e at node n; false when not applicable. kind 0 keeps the
// meaning (wrapping in a foreign type), the others are compared with the
// specification only.
const nEdits = 11

func editRT(root *RT, n, e int, foreign, ign int) (out *RT, same, ok bool) {
	out = cloneRT(root)
	x, p, i := nthRT(out, n)
	if x == nil {
		return nil, false, false
	}
	set := func(k ...*RT) {
		if p == nil {
			return
		}
		p.Kids = append(append(append([]*RT{}, p.Kids[:i]...), k...), p.Kids[i+1:]...)
	}
	switch e {
	case 0, 1: // wrap (twice)
		w := &RT{foreign, x.Pos, x.End, []*RT{x}}
		if e == 1 {
			w = &RT{foreign + 1, x.Pos, x.End, []*RT{{foreign, x.Pos, x.Pos, nil}, w, {foreign, x.End, x.End, nil}}}
		}
		if p == nil {
			return w, true, true
		}
		set(w)
		return out, true, true
	case 2: // drop
		if p == nil {
			return nil, false, false
		}
		set()
	case 3: // twice
		if p == nil {
			return nil, false, false
		}
		set(x, x)
	case 4: // into an ignored node
		w := &RT{ign, x.Pos, x.End, []*RT{x}}
		if p == nil {
			return w, false, true
		}
		set(w)
	case 5: // retype as foreign
		x.Typ = foreign
	case 6: // retype as ignored
		x.Typ = ign
	case 7: // swap with the next sibling
		if p == nil || i+1 >= len(p.Kids) {
			return nil, false, false
		}
		p.Kids[i], p.Kids[i+1] = p.Kids[i+1], p.Kids[i]
	case 8: // children moved up
		set(x.Kids...)
		if p == nil {
			return nil, false, false
		}
	case 9: // hang a copy of the whole tree, ignored, before x
		w := &RT{ign, 0, root.End, []*RT{cloneRT(root)}}
		if p == nil {
			return nil, false, false
		}
		set(w, x)
	case 10: // the same as last child of x
		x.Kids = append(x.Kids, &RT{ign, 0, root.End, []*RT{cloneRT(root)}})
	}
	return out, false, true
}

// remap moves the bindings to other numbers.
func remap(b fromcst.BNFCSTtoASTBindings, f func(int) int) fromcst.BNFCSTtoASTBindings {
	v := reflect.ValueOf(&b).Elem()
	for i := 0; i < v.NumField(); i++ {
		switch x := v.Field(i); x.Kind() {
		case reflect.Int:
			x.SetInt(int64(f(int(x.Int()))))
		case reflect.Slice:
			n := reflect.MakeSlice(x.Type(), x.Len(), x.Len())
			for j := 0; j < x.Len(); j++ {
				n.Index(j).SetInt(int64(f(int(x.Index(j).Int()))))
			}
			x.Set(n)
		}
	}
	return b
}

func init() {
	register(&Property{ID: "C12", Title: "conversion follows its bindings",
		Rule:   "states are (tree, text, bindings) triples: all forests of bound, ignored and foreign node types up to a number of nodes in every context of a rule under three numberings; all single (thorough: double) edits of real parse trees; all renumberings of the notation by transposition and rotation; all short lists of ignored types. Transitions are node visits; each triple is converted by the real ToAST and compared with a recursive specification of the bindings",
		Assume: []string{"a symbol holding two kinds of bound literal/name nodes at once is outside what the bindings document: only absence of panics is required there", "types listed as ignored are not bound to a role; inside literal text nothing is ignored (white space is text there)", "trees are proper trees with spans inside the text"},
		Families: func(tier string) []Family {
			thorough := tier == "thorough"
			nums := numberings()
			var fams []Family
			max := 4
			if thorough {
				max = 5
			}
			for _, h := range holes() {
				for nodes := 0; nodes <= max; nodes++ {
					h, nodes := h, nodes
					shapes := forestsOf(nodes)
					lab := product64(len(h.roles), nodes)
					styles := uint64(7)
					if nodes >= 4 {
						styles = 1
					}
					N := uint64(len(shapes)) * lab * styles
					fams = append(fams, Family{Name: fmt.Sprintf("hole %s %d", h.name, nodes), Desc: fmt.Sprintf("every forest of %d nodes over %d node types in the context '%s', under %d numberings and %d distributions of text", nodes, len(h.roles), h.name, len(nums), styles), N: N, Chunk: 64, Run: func(c *Ctx, i uint64) {
						style := i % styles
						if styles == 1 {
							style = i % 7
						}
						l := i / styles
						sh := shapes[l%uint64(len(shapes))]
						l /= uint64(len(shapes))
						for k := range nums {
							nm := &nums[k]
							x := l
							var build func(s *shape) *RT
							build = func(s *shape) *RT {
								r := &RT{Typ: nm.typ[h.roles[x%uint64(len(h.roles))]]}
								x /= uint64(len(h.roles))
								for _, kk := range s.kids {
									r.Kids = append(r.Kids, build(kk))
								}
								return r
							}
							var f []*RT
							for _, s := range sh {
								f = append(f, build(s))
							}
							t := func(role int, kids ...*RT) *RT { return &RT{Typ: nm.typ[role], Kids: kids} }
							tree := h.wrap(t, f)
							text := layText(tree, style, nm.typ[roChr])
							c.st.States++
							c.st.Transitions += int64(tree.size())
							c.sample(func() string { return refTreeString(tree) + " over " + fmt.Sprintf("%q", text) + " (" + nm.name + ")" })
							if !convCheck(c, tree, text, nm.b) {
								return
							}
						}
					}})
				}
			}

			fams = append(fams, escapeFamilies()...)

			// edits of real parse trees
			trees := make([]*RT, len(c12Texts))
			ensure := func(c *Ctx, k int) *RT {
				if trees[k] == nil {
					fe := getFE(c)
					if fe == nil {
						return nil
					}
					pr := callParse(fe.p, c12Texts[k], 50_000_000)
					if pr.err != nil || pr.node == nil {
						c.violate("no tree for a BNF text: "+pr.bad()+fmt.Sprint(pr.err), "text", c12Texts[k])
						return nil
					}
					trees[k] = fromNode(pr.node)
				}
				return trees[k]
			}
			const foreign, ign = 777, 25
			maxNodes := uint64(420)
			fams = append(fams, Family{Name: "edits", Desc: fmt.Sprintf("trees of %d BNF texts: every node x every edit (wrap, drop, duplicate, ignore, retype as every bound type, swap, splice, ignored copies of the whole tree)", len(c12Texts)), N: uint64(len(c12Texts)) * maxNodes, Run: func(c *Ctx, i uint64) {
				k, n := int(i/maxNodes), int(i%maxNodes)
				tree := ensure(c, k)
				if tree == nil {
					return
				}
				if tree.size() > int(maxNodes) {
					c.internal("tree of text %d has %d nodes", k, tree.size())
					return
				}
				if n >= tree.size() {
					return
				}
				b := selfBindings()
				base := readBNF(c12Texts[k]).g
				for e := 0; e < nEdits; e++ {
					t, same, ok := editRT(tree, n, e, foreign, ign)
					if !ok {
						continue
					}
					c.st.States++
					c.st.Transitions++
					if !convCheck(c, t, c12Texts[k], b) {
						return
					}
					if same {
						g, ok := (&refConv{b: b, text: c12Texts[k]}).grammar(t)
						if !ok || diffGrammar(base, g) != "" {
							c.internal("the specification is not invariant under wrapping (%s)", clip(refTreeString(t)))
							return
						}
					}
				}
				for _, typ := range []int{0, 4, 5, 7, 9, 11, 12, 16, 17, 18, 25, -1, -2, 10, 1} {
					t := cloneRT(tree)
					x, _, _ := nthRT(t, n)
					x.Typ = typ
					c.st.States++
					c.st.Transitions++
					if !convCheck(c, t, c12Texts[k], b) {
						return
					}
					// and a leaf of every type as first and last child
					for _, at := range []int{0, 1} {
						t := cloneRT(tree)
						x, _, _ := nthRT(t, n)
						leaf := &RT{typ, 1, 2, nil}
						if at == 0 {
							x.Kids = append([]*RT{leaf}, x.Kids...)
						} else {
							x.Kids = append(append([]*RT{}, x.Kids...), leaf)
						}
						c.st.Transitions++
						if !convCheck(c, t, c12Texts[k], b) {
							return
						}
					}
				}
			}})
			dbl := 1
			if thorough {
				dbl = len(c12Texts)
			}
			fams = append(fams, Family{Name: "double edits", Desc: "every pair of edits at every pair of nodes (quick: the shortest text)", N: uint64(dbl) * maxNodes, Run: func(c *Ctx, i uint64) {
				k, n := []int{1, 2, 0}[i/maxNodes], int(i%maxNodes)
				tree := ensure(c, k)
				if tree == nil || n >= tree.size() {
					return
				}
				b := selfBindings()
				for e := 0; e < nEdits-2; e++ {
					t, _, ok := editRT(tree, n, e, foreign, ign)
					if !ok {
						continue
					}
					for m := n; m < t.size(); m++ {
						for f := 0; f < nEdits; f++ {
							u, _, ok := editRT(t, m, f, foreign+5, ign)
							if !ok {
								continue
							}
							c.st.States++
							c.st.Transitions += 2
							if !convCheck(c, u, c12Texts[k], b) {
								return
							}
						}
					}
				}
			}})

			// ignored types
			unbound := []int{-2, 0, 1, 2, 3, 6, 8, 10, 13, 14, 15, 19, 20, 21, 22, 23, 24, 25, 26, 99}
			nu := uint64(len(unbound))
			fams = append(fams, Family{Name: "ignored", Desc: fmt.Sprintf("every list of up to 3 ignored types out of %d, in every order and with repetitions", len(unbound)), N: 1 + nu + nu*nu + nu*nu*nu, Chunk: 16, Run: func(c *Ctx, i uint64) {
				b := selfBindings()
				b.IgnoreNodeTypes = []int{}
				n := 0
				for p := uint64(1); i >= p; p *= nu {
					i -= p
					n++
				}
				for ; n > 0; n-- {
					b.IgnoreNodeTypes = append(b.IgnoreNodeTypes, unbound[i%nu])
					i /= nu
				}
				c.st.States++
				c.st.Transitions += int64(len(b.IgnoreNodeTypes))
				before := fmt.Sprint(b.IgnoreNodeTypes)
				for k := 0; k < 2; k++ {
					t := ensure(c, k)
					if t == nil || !convCheck(c, t, c12Texts[k], b) {
						return
					}
				}
				if fmt.Sprint(b.IgnoreNodeTypes) != before {
					c.violate("the caller's list of ignored types is changed", "before", before, "after", b.IgnoreNodeTypes)
				}
			}})

			// many ignored types
			type ignList struct {
				l    []int
				what string
			}
			var lists []ignList
			counts := []int{4, 5, 7, 8, 9, 12, 13, 16, 17, 24, 32, 33, 48, 64, 65, 128, 129}
			if thorough {
				counts = nil
				for n := 4; n <= 130; n++ {
					counts = append(counts, n)
				}
			}
			counts = append(counts, dictSizes(3, 600)...)
			for _, n := range counts {
				up := make([]int, n) // above all bound types
				down := make([]int, n)
				around := make([]int, n) // on both sides of the bound types, gaps between
				for k := range up {
					up[k] = 26 + k
					down[n-1-k] = 30 + 3*k
					around[k] = 500 + 7*k
					if k%2 == 1 {
						around[k] = -10 - 7*k
					}
				}
				lists = append(lists, ignList{up, "ascending"}, ignList{down, "descending"}, ignList{around, "both signs, unsorted"})
			}
			fams = append(fams, Family{Name: "ignoredmany", Desc: fmt.Sprintf("%d lists of 4..%d ignored types (ascending, descending, unsorted of both signs): with a type that is the lowest, the highest, in the middle, or just outside of the list, a copy of the whole tree hung at each node in front, behind, around it", len(lists), maxOf(counts)), N: uint64(len(lists)) * maxNodes, Chunk: 16, Run: func(c *Ctx, i uint64) {
				k, n := 1, int(i%maxNodes)
				tree := ensure(c, k)
				if tree == nil || n >= tree.size() {
					return
				}
				l := lists[i/maxNodes].l
				sorted := append([]int{}, l...)
				sort.Ints(sorted)
				lo, hi := sorted[0], sorted[len(sorted)-1]
				for _, ign := range []int{lo, hi, sorted[1], sorted[len(sorted)/2], sorted[len(sorted)-2], lo - 1, hi + 1} {
					if ign >= -2 && ign < 26 {
						continue // a bound type
					}
					for _, e := range []int{4, 6, 9, 10} {
						t, _, ok := editRT(tree, n, e, foreign, ign)
						if !ok {
							continue
						}
						b := selfBindings()
						b.IgnoreNodeTypes = append([]int{}, l...)
						c.st.States++
						c.st.Transitions++
						if !convCheck(c, t, c12Texts[k], b) {
							return
						}
						if !reflect.DeepEqual(b.IgnoreNodeTypes, l) {
							c.violate("the caller's list of ignored types is changed", "before", l, "after", b.IgnoreNodeTypes)
							return
						}
					}
				}
			}})

			// deep wrapping
			depths := []int{3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2049}
			if thorough {
				depths = append(depths, 4097, 8193, 10001, 16385)
			}
			depths = append(depths, dictSizes(16, 20_000)...)
			fams = append(fams, Family{Name: "wrapdeep", Desc: fmt.Sprintf("each node of a parse tree wrapped in a foreign type %d numbers of times up to %d", len(depths), maxOf(depths)), N: uint64(len(depths)) * maxNodes, Chunk: 8, Run: func(c *Ctx, i uint64) {
				k, n := 1, int(i%maxNodes)
				tree := ensure(c, k)
				if tree == nil || n >= tree.size() {
					return
				}
				t := cloneRT(tree)
				x, p, at := nthRT(t, n)
				for d := depths[i/maxNodes]; d > 0; d-- {
					x = &RT{foreign, x.Pos, x.End, []*RT{x}}
				}
				if p == nil {
					t = x
				} else {
					p.Kids[at] = x
				}
				c.st.States++
				c.st.Transitions += int64(depths[i/maxNodes])
				convCheck(c, t, c12Texts[k], selfBindings())
			}})

			// any number for any role
			var values []int
			for v := -8; v < 40; v++ {
				if v != -1 {
					values = append(values, v)
				}
			}
			for sh := 6; sh < 63; sh++ {
				values = append(values, 1<<sh, 1<<sh-1, -1<<sh)
			}
			values = append(values, dictSizes(40, math.MaxInt-1)...)
			values = append(values, math.MaxInt, math.MinInt, -1<<63+1, 777)
			roles := []int{0, 1, 3, 4, 5, 7, 9, 11, 12, 16, 17, 18, 22, 25}
			nr := uint64(len(roles))
			fams = append(fams, Family{Name: "numbers", Desc: fmt.Sprintf("trees of %d BNF texts: the number of each of %d node types exchanged with each of %d numbers (negative, 0, small, around every power of two, extreme), in the tree and the bindings alike; and each exchanged in the tree or the bindings only", len(c12Texts), nr, len(values)), N: nr * uint64(len(values)), Run: func(c *Ctx, i uint64) {
				x, y := roles[i%nr], values[i/nr]
				swap := func(t int) int {
					switch t {
					case x:
						return y
					case y:
						return x
					}
					return t
				}
				var relabel func(n *RT)
				relabel = func(n *RT) {
					n.Typ = swap(n.Typ)
					for _, k := range n.Kids {
						relabel(k)
					}
				}
				for k := range c12Texts {
					t := ensure(c, k)
					if t == nil {
						return
					}
					sw := cloneRT(t)
					relabel(sw)
					b := selfBindings()
					swb := remap(b, swap)
					c.st.States += 3
					c.st.Transitions += int64(3 * t.size())
					if !convCheck(c, sw, c12Texts[k], swb) || !convCheck(c, sw, c12Texts[k], b) || !convCheck(c, t, c12Texts[k], swb) {
						return
					}
				}
			}})

			// renumbered notation
			perms := renumberings(26, thorough)
			texts := append([]string{}, c12Texts...)
			texts = append(texts, "<a>::='\\q'", "<a>::='x", writeGram(bnf.SelfGrammar(), 12345))
			fams = append(fams, Family{Name: "renumbered", Desc: fmt.Sprintf("the notation's rules in %d other orders (start rule first), bindings renumbered alike: texts read, converted, compared", len(perms)), N: uint64(len(perms)), Run: func(c *Ctx, i uint64) {
				perm := perms[i] // new position -> old index
				self := bnf.SelfGrammar()
				if len(self.Rules) != 26 {
					// the notation's numbering changed: not what this family assumes
					c.violate("the notation's grammar has another number of rules", "rules", len(self.Rules))
					return
				}
				var g bnf.Grammar
				inv := make([]int, 26)
				for n, o := range perm {
					g.Rules = append(g.Rules, self.Rules[o])
					inv[o] = n
				}
				b := remap(selfBindings(), func(x int) int {
					if x >= 0 && x < 26 {
						return inv[x]
					}
					return x
				})
				fg := callFG(g, 1<<40)
				if fg.bad() != "" || fg.err != nil {
					c.violate("the renumbered notation gets no table: "+fg.bad()+fmt.Sprint(fg.err), "order", perm)
					return
				}
				p := parser.NewLL1Parser(*fg.table, *fg.names)
				for _, text := range texts {
					c.st.States++
					c.st.Transitions++
					ref := readBNF(text)
					pr := callParse(p, text, 1<<40)
					c.st.Traces++
					if pr.bad() != "" || (pr.err == nil) != ref.accepts() {
						c.violate("reading with the renumbered notation differs: "+pr.bad()+fmt.Sprint(pr.err), "order", perm, "text", clip(text))
						return
					}
					if pr.err != nil {
						c.out("refused")
						continue
					}
					var got *bnf.Grammar
					var err error
					_, pan, hang := guarded(1<<40, func() { got, err = b.ToAST(pr.node, text) })
					if pan != nil || hang || err != nil || got == nil {
						c.violate(fmt.Sprintf("conversion with renumbered bindings fails: %v %v", pan, err), "order", perm, "text", clip(text), "bindings", bindString(b))
						return
					}
					if d := diffGrammar(ref.g, *got); d != "" {
						c.violate("conversion with renumbered bindings gives another grammar: "+d, "order", perm, "text", clip(text), "bindings", bindString(b))
						return
					}
					c.out("grammar")
				}
			}})
			return fams
		}})
}

// renumberings of n rules keeping rule 0 first: identity, reversal, all
// rotations, all transpositions; thorough: all 3-cycles of neighbours in the
// rotations too.
func renumberings(n int, thorough bool) [][]int {
	id := func() []int {
		r := make([]int, n)
		for i := range r {
			r[i] = i
		}
		return r
	}
	out := [][]int{id()}
	rev := id()
	sort.Sort(sort.Reverse(sort.IntSlice(rev[1:])))
	out = append(out, rev)
	m := n - 1
	for k := 1; k < m; k++ {
		r := id()
		for i := 0; i < m; i++ {
			r[1+i] = 1 + (i+k)%m
		}
		out = append(out, r)
	}
	for i := 1; i < n; i++ {
		for j := i + 1; j < n; j++ {
			r := id()
			r[i], r[j] = r[j], r[i]
			out = append(out, r)
			if thorough {
				q := append([]int{}, rev...)
				q[i], q[j] = q[j], q[i]
				out = append(out, q)
				for k := j + 1; k < n; k++ {
					q := id()
					q[i], q[j], q[k] = q[j], q[k], q[i]
					out = append(out, q)
				}
			}
		}
	}
	return out
}

func maxOf(l []int) int {
	m := l[0]
	for _, x := range l {
		if x > m {
			m = x
		}
	}
	return m
}
