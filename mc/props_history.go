package main

// C16: independence of history, no side effects.

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

// hEnv is one world of shared objects.
type hEnv struct {
	gA, gB, gConf, gUndef bnf.Grammar // grammars handed in
	rA, rB                *Gram       // and their reference form
	tA, tB                *Theory
	tblA, tblB            Table // hand-made tables handed to parsers
	namA, namB            map[int]string
	pA, pB                parser.LL1Parser
	buf                   []byte        // reused input buffer
	bb                    *bytes.Buffer // reused buffer object
	self                  parser.LL1Parser
	selfTbl               Table
	selfNam               map[int]string
	text1, text2          string
	cst1, cst2            cst.Node
	bind                  fromcst.BNFCSTtoASTBindings
	// pristine copies
	snap map[string]string
	last map[string]any
}

// rTable: the textbook table as a real table.
func rTable(t *Theory) Table {
	r := Table{}
	for i, b := range t.g.Rules {
		row := map[byte][]parser.ParserOp{}
		for la := 0; la <= EOI; la++ {
			k := t.table[i][la]
			if k == 0 {
				continue
			}
			ops := []parser.ParserOp{}
			if k > 0 {
				for _, s := range b[k-1] {
					if s.NT {
						ops = append(ops, parser.OpNonTerminal(s.N))
					} else {
						ops = append(ops, parser.OpTerminal(s.T))
					}
				}
			}
			row[byte(la)] = ops
		}
		r[i] = row
	}
	return r
}

func namesOf(g *Gram) map[int]string {
	m := map[int]string{}
	for i, n := range g.Names {
		m[i] = n
	}
	return m
}

func selfBindings() fromcst.BNFCSTtoASTBindings {
	b := fromcst.SelfCSTtoASTBindings()
	b.IgnoreNodeTypes = []int{25, 24, 900, 3000, 800} // unsorted on purpose
	return b
}

// deep value rendering of everything reachable, for "was it modified".
func deep(v any) string { return fmt.Sprintf("%#v", v) }

func deepTable(t Table) string {
	var sb strings.Builder
	for i := -3; i < len(t)+3; i++ {
		row, ok := t[i]
		if !ok {
			continue
		}
		fmt.Fprintf(&sb, "row %d (%d):", i, len(row))
		for b := 0; b < 256; b++ {
			if ops, ok := row[byte(b)]; ok {
				fmt.Fprintf(&sb, " %d:%#v", b, ops)
			}
		}
	}
	fmt.Fprintf(&sb, " rows=%d", len(t))
	return sb.String()
}

func deepGrammar(g bnf.Grammar) string {
	var sb strings.Builder
	for _, r := range g.Rules {
		fmt.Fprintf(&sb, "%q:", r.Head.Name)
		for _, s := range r.Tail.Sequences {
			fmt.Fprintf(&sb, " | %#v", s.Symbols)
		}
		sb.WriteString(";")
	}
	return sb.String()
}

func newHEnv() (*hEnv, string) {
	e := &hEnv{last: map[string]any{}}
	e.rA = mkGram(body(alt("a", 1, "c"), alt("d")), body(alt("b", 0, 1), a0))
	e.rB = mkGram(body(alt(1, 2, "!")), body(a0, alt("x", 1)), body(alt("\n"), a0))
	conf := mkGram(body(alt("a"), alt(1)), body(alt("a")))
	e.gA, e.gB, e.gConf = toBNF(e.rA), toBNF(e.rB), toBNF(conf)
	e.gUndef = toBNF(mkGram(body(alt("a"))))
	e.gUndef.Rules[0].Tail.Sequences[0].Symbols = append(e.gUndef.Rules[0].Tail.Sequences[0].Symbols, nt("U"))
	e.tA, e.tB = analyse(e.rA), analyse(e.rB)
	e.tblA, e.tblB = rTable(e.tA), rTable(e.tB)
	e.namA, e.namB = namesOf(e.rA), namesOf(e.rB)
	e.pA, e.pB = parser.NewLL1Parser(e.tblA, e.namA), parser.NewLL1Parser(e.tblB, e.namB)
	e.buf = make([]byte, 0, 64)
	e.bb = &bytes.Buffer{}
	bt := analyse(bnfGram())
	e.selfTbl, e.selfNam = rTable(bt), namesOf(bnfGram())
	e.self = parser.NewLL1Parser(e.selfTbl, e.selfNam)
	e.text1 = "<S> ::= 'x\\n' <T-1> | \"\"\n<T-1> ::= \"q\\\"\"  "
	e.text2 = "<U> ::= \"\\t'\" | <U>"
	for i, t := range []string{e.text1, e.text2} {
		pr := callParse(e.self, t, 1<<40)
		if pr.bad() != "" || pr.err != nil {
			return nil, "BNF text is not parsed: " + pr.bad() + fmt.Sprint(pr.err)
		}
		if i == 0 {
			e.cst1 = pr.node
		} else {
			e.cst2 = pr.node
		}
	}
	e.bind = selfBindings()
	e.snap = e.inputsNow()
	return e, ""
}

// inputsNow renders every object the calls are given.
func (e *hEnv) inputsNow() map[string]string {
	return map[string]string{
		"grammar A": deepGrammar(e.gA), "grammar B": deepGrammar(e.gB), "grammar with a conflict": deepGrammar(e.gConf), "grammar with an undefined name": deepGrammar(e.gUndef),
		"table A": deepTable(e.tblA), "table B": deepTable(e.tblB),
		"names A": deep(e.namA), "names B": deep(e.namB), "BNF names": deep(e.selfNam),
		"tree 1": treeString(e.cst1), "tree 2": treeString(e.cst2),
		"bindings": deep(e.bind),
	}
}

type hOp struct {
	name string
	f    func(e *hEnv) string // "" = as specified
}

func (e *hEnv) parse(p parser.LL1Parser, t *Theory, w string, src any) string {
	r := t.run(w, false)
	pr := callParse(p, src, parseFuel(t.g, r.Moves, len(w)))
	if b := pr.bad(); b != "" {
		return b
	}
	if r.Tree == nil {
		if pr.err == nil {
			return fmt.Sprintf("%q is accepted", w)
		}
		if pr.node != nil || pr.names != nil {
			return "an error comes with a tree or names"
		}
		key := "err " + t.g.String() + w
		if prev, ok := hErrs[key]; ok && prev != pr.err.Error() {
			return fmt.Sprintf("the error for %q was %q and is now %q", w, prev, pr.err)
		}
		hErrs[key] = pr.err.Error()
		return ""
	}
	if pr.err != nil {
		return fmt.Sprintf("%q is rejected: %v", w, pr.err)
	}
	if d := diffTree(r.Tree, pr.node, "root"); d != "" {
		return "wrong tree: " + d
	}
	if !namesEqual(wantNames(t.g, true), pr.names) {
		return fmt.Sprintf("wrong names: %v", *pr.names)
	}
	e.last["names"] = pr.names
	e.last["tree"] = pr.node
	return ""
}

var hErrs = map[string]string{}

func (e *hEnv) gen(g bnf.Grammar, t *Theory) string {
	f := callFG(g, 5_000_000)
	if b := f.bad(); b != "" {
		return b
	}
	if t == nil {
		if f.err == nil {
			return "a grammar that must be refused got a table"
		}
		key := "gen " + deepGrammar(g)
		if prev, ok := hErrs[key]; ok && prev != f.err.Error() {
			return fmt.Sprintf("the refusal was %q and is now %q", prev, f.err)
		}
		hErrs[key] = f.err.Error()
		return ""
	}
	if f.err != nil {
		return "an LL(1) grammar is refused: " + f.err.Error()
	}
	if d := diffTable(t, *f.table); d != "" {
		return "wrong table: " + d
	}
	if !namesEqual(wantNames(t.g, false), f.names) {
		return "wrong names"
	}
	e.last["table"] = f.table
	e.last["rownames"] = f.names
	e.last["freshgrammar"] = t
	return ""
}

func hOps() []hOp {
	text1 := bnf.Grammar{Rules: []bnf.Rule{
		{Head: bnf.SymbolNonTerminal{Name: "S"}, Tail: bnf.Substitution{Sequences: []bnf.Sequence{{Symbols: []bnf.Symbol{tm("x\n"), nt("T-1")}}, {Symbols: []bnf.Symbol{bnf.SymbolNothing{}}}}}},
		{Head: bnf.SymbolNonTerminal{Name: "T-1"}, Tail: bnf.Substitution{Sequences: []bnf.Sequence{{Symbols: []bnf.Symbol{tm("q\"")}}}}}}}
	text2 := bnf.Grammar{Rules: []bnf.Rule{{Head: bnf.SymbolNonTerminal{Name: "U"}, Tail: bnf.Substitution{Sequences: []bnf.Sequence{{Symbols: []bnf.Symbol{tm("\t'")}}, {Symbols: []bnf.Symbol{nt("U")}}}}}}}
	conv := func(e *hEnv, root cst.Node, text string, want bnf.Grammar) string {
		var g *bnf.Grammar
		var err error
		_, p, hang := guarded(5_000_000, func() { g, err = e.bind.ToAST(root, text) })
		if hang || p != nil || err != nil || g == nil {
			return fmt.Sprintf("conversion failed: hang=%v panic=%v error=%v", hang, p, err)
		}
		e.last["ast"] = g
		return diffGrammar(want, *g)
	}
	fill := func(e *hEnv, w string) []byte {
		e.buf = append(e.buf[:0], w...)
		return e.buf
	}
	return []hOp{
		{"parse A ok (string)", func(e *hEnv) string { return e.parse(e.pA, e.tA, "abdcc"[:4], "abdc") }},
		{"parse A rejected midway", func(e *hEnv) string { return e.parse(e.pA, e.tA, "abdx", "abdx") }},
		{"parse A rejected at the end of input", func(e *hEnv) string { return e.parse(e.pA, e.tA, "ab", "ab") }},
		{"parse B ok (reader)", func(e *hEnv) string { return e.parse(e.pB, e.tB, "xx\n!", strings.NewReader("xx\n!")) }},
		{"parse B trailing input", func(e *hEnv) string { return e.parse(e.pB, e.tB, "x!!", "x!!") }},
		{"parse A from the reused slice, first content", func(e *hEnv) string {
			b := fill(e, "ac")
			r := e.parse(e.pA, e.tA, "ac", b)
			if string(b) != "ac" {
				return "the input slice was modified"
			}
			return r
		}},
		{"parse A from the reused slice, second content", func(e *hEnv) string {
			b := fill(e, "dq")
			r := e.parse(e.pA, e.tA, "dq", b)
			if string(b) != "dq" || string(e.buf[:cap(e.buf)][2:4]) == "ZZ" {
				return "the input slice was modified"
			}
			copy(e.buf[:2], "ad") // change it after the call
			return r
		}},
		{"parse B from the reused buffer object", func(e *hEnv) string {
			e.bb.Reset()
			e.bb.WriteString("x\n!")
			r := e.parse(e.pB, e.tB, "x\n!", e.bb)
			if r == "" && e.bb.String() == "x\n!" {
				r = e.parse(e.pB, e.tB, "x\n!", e.bb)
			} else if r == "" {
				return "the buffer given was drained or changed"
			}
			e.bb.Reset()
			e.bb.WriteString("ZZZZZ")
			return r
		}},
		{"new parser from table A, parse with both", func(e *hEnv) string {
			p := parser.NewLL1Parser(e.tblA, e.namA)
			if r := e.parse(p, e.tA, "d", "d"); r != "" {
				return r
			}
			return e.parse(e.pA, e.tA, "ac", "ac")
		}},
		{"generate A", func(e *hEnv) string { return e.gen(e.gA, e.tA) }},
		{"generate B", func(e *hEnv) string { return e.gen(e.gB, e.tB) }},
		{"generate refused (conflict)", func(e *hEnv) string { return e.gen(e.gConf, nil) }},
		{"generate refused (undefined name)", func(e *hEnv) string { return e.gen(e.gUndef, nil) }},
		{"change the results returned last", func(e *hEnv) string {
			if m, ok := e.last["names"].(*map[int]string); ok && m != nil {
				(*m)[0] = "changed"
				delete(*m, 1)
				(*m)[77] = "added"
			}
			if m, ok := e.last["rownames"].(*map[int]string); ok && m != nil {
				(*m)[0] = "changed"
				delete(*m, 1)
			}
			if m, ok := e.last["table"].(*Table); ok && m != nil {
				for k := range *m {
					for b := range (*m)[k] {
						if ops := (*m)[k][b]; len(ops) > 0 {
							ops[0] = parser.OpTerminal("changed")
						}
						delete((*m)[k], b)
						break
					}
				}
				delete(*m, 1)
			}
			if n, ok := e.last["tree"].(cst.Node); ok && n != nil {
				if k := n.Childs(); len(k) > 0 {
					k[0] = cst.NewNode(99, 9, 9, nil)
				}
			}
			if g, ok := e.last["ast"].(*bnf.Grammar); ok && g != nil {
				g.Rules[0].Head.Name = "changed"
				g.Rules[0].Tail.Sequences[0].Symbols[0] = tm("changed")
			}
			if g, ok := e.last["self"].(*bnf.Grammar); ok && g != nil {
				g.Rules[0].Head.Name = "changed"
				for i := range g.Rules {
					for j := range g.Rules[i].Tail.Sequences {
						g.Rules[i].Tail.Sequences[j].Symbols[0] = tm("changed")
					}
				}
			}
			if b, ok := e.last["bindings"].(*fromcst.BNFCSTtoASTBindings); ok && b != nil {
				b.EscapeMapping["n"] = "changed"
				b.IgnoreNodeTypes[0] = 5
				b.SymbolTerminalTypes[0] = 3
			}
			e.last = map[string]any{}
			return ""
		}},
		{"convert tree 1", func(e *hEnv) string { return conv(e, e.cst1, e.text1, text1) }},
		{"convert tree 2", func(e *hEnv) string { return conv(e, e.cst2, e.text2, text2) }},
		{"convert tree 2 with the library's bindings", func(e *hEnv) string {
			b := fromcst.SelfCSTtoASTBindings()
			e.last["bindings"] = &b
			var g *bnf.Grammar
			var err error
			_, p, hang := guarded(5_000_000, func() { g, err = b.ToAST(e.cst2, e.text2) })
			if hang || p != nil || err != nil {
				return fmt.Sprintf("conversion failed: hang=%v panic=%v error=%v", hang, p, err)
			}
			return diffGrammar(text2, *g)
		}},
		{"convert with an unknown escape (fails)", func(e *hEnv) string {
			b := e.bind
			b.EscapeMapping = map[string]string{"n": "\n"}
			var err error
			_, p, hang := guarded(5_000_000, func() { _, err = b.ToAST(e.cst2, e.text2) })
			if hang || p != nil || err == nil {
				return fmt.Sprintf("conversion did not fail: hang=%v panic=%v error=%v", hang, p, err)
			}
			return ""
		}},
		{"print grammar A", func(e *hEnv) string {
			if s := e.gA.String(); s != "<S> ::= \"a\" <A> \"c\" | \"d\"\n<A> ::= \"b\" <S> <A> | \"\"" {
				return fmt.Sprintf("printed as %q", s)
			}
			return ""
		}},
		{"the self grammar", func(e *hEnv) string {
			g := bnf.SelfGrammar()
			e.last["self"] = &g
			if d := diffGrammar(toBNF(bnfGram()), g); d != "" {
				return "the self grammar differs: " + d
			}
			return ""
		}},
	}
}

type logWatch struct {
	path string
	size int64
}

func (l *logWatch) now() int64 {
	if l.path == "" {
		return 0
	}
	fi, err := os.Stat(l.path)
	if err != nil {
		return 0
	}
	return fi.Size()
}

func init() {
	var env *hEnv
	watch := &logWatch{path: os.Getenv("VERIF_LOG")}
	register(&Property{ID: "C16", Title: "history independence",
		Rule:   "states are the call histories over a world of shared objects (grammars, hand-made tables and names, parsers, reused buffers, trees, bindings), all sequences of operations up to the stated length; transitions are real calls, each compared with the reference result; after every sequence every object handed in is compared with its pristine rendering and standard output and error are checked to be untouched",
		Assume: []string{"a parser keeps referring to the table and names it was given: those are not changed by the harness after NewLL1Parser", "expected results come from the reference models; error texts are only required to stay the same"},
		Families: func(tier string) []Family {
			ops := hOps()
			depth := 4
			if tier == "thorough" {
				depth = 5
			}
			fams := []Family{opListFamily()}
			for d := 1; d <= depth; d++ {
				d := d
				n := uint64(1)
				for k := 0; k < d; k++ {
					n *= uint64(len(ops))
				}
				fams = append(fams, Family{Name: fmt.Sprintf("histories%d", d), Desc: fmt.Sprintf("all sequences of %d of %d operations", d, len(ops)), N: n, Chunk: 16, Run: func(c *Ctx, i uint64) {
					var msg string
					if watch.size == 0 {
						watch.size = watch.now()
					}
					env, msg = newHEnv()
					if msg != "" {
						c.violate(msg)
						return
					}
					k := i
					names := []string{}
					for s := 0; s < d; s++ {
						o := ops[k%uint64(len(ops))]
						k /= uint64(len(ops))
						names = append(names, o.name)
						c.st.Transitions++
						if r := o.f(env); r != "" {
							c.violate("a call does not depend on its arguments alone: "+r, "calls", strings.Join(names, " ; "), "failing call", o.name)
							return
						}
						c.out(o.name)
					}
					c.st.States++
					c.st.Traces++
					now := env.inputsNow()
					if !reflect.DeepEqual(now, env.snap) {
						for key := range now {
							if now[key] != env.snap[key] {
								c.violate("a call modified what it was given: "+key, "calls", strings.Join(names, " ; "), "before", env.snap[key], "after", now[key])
								return
							}
						}
					}
					if sz := watch.now(); sz != watch.size {
						watch.size = sz
						c.violate("a call wrote to standard output or standard error", "calls", strings.Join(names, " ; "))
						return
					}
					c.sample(func() string { return strings.Join(names, " ; ") })
				}})
			}
			// long histories: cycles of operations repeated many times
			no := uint64(len(ops))
			run := func(name, desc string, n uint64, laps int, cycle func(i uint64) []uint64) {
				fams = append(fams, Family{Name: name, Desc: desc, N: n, Chunk: 4, Run: func(c *Ctx, i uint64) {
					if watch.size == 0 {
						watch.size = watch.now()
					}
					e, msg := newHEnv()
					if msg != "" {
						c.violate(msg)
						return
					}
					cy := cycle(i)
					c.st.States++
					c.st.Traces++
					for l := 0; l < laps; l++ {
						for _, k := range cy {
							c.st.Transitions++
							if r := ops[k].f(e); r != "" {
								var names []string
								for _, k := range cy {
									names = append(names, ops[k].name)
								}
								c.violate("a call does not depend on its arguments alone: "+r, "calls, repeated", strings.Join(names, " ; "), "failing call", ops[k].name, "in round", l)
								return
							}
						}
					}
					now := e.inputsNow()
					for key := range now {
						if now[key] != e.snap[key] {
							c.violate("a call modified what it was given: "+key, "cycle", fmt.Sprint(cy), "before", e.snap[key], "after", now[key])
							return
						}
					}
					if sz := watch.now(); sz != watch.size {
						watch.size = sz
						c.violate("a call wrote to standard output or standard error", "cycle", fmt.Sprint(cy))
					}
				}})
			}
			l1, l2, l3 := 66_000, 300, 20
			if tier == "thorough" {
				l1, l2, l3 = 200_000, 5_000, 300
			}
			run("cycles1", fmt.Sprintf("every operation repeated %d times in one world", l1), no, l1, func(i uint64) []uint64 { return []uint64{i} })
			run("cycles2", fmt.Sprintf("every pair of operations alternated %d times", l2), no*no, l2, func(i uint64) []uint64 { return []uint64{i / no, i % no} })
			run("cycles3", fmt.Sprintf("every triple of operations repeated %d times", l3), no*no*no, l3, func(i uint64) []uint64 { return []uint64{i / no / no, i / no % no, i % no} })
			fams = append(fams, freshFamily(), countsFamily(), environmentFamily(), tornFamily(), collideFamily())
			for _, gf := range gramFamilies("quick") {
				if gf.name != "perm" && gf.name != "one" && gf.name != "ladder" && gf.name != "bytes" && gf.name != "names" && !((gf.name == "two" || gf.name == "chain3") && tier == "thorough") {
					continue
				}
				gf := gf
				fams = append(fams, Family{Name: "repeat-" + gf.name, Desc: "every grammar generated twice and its explored inputs parsed forwards, backwards and again by a second parser: same results, nothing modified, nothing printed; " + gf.desc, N: gf.n, Chunk: 16, Run: func(c *Ctx, i uint64) {
					repeatGrammar(c, toBNF(gf.at(i)), gf.at(i), gf.name)
					silent(c, watch, gf.at(i).String())
				}})
			}
			for _, af := range malformedFamilies("quick") {
				af := af
				if (af.name == "defects" || af.name == "duplicates") && tier != "thorough" {
					continue
				}
				fams = append(fams, Family{Name: "repeat-" + af.name, Desc: "grammar objects of C05 generated twice: same result, nothing modified, nothing printed; " + af.desc, N: af.n, Chunk: 64, Run: func(c *Ctx, i uint64) {
					g := af.at(i)
					repeatGrammar(c, g, nil, af.name)
					silent(c, watch, astString(g))
				}})
			}
			return fams
		}})
}

func silent(c *Ctx, watch *logWatch, what string) {
	if c.st.Done%64 != 63 && !c.verbose {
		return // the log is looked at in blocks; the blocks before are re-run on a report
	}
	if sz := watch.now(); sz != watch.size {
		watch.size = sz
		c.violate("a call wrote to standard output or standard error", "while handling (or one of the 64 items before)", what)
	}
}

// repeatGrammar: results and refusals are the same each time.
func repeatGrammar(c *Ctx, g bnf.Grammar, ref *Gram, fam string) {
	c.st.States++
	before := deepGrammar(g)
	a := callFG(g, 50_000_000)
	b := callFG(g, 50_000_000)
	c.st.Traces += 2
	if deepGrammar(g) != before {
		c.violate("table generation modified the grammar it was given", "before", before, "after", deepGrammar(g))
		return
	}
	if fmt.Sprint(a.err, a.pan, a.hang) != fmt.Sprint(b.err, b.pan, b.hang) {
		c.violate("two generations from the same grammar differ", "grammar", before, "first", fmt.Sprint(a.err, a.pan), "second", fmt.Sprint(b.err, b.pan))
		return
	}
	if a.err != nil || a.bad() != "" {
		return
	}
	if x, y := deepTable(*a.table), deepTable(*b.table); x != y || deep(*a.names) != deep(*b.names) {
		c.violate("two generations from the same grammar give different tables", "grammar", before, "first", x, "second", y)
		return
	}
	if ref == nil {
		return
	}
	t := analyse(ref)
	if t.conflict {
		return
	}
	tbl, nam := deepTable(*a.table), deep(*a.names)
	p, q := parser.NewLL1Parser(*a.table, *a.names), parser.NewLL1Parser(*b.table, *b.names)
	_, mn := gparams("quick", fam)
	in := &inputs{t: t, sigma: sigmaOf(ref), maxLen: 5, maxNodes: min(mn, 25)}
	var ws []string
	var first []outcome
	st, tr, _ := in.each(func(w string, r RunResult) bool {
		ws = append(ws, w)
		first = append(first, outcomeDigest(callParse(p, w, parseFuel(ref, r.Moves, len(w)))))
		return true
	})
	c.st.States += st
	c.st.Transitions += tr
	for k := len(ws) - 1; k >= 0; k-- {
		for n, x := range []parser.LL1Parser{p, q} {
			c.st.Traces++
			if o := outcomeDigest(callParse(x, ws[k], 1_000_000)); !o.same(first[k]) {
				c.violate("parsing the same input again gives another result", "grammar", ref, "input", clip(ws[k]), "first", first[k], "again", o, "parser", n)
				return
			}
		}
	}
	if deepTable(*a.table) != tbl || deep(*a.names) != nam || deepTable(*b.table) != tbl {
		c.violate("parsing modified the table or the names", "grammar", ref)
	}
}
