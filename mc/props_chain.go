package main

// C20: the whole chain from BNF text to parses.

import (
	"fmt"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

// chain builds a parser from text through the real library; nil after a
// violation or refusal. stage tells how far it got.
type chainResult struct {
	p     parser.LL1Parser
	fg    *FG
	stage string // "read", "table" or "" when a parser exists
	err   string
	bad   string
}

func chain(fe *frontEnd, text string) chainResult {
	rd := fe.read(text)
	if rd.bad != "" {
		return chainResult{stage: "read", bad: rd.bad}
	}
	if rd.err != nil {
		return chainResult{stage: "read", err: rd.err.Error()}
	}
	n := 0
	for _, r := range rd.g.Rules {
		for _, s := range r.Tail.Sequences {
			n += 1 + len(s.Symbols)
		}
	}
	fg := callFG(*rd.g, fgFuel(len(rd.g.Rules), n))
	if fg.bad() != "" {
		return chainResult{stage: "table", bad: fg.bad()}
	}
	if fg.err != nil {
		return chainResult{stage: "table", err: fg.err.Error()}
	}
	return chainResult{p: parser.NewLL1Parser(*fg.table, *fg.names), fg: fg}
}

// gramOf turns an abstract grammar with all names written into a reference
// grammar; ok is false for the malformed shapes that C05 is about.
func gramOf(g bnf.Grammar) (*Gram, bool) {
	r := &Gram{}
	ix := map[string]int{}
	for i, x := range g.Rules {
		if _, dup := ix[x.Head.Name]; dup {
			return nil, false
		}
		ix[x.Head.Name] = i
		r.Names = append(r.Names, x.Head.Name)
	}
	for _, x := range g.Rules {
		var b Body
		for _, s := range x.Tail.Sequences {
			var a Alt
			for _, y := range s.Symbols {
				switch v := y.(type) {
				case bnf.SymbolNonTerminal:
					k, ok := ix[v.Name]
					if !ok {
						return nil, false
					}
					a = append(a, N(k))
				case bnf.SymbolTerminal:
					if v.Name == "" {
						return nil, false
					}
					a = append(a, T(v.Name))
				case bnf.SymbolNothing:
					if len(s.Symbols) != 1 {
						return nil, false
					}
				default:
					return nil, false
				}
			}
			if len(s.Symbols) == 0 {
				return nil, false
			}
			b = append(b, a)
		}
		r.Rules = append(r.Rules, b)
	}
	return r, len(r.Rules) > 0
}

// undefinedName: a nonterminal without a rule.
func undefinedName(g bnf.Grammar) bool {
	def := map[string]bool{}
	for _, r := range g.Rules {
		def[r.Head.Name] = true
	}
	for _, r := range g.Rules {
		for _, s := range r.Tail.Sequences {
			for _, y := range s.Symbols {
				if v, ok := y.(bnf.SymbolNonTerminal); ok && !def[v.Name] {
					return true
				}
			}
		}
	}
	return false
}

func writable(g bnf.Grammar) bool {
	okName := func(s string) bool {
		for i := 0; i < len(s); i++ {
			if !(isLetter(s[i]) || i > 0 && (isDigit(s[i]) || s[i] == '-')) {
				return false
			}
		}
		return s != ""
	}
	if len(g.Rules) == 0 {
		return false
	}
	for _, r := range g.Rules {
		if !okName(r.Head.Name) || len(r.Tail.Sequences) == 0 {
			return false
		}
		for _, s := range r.Tail.Sequences {
			if len(s.Symbols) == 0 {
				return false
			}
			for _, y := range s.Symbols {
				switch v := y.(type) {
				case bnf.SymbolNonTerminal:
					if !okName(v.Name) {
						return false
					}
				case bnf.SymbolTerminal:
					if v.Name == "" || !expressible(v.Name) {
						return false
					}
				case bnf.SymbolNothing:
				default:
					return false
				}
			}
		}
	}
	return true
}

// chainCheck runs the chain on the text and decides the property for it.
func chainCheck(c *Ctx, text string, maxLen, maxNodes int, extra ...string) bool {
	fe := getFE(c)
	if fe == nil {
		return false
	}
	ref := readBNF(text)
	if !ref.accepts() {
		c.internal("not BNF text: %q", text)
		return false
	}
	c.st.Traces++
	ch := chain(fe, text)
	if ch.bad != "" {
		c.violate(ch.bad, "text", clip(text))
		return false
	}
	if ch.stage == "read" {
		c.violate("a grammar text is not read: "+ch.err, "text", clip(text))
		return false
	}
	undef := undefinedName(ref.g)
	g, ok := gramOf(ref.g)
	var t *Theory
	if ok {
		t = analyse(g)
	}
	if !ok || undef || t.conflict {
		if ch.stage == "" {
			what := "a text whose grammar is not LL(1) gets a parser"
			if !ok {
				what = "a text with a rule written twice or an empty literal beside other symbols gets a parser"
			}
			if undef {
				what = "a text mentioning an unwritten rule gets a parser"
			}
			c.violate(what, "text", clip(text))
			return false
		}
		c.out(map[bool]string{true: "malformed: refused before parsing", false: "refused before parsing"}[!ok])
		return true
	}
	if ch.stage != "" {
		c.violate("an LL(1) grammar text gets no parser: "+ch.err, "text", clip(text))
		return false
	}
	names := wantNames(g, true)
	run := func(w string, r RunResult) bool {
		c.st.Traces++
		pr := callParse(ch.p, w, parseFuel(g, r.Moves, len(w)))
		if b := pr.bad(); b != "" {
			c.violate(b, "text", clip(text), "input", clip(w))
			return false
		}
		if (r.Tree != nil) != (pr.err == nil) {
			if r.Tree != nil {
				c.violate("the parser rejects a string the written grammar derives: "+pr.err.Error(), "text", clip(text), "input", clip(w))
			} else {
				c.violate("the parser accepts a string the written grammar does not derive", "text", clip(text), "input", clip(w))
			}
			return false
		}
		if r.Tree == nil {
			c.out("input rejected")
			return true
		}
		c.out("input accepted")
		if d := diffTree(r.Tree, pr.node, ""); d != "" {
			c.violate("wrong tree: "+d, "text", clip(text), "input", clip(w))
			return false
		}
		if !namesEqual(names, pr.names) {
			c.violate("nodes are not named by the written rules", "text", clip(text), "input", clip(w), "names", deep(pr.names))
			return false
		}
		return true
	}
	for _, w := range extra {
		if !run(w, t.run(w, false)) {
			return false
		}
	}
	in := &inputs{t: t, sigma: sigmaOf(g), maxLen: maxLen, maxNodes: maxNodes}
	st, tr, _ := in.each(run)
	c.st.States += st
	c.st.Transitions += tr
	return !c.full()
}

// chainSentences: long sentences of the grammar, whole, cut and spoiled.
func chainSentences(g *Gram) []string {
	var r []string
	t := analyse(g)
	if t.conflict {
		return nil
	}
	for _, bud := range []int{3, 300} {
		for _, strat := range []int{0, 1} {
			s, ok := t.sentence(strat, bud, 200_000)
			if !ok {
				continue
			}
			r = append(r, s)
			if n := len(s); n > 0 && n < 3000 {
				r = append(r, s[:n-1], s+"~", s[:n/2]+"\x01"+s[n/2:], s[:n/2]+s[n/2+1:])
			}
		}
	}
	return r
}

func init() {
	register(&Property{ID: "C20", Title: "from text to parses",
		Rule:   "items are grammars (the families of C01, of C05 as far as writable, and all writings of literals) written as BNF text in several styles; states are the states of the reference machine of the written grammar over its explored inputs, transitions are input bytes; every text is taken through the real reading, conversion and table generation, and every input through the resulting real parser",
		Assume: c09Assume,
		Families: func(tier string) []Family {
			thorough := tier == "thorough"
			var fams []Family
			for _, gf := range append(gramFamilies(tier), realFamily()) {
				gf := gf
				if gf.name == "bytes2" || gf.name == "dag" || gf.name == "long" || gf.name == "farleaves" {
					continue
				}
				styles := uint64(1)
				stride := uint64(1)
				switch {
				case gf.name == "many":
				case gf.name == "sizes" || gf.name == "names":
					styles = 2
				case gf.n < 2000:
					styles = 6
				}
				desc := gf.desc
				if stride > 1 {
					desc += fmt.Sprintf(" (every %d-th; all of them in the thorough tier)", stride)
				}
				ml, mn := 4, 14
				if gf.name == "real" {
					ml, mn = 8, 1500
				}
				if thorough {
					mn *= 3
					ml++
				}
				fams = append(fams, Family{Name: gf.name, Desc: desc + fmt.Sprintf(", %d written styles", styles), N: (gf.n + stride - 1) / stride * styles, Chunk: map[bool]uint64{true: 16, false: 1}[gf.n > 1000], Run: func(c *Ctx, i uint64) {
					g := toBNF(gf.at(i / styles * stride))
					if !writable(g) {
						c.count("not_writable", 1)
						return
					}
					text := writeGram(g, i*2654435761+i%styles)
					if r := readBNF(text); !r.accepts() || diffGrammar(g, r.g) != "" {
						c.internal("the writer is wrong: %q", text)
						return
					}
					c.sample(func() string { return fmt.Sprintf("%q", text) })
					var extra []string
					if gf.name == "sizes" || gf.name == "ladder" || gf.name == "dictionary" || gf.name == "many" {
						extra = chainSentences(gf.at(i / styles * stride))
					}
					chainCheck(c, text, ml, mn, extra...)
				}})
			}
			for _, af := range malformedFamilies(tier) {
				af := af
				stride := uint64(1)
				fams = append(fams, Family{Name: af.name, Desc: af.desc + fmt.Sprintf(" (those that can be written)"), N: (af.n + stride - 1) / stride, Chunk: 32, Run: func(c *Ctx, i uint64) {
					g := af.at(i * stride)
					if !writable(g) {
						c.count("not_writable", 1)
						return
					}
					chainCheck(c, writeGram(g, i*2654435761+7), 3, 8)
				}})
			}
			// literals
			special := "\"'\\\t\n\r tn"
			max := 3
			if thorough {
				max = 4
			}
			for l := 1; l <= max; l++ {
				l := l
				fams = append(fams, Family{Name: fmt.Sprintf("literals%d", l), Desc: fmt.Sprintf("every literal of %d bytes over %q in all its writings, alone and between other symbols", l, special), N: product64(len(special), l), Chunk: 4, Run: func(c *Ctx, i uint64) {
					s := word(special, i, l)
					ws := writings(s)
					for k, w := range ws {
						// the writing itself is another string than what it denotes
						extra := []string{s, w, w[1 : len(w)-1], s + s, s + "!", "!" + s, "(" + s + ")", "(" + w + ")", "(" + s, strings.ToUpper(s)}
						text := "<S>::=" + w
						if k%2 == 1 || l < 3 {
							text = "<S>::=<A>'!'|\"(\" <A> ')'\n<A> ::= " + w
							if s[0] == '(' {
								continue
							}
						}
						if !chainCheck(c, text, 3, 6, extra...) {
							return
						}
						if l < 3 && !chainCheck(c, "<S>::="+w, 3, 6, extra...) {
							return
						}
					}
				}})
			}
			fams = append(fams, Family{Name: "every byte", Desc: "every writable byte as a literal in all its writings, in an alternative next to every other writable byte", N: 98 * 98, Chunk: 16, Run: func(c *Ctx, i uint64) {
				all := "\t\n\r"
				for x := byte(0x20); x < 0x7f; x++ {
					all += string([]byte{x})
				}
				a, b := all[i%98:i%98+1], all[i/98:i/98+1]
				wa, wb := writings(a), writings(b)
				n := len(wa)
				if len(wb) > n {
					n = len(wb)
				}
				for k := 0; k < n; k++ {
					if !chainCheck(c, "<S>::="+wa[k%len(wa)]+" <S> | "+wb[k%len(wb)]+"\r\n", 3, 8, a+b, b, a+a+b, a, b+b, a+b+a) {
						return
					}
				}
			}})
			return fams
		}})
}
