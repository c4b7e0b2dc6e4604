package main

// C01, C02, C03, C04, C06, C07, C08: properties of table generation and
// parsing, explored over families of grammars and their inputs.

import (
	"bytes"
	"fmt"
	"runtime"
	"strings"
	"syscall"
	"testing/iotest"

	"github.com/TooManySugar/ll1parser/pkg/parser"
)

var commonAssume = []string{
	"the reference models in /verif/mc (FIRST/FOLLOW theory, pushdown machine, derivation semantics) state the textbook definitions; C01 cross-checks machine against derivation semantics on every run",
	"the library is compiled from /repo's working tree with one counter call inserted before every statement (go build -overlay); nothing else is changed",
	"beyond the stated bounds (grammar shapes, input lengths) nothing is claimed",
}

type gramAspect func(c *Ctx, g *Gram, fam string)

func gramProperty(id, title, rule string, skip map[string]bool, asp gramAspect) {
	register(&Property{ID: id, Title: title, Rule: rule, Assume: commonAssume, Families: func(tier string) []Family {
		var r []Family
		gfs := append(gramFamilies(tier), realFamily())
		if skip == nil { // tables only: cheap enough for more
			gfs = append(gramFamilies("thorough"), realFamily())
			gfs = append(gfs, tableFamilies(tier)...)
		}
		for _, gf := range gfs {
			gf := gf
			if skip[gf.name] {
				continue
			}
			r = append(r, Family{Name: gf.name, Desc: gf.desc, N: gf.n, Chunk: map[bool]uint64{true: 7, false: 1}[gf.n > 1000], Run: func(c *Ctx, i uint64) { asp(c, gf.at(i), gf.name) }})
		}
		if id == "C02" && tier == "thorough" {
			r = append(r, hugeFamily(true))
		}
		if id == "C08" {
			r = append(r, runesFamily())
		}
		return r
	}})
}

// tableFamilies: more grammars for the properties that need no parsing.
func tableFamilies(tier string) []gramFam {
	a, S, A, B := T("a"), N(0), N(1), N(2)
	b := T("b")
	l1 := bodies(seqs([]Sym{a, b, A, B, S}, 0, 2), 1, 1)
	l2 := bodies(seqs([]Sym{a, b, A, B}, 0, 2), 1, 2)
	fams := []gramFam{
		product("three1", "3 rules, S one alternative of <=2 symbols over a, b, S, A, B; A and B <=2 alternatives of <=1 symbol over a, b, A, B, S", l1,
			bodies(seqs([]Sym{a, b, A, B, S}, 0, 1), 1, 2), bodies(seqs([]Sym{a, b, A, B, S}, 0, 1), 1, 2)),
		product("four1", "4 rules: S one alternative of 2 or 3 symbols over A, B, C, a; A, B, C of <=2 alternatives out of \"\", a, b, x followed by the next rule, and each other", bodies(seqs([]Sym{A, B, N(3), a}, 2, 3), 1, 1),
			bodies([]Alt{a0, alt("a"), alt(2), alt("b", 3)}, 1, 2), bodies([]Alt{a0, alt("b"), alt(3), alt(1, "a")}, 1, 2), bodies([]Alt{a0, alt("c"), alt(1), alt(0, "b")}, 1, 2)),
	}
	if tier == "thorough" {
		fams = append(fams,
			product("three2", "3 rules, S one alternative of <=2 symbols over a, b, S, A, B; A, B <=2 alternatives of <=2 symbols over a, b, A, B", l1, l2, l2))
	}
	return fams
}

// realFamily: the library's own BNF grammar, and the JSON grammar, as the
// reference sees them (written independently).
func realFamily() gramFam {
	return gramFam{"real", "the documented BNF notation grammar and a JSON grammar (transcribed independently), inputs explored over their terminals", uint64(len(realGrammars())), func(i uint64) *Gram { return realGrammars()[i] }}
}

func gparams(tier, fam string) (maxLen, maxNodes int) {
	th := tier == "thorough"
	switch fam {
	case "real":
		if th {
			return 12, 60000
		}
		return 8, 4000
	case "ladder", "sizes":
		return 4, 12
	case "many":
		return 3, 6
	case "long", "farleaves":
		return 3, 8
	case "bytes", "bytes2":
		return 4, 14
	case "one", "two":
		if th {
			return 8, 500
		}
		return 6, 60
	}
	if th {
		return 7, 150
	}
	return 5, 40
}

// generate builds the table; ok only when a parser could be built.
func generate(c *Ctx, g *Gram) *FG {
	n := 0
	for _, b := range g.Rules {
		for _, a := range b {
			n += 1 + len(a)
		}
	}
	return callFG(toBNF(g), fgFuel(len(g.Rules), n))
}

// eachTrace runs the parser on the explored inputs of an LL(1) grammar.
func eachTrace(c *Ctx, g *Gram, fam string, visit func(w string, r RunResult, pr *PR, t *Theory) bool) {
	t := analyse(g)
	if t.conflict {
		c.count("grammars_with_conflict_skipped", 1)
		return
	}
	f := generate(c, g)
	if f.bad() != "" || f.err != nil {
		// whether a table exists is the subject of C04
		c.count("grammars_without_table_skipped", 1)
		if b := f.bad(); b != "" {
			c.violate(b, "grammar", g)
		} else if f.err != nil {
			c.violate("an LL(1) grammar got no parser: "+f.err.Error(), "grammar", g)
		}
		return
	}
	c.count("ll1_grammars", 1)
	p := parser.NewLL1Parser(*f.table, *f.names)
	ml, mn := gparams(c.tier, fam)
	in := &inputs{t: t, sigma: sigmaOf(g), maxLen: ml, maxNodes: mn}
	run := func(w string, r RunResult) bool {
		c.st.Traces++
		return visit(w, r, callParse(p, w, parseFuel(g, r.Moves, len(w))), t)
	}
	st, tr, capped := in.each(run)
	c.st.States += st
	c.st.Transitions += tr
	if capped {
		c.count("grammars_whose_input_space_hit_the_node_bound", 1)
	}
	if c.full() {
		return
	}
	if fam == "long" {
		lens := []int{33_000, 66_000, 132_000}
		if c.index%2 == 1 {
			lens = append(lens, 1_080_000)
		}
		for _, n := range lens {
			for _, strat := range []int{0, 1, 100} {
				s, ok := t.sentence(strat, 4*n, n)
				if !ok || len(s) < n/2 {
					continue
				}
				c.count("long_input_bytes", int64(len(s)))
				for k, w := range []string{s, s[:len(s)-1], s + "~", s[:len(s)-3] + "\x00" + s[len(s)-3:], s[:len(s)/2+7] + s[len(s)/2+8:]} {
					if n > 1_000_000 && (k > 1 || strat > 0) {
						continue
					}
					if !run(w, t.run(w, false)) {
						return
					}
				}
			}
		}
	}
	if fam == "farleaves" {
		leaf := g.Rules[0][0][0].T
		n := 300_000 / (len(leaf) + 1)
		if n < 3 {
			n = 3
		}
		s := strings.Repeat(leaf+",", n)
		for _, w := range []string{s, s[:len(s)-1], s + leaf[1:], s[:len(s)-2] + "\x00", "," + s[:len(s)/2] + s[len(s)/2+1:], strings.Repeat(leaf, n)} {
			if !run(w, t.run(w, false)) {
				return
			}
		}
	}
	if fam == "ladder" || fam == "sizes" || fam == "many" || fam == "perm" || fam == "real" || fam == "dictionary" {
		budgets := []int{3, 20, 120}
		if fam == "real" || fam == "ladder" {
			budgets = append(budgets, 700)
		}
		if fam == "sizes" || fam == "many" || fam == "dictionary" {
			budgets = []int{3, 700}
		}
		if fam == "real" || (fam == "ladder" && c.index%97 == 0) {
			budgets = append(budgets, 5000, 40000)
		}
		for _, bud := range budgets {
			for _, strat := range []int{0, 1, 100} {
				s, ok := t.sentence(strat, bud, 200_000)
				if !ok {
					continue
				}
				ws := []string{s}
				if len(s) > 0 && len(s) < 3000 {
					ws = append(ws, s[:len(s)-1], s+"~", s[:len(s)/2]+"\x00"+s[len(s)/2:], s[:len(s)/2]+s[len(s)/2+1:])
				}
				for _, w := range ws {
					if !run(w, t.run(w, false)) {
						return
					}
				}
			}
		}
	}
}

func clip(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q... (%d bytes)", s[:300], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func outcomeKey(r RunResult) string {
	switch {
	case r.Tree != nil:
		return "accepted"
	case r.ErrNT >= 0:
		return "rejected: no entry for lookahead"
	case r.ErrCh == EOI:
		return "rejected: trailing input"
	default:
		return "rejected: terminal mismatch"
	}
}

var langCache = map[string]*Lang{}

func langFor(sigma string, n int) *Lang {
	k := fmt.Sprintf("%s/%d", sigma, n)
	l := langCache[k]
	if l == nil {
		l = newLang(sigma, n)
		langCache[k] = l
	}
	return l
}

// in "dag" grammars even the empty input may have a derivation of exponential size
var noDag = map[string]bool{"dag": true}

func init() {
	traceRule := "items are grammars of indexed families enumerated completely; states are the reachable input prefixes (configurations) of the textbook LL(1) machine, transitions the environment's choices (next byte over the grammar's bytes + a foreign byte + NUL, or end of input); every complete path is executed on the real parser and compared"

	gramProperty("C01", "language", traceRule, noDag, func(c *Ctx, g *Gram, fam string) {
		var l *Lang
		var sets []langSet
		if fam == "one" || fam == "two" || fam == "chain3" || fam == "three" {
			sg := ""
			for _, b := range sigmaOf(g) {
				if b != 0 && b != '~' {
					sg += string([]byte{b})
				}
			}
			if len(sg) <= 3 && len(sg) > 0 {
				l = langFor(sg, map[int]int{1: 6, 2: 4, 3: 3}[len(sg)])
			}
		}
		eachTrace(c, g, fam, func(w string, r RunResult, pr *PR, t *Theory) bool {
			if l != nil {
				if k, ok := l.index[w]; ok {
					if sets == nil {
						sets = l.langs(g)
					}
					c.count("machine_vs_derivation_semantics", 1)
					if sets[0].has(k) != (r.Tree != nil) {
						c.internal("reference machine and derivation semantics disagree on %q for %s", w, g)
						return false
					}
				}
			}
			c.out(outcomeKey(r))
			if b := pr.bad(); b != "" {
				c.violate(b, "grammar", g, "input", clip(w))
				return false
			}
			if (pr.err == nil) != (r.Tree != nil) {
				want := "a sentence of the grammar is rejected"
				if pr.err == nil {
					want = "a string outside the language is accepted"
				}
				c.violate(want, "grammar", g, "input", clip(w), "parser error", pr.err)
				return false
			}
			c.sample(func() string { return fmt.Sprintf("%s  on %s -> accepted=%v", g, clip(w), pr.err == nil) })
			return true
		})
	})

	gramProperty("C02", "tree", traceRule+"; accepted inputs: the whole tree is compared node by node", noDag, func(c *Ctx, g *Gram, fam string) {
		eachTrace(c, g, fam, func(w string, r RunResult, pr *PR, t *Theory) bool {
			if b := pr.bad(); b != "" {
				c.violate(b, "grammar", g, "input", clip(w))
				return false
			}
			if r.Tree == nil {
				c.out("rejected (no tree to compare)")
				return true
			}
			if pr.err != nil {
				c.violate("no tree for a sentence of the grammar: "+pr.err.Error(), "grammar", g, "input", clip(w))
				return false
			}
			if d := diffTree(r.Tree, pr.node, "root"); d != "" {
				got := ""
				if len(w) < 60 {
					got = treeString(pr.node)
				}
				c.violate("the tree is not the derivation: "+d, "grammar", g, "input", clip(w), "want", refTreeStringShort(r.Tree, w), "got", got)
				return false
			}
			c.out(fmt.Sprintf("tree depth %s", bucket(r.Depth)))
			c.sample(func() string { return fmt.Sprintf("%s  on %s -> %s", g, clip(w), refTreeStringShort(r.Tree, w)) })
			return true
		})
	})

	confRule := "items are grammars of indexed families enumerated completely; states are grammars, transitions the (rule, lookahead) predictions of the textbook theory, each grammar is run through the real generator once"
	gramOnly := func(id string, f func(c *Ctx, g *Gram, t *Theory, fg *FG)) {
		gramProperty(id, id, confRule, nil, func(c *Ctx, g *Gram, fam string) {
			t := analyse(g)
			c.st.States++
			for i := range t.table {
				for la := range t.table[i] {
					if t.table[i][la] != 0 {
						c.st.Transitions++
					}
				}
			}
			f(c, g, t, nil)
		})
	}
	gramOnly("C03", func(c *Ctx, g *Gram, t *Theory, _ *FG) {
		if !t.conflict {
			c.out("LL(1): not the subject")
			return
		}
		c.st.Traces++
		fg := generate(c, g)
		if b := fg.bad(); b != "" {
			c.violate(b, "grammar", g)
			return
		}
		if fg.err == nil {
			c.violate("a grammar that is not LL(1) got a table", "grammar", g, "conflicting rule", g.Names[t.confNT])
			return
		}
		if fg.table != nil || fg.names != nil {
			c.violate("an error is returned together with a table or names", "grammar", g)
			return
		}
		c.out("refused")
		c.sample(func() string { return fmt.Sprintf("%s -> %v", g, fg.err) })
	})
	gramOnly("C04", func(c *Ctx, g *Gram, t *Theory, _ *FG) {
		if t.conflict {
			c.out("not LL(1): not the subject")
			return
		}
		c.st.Traces++
		fg := generate(c, g)
		if b := fg.bad(); b != "" {
			c.violate(b, "grammar", g)
			return
		}
		if fg.err != nil {
			c.violate("an LL(1) grammar is refused: "+fg.err.Error(), "grammar", g)
			return
		}
		if fg.table == nil || fg.names == nil {
			c.violate("neither an error nor a table and names", "grammar", g)
			return
		}
		c.out("got a table")
		c.sample(func() string { return fmt.Sprintf("%s -> %d rows", g, len(*fg.table)) })
	})
	gramOnly("C06", func(c *Ctx, g *Gram, t *Theory, _ *FG) {
		if t.conflict {
			c.out("not LL(1): not the subject")
			return
		}
		c.st.Traces++
		fg := generate(c, g)
		if b := fg.bad(); b != "" {
			c.violate(b, "grammar", g)
			return
		}
		if fg.err != nil || fg.table == nil || fg.names == nil {
			c.violate(fmt.Sprintf("an LL(1) grammar got no table: %v", fg.err), "grammar", g)
			return
		}
		if d := diffTable(t, *fg.table); d != "" {
			c.violate("the table differs from the textbook table: "+d, "grammar", g)
			return
		}
		if !namesEqual(wantNames(g, false), fg.names) {
			c.violate("the naming map is not the rule names", "grammar", g, "got", *fg.names)
			return
		}
		c.out("table equal")
		c.sample(func() string { return fmt.Sprintf("%s -> %d rows compared", g, len(*fg.table)) })
		// names reported by a successful parse
		if c.famName == "dag" {
			return
		}
		if w, ok := t.sentence(0, 4, 1000); ok {
			r := t.run(w, false)
			if r.Tree == nil {
				c.internal("derived string %q is not accepted by the machine", w)
				return
			}
			p := parser.NewLL1Parser(*fg.table, *fg.names)
			pr := callParse(p, w, parseFuel(g, r.Moves, len(w)))
			if b := pr.bad(); b != "" || pr.err != nil {
				c.violate(fmt.Sprintf("no naming map for a sentence: %s%v", b, pr.err), "grammar", g, "input", clip(w))
				return
			}
			if !namesEqual(wantNames(g, true), pr.names) {
				c.violate("the naming map of a parse is not the rule names plus the two built-ins", "grammar", g, "input", clip(w), "got", fmt.Sprint(pr.names))
				return
			}
			c.out("names equal")
		}
	})

	gramProperty("C07", "termination", traceRule+"; work is the number of executed library statements, bounded by 50000 + 400 x (machine moves + bytes)", nil, func(c *Ctx, g *Gram, fam string) {
		t := analyse(g)
		fg := generate(c, g)
		c.st.Traces++
		if fg.hang {
			c.violate("table generation did not finish", "grammar", g)
			return
		}
		if fg.pan != nil {
			c.violate(fg.bad(), "grammar", g)
			return
		}
		if fg.err != nil {
			c.out("refused in finite work")
			return
		}
		c.count("generation_statements", fg.ticks)
		if fam == "dag" {
			c.out("generation finished")
			return
		}
		if !t.conflict {
			// nothing: table compared elsewhere
		}
		p := parser.NewLL1Parser(*fg.table, *fg.names)
		ml, mn := gparams(c.tier, fam)
		in := &inputs{t: t, sigma: sigmaOf(g), maxLen: ml, maxNodes: mn}
		moveBound := int64(len(g.Rules)+1) * int64(t.size+2)
		run := func(w string, r RunResult) bool {
			c.st.Traces++
			pr := callParse(p, w, parseFuel(g, int(moveBound)*(len(w)+1), len(w)))
			if pr.hang || pr.pan != nil {
				c.violate(pr.bad(), "grammar", g, "input", clip(w), "statements", pr.ticks)
				return false
			}
			c.count("parse_statements", pr.ticks)
			c.out("parsing finished")
			c.sample(func() string { return fmt.Sprintf("%s  on %s -> %d statements", g, clip(w), pr.ticks) })
			return true
		}
		if t.conflict {
			// a table for a non-LL(1) grammar: still, parsing must finish
			c.out("table for a non-LL(1) grammar")
			for _, w := range shortStrings(in.sigma, 3) {
				c.st.Transitions++
				if !run(w, RunResult{}) {
					return
				}
			}
			return
		}
		st, tr, _ := in.each(run)
		c.st.States += st
		c.st.Transitions += tr
		if c.full() || len(c.res.Viol) > 0 {
			return
		}
		// pumped sentences: work must stay proportional to the machine's moves
		if fam == "ladder" || fam == "sizes" || fam == "perm" || fam == "real" || fam == "one" {
			buds := []int{2000}
			if c.index%53 == 0 || fam == "real" {
				buds = []int{2000, 60000}
			}
			if fam == "ladder" && c.index%8 > 0 && c.index > 400 {
				buds = []int{500}
			}
			for _, bud := range buds {
				for _, strat := range []int{0, 1, 100} {
					w, ok := t.sentence(strat, bud, 200_000)
					if !ok || len(w) < 50 {
						continue
					}
					for _, v := range []string{w, w + "~", w[:len(w)-1]} {
						r := t.run(v, false)
						c.st.Traces++
						pr := callParse(p, v, parseFuel(g, r.Moves, len(v)))
						if pr.hang || pr.pan != nil {
							c.violate("work on a long input is not linear: "+pr.bad(), "grammar", g, "input", clip(v), "machine moves", r.Moves, "statements", pr.ticks)
							return
						}
						c.out("long input in linear work")
						c.count("long_input_bytes", int64(len(v)))
					}
				}
			}
		}
	})

	c07 := findProp("C07")
	before := c07.Families
	c07.Rule += "; family scaling: bytes allocated and processor time for inputs of growing length, which see work hidden inside single statements (copying)"
	c07.Families = func(tier string) []Family { return append([]Family{scalingFamily(tier)}, before(tier)...) }

	gramProperty("C08", "errors", traceRule+"; rejected inputs of grammars whose rules are all productive: the error is compared with the machine's failure", noDag, func(c *Ctx, g *Gram, fam string) {
		eachTrace(c, g, fam, func(w string, r RunResult, pr *PR, t *Theory) bool {
			if b := pr.bad(); b != "" {
				c.violate(b, "grammar", g, "input", clip(w))
				return false
			}
			if r.Tree != nil {
				c.out("accepted (no error to compare)")
				return true
			}
			if !t.allProd {
				c.out("unproductive rules: not the subject")
				return true
			}
			if pr.err == nil {
				c.violate("no error for a string outside the language", "grammar", g, "input", clip(w))
				return false
			}
			if pr.node != nil || pr.names != nil {
				c.violate("an error is returned together with a tree or naming map", "grammar", g, "input", clip(w))
				return false
			}
			if d := checkError(g, w, r, pr.err.Error()); d != "" {
				c.violate(d, "grammar", g, "input", clip(w), "error", pr.err, "first offending position", r.ErrPos)
				return false
			}
			c.out(outcomeKey(r))
			c.sample(func() string { return fmt.Sprintf("%s  on %s -> %v", g, clip(w), pr.err) })
			return true
		})
	})
}

// runesFamily: what cannot continue is a byte, whatever characters it and its
// neighbours would form.
func runesFamily() Family {
	gs := []*Gram{
		mkGram(body(alt("ab", 1, "c"), alt("d", 0)), body(alt("e", 1), a0)),
		mkGram(body(alt("a\u00e9b", 1, "\u4e16"), alt("\U0001F600", 0)), body(alt("\u00fc", 1), a0)),
		mkGram(body(alt(1, 0), a0), body(alt("\xc3\xa9"), alt("\xe4\xb8\x96"), alt("\xf0\x9f\x98\x80"), alt("x"))),
	}
	befores := [][]string{{"", "a", "ab", "abe", "abc", "d"}, {"", "a", "a\xc3", "a\u00e9", "a\u00e9b", "a\u00e9b\u4e16", "\xf0\x9f", "a\u00e9b\xe4"}, {"", "\xc3", "\xe4\xb8", "\xf0\x9f\x98", "\u00e9", "x"}}
	afters := []string{"", "\x80", "\xbf", "\x80\x80", "\xbf\xbf", "a", "\n"}
	return Family{Name: "runes", Desc: fmt.Sprintf("%d grammars, some with terminals of several bytes per character: every two bytes after each of up to 8 beginnings and before each of %d ends, so that the offending byte begins, continues, ends or spoils characters of 1 to 4 bytes", len(gs), len(afters)), N: 256 * uint64(len(gs)), Chunk: 1, Run: func(c *Ctx, i uint64) {
		k, b1 := i/256, byte(i)
		g := gs[k]
		t := analyse(g)
		p := parser.NewLL1Parser(rTable(t), namesOf(g))
		for _, before := range befores[k] {
			for b2 := 0; b2 < 256; b2++ {
				for _, after := range afters {
					w := before + string([]byte{b1, byte(b2)}) + after
					r := t.run(w, false)
					if r.Tree != nil {
						continue
					}
					pr := callParse(p, w, parseFuel(g, r.Moves, len(w)))
					c.st.Traces++
					c.st.Transitions++
					bad := pr.bad()
					switch {
					case bad != "":
					case pr.err == nil:
						bad = "no error for a string outside the language"
					case pr.node != nil || pr.names != nil:
						bad = "an error is returned together with a tree or naming map"
					default:
						bad = checkError(g, w, r, pr.err.Error())
					}
					if bad != "" {
						c.violate(bad, "grammar", g, "input", clip(w), "error", pr.err, "first offending position", r.ErrPos)
						return
					}
				}
			}
			c.st.States++
		}
	}}
}

// checkError: the message shows the offending byte and what was expected.
func checkError(g *Gram, w string, r RunResult, msg string) string {
	off := byte(0)
	if r.ErrPos < len(w) {
		off = w[r.ErrPos]
	}
	if !strings.Contains(msg, charCode(off)) {
		return fmt.Sprintf("the error does not show the first offending byte %s", charCode(off))
	}
	if r.ErrPos < len(w) && off == 0 {
		// a zero byte: what was expected is looked up as at end of input
		return ""
	}
	switch {
	case r.ErrNT >= 0:
		if !strings.Contains(msg, "<"+g.Names[r.ErrNT]+">") {
			return fmt.Sprintf("the error does not name the rule <%s> being expanded", g.Names[r.ErrNT])
		}
	case r.ErrCh == EOI:
		if !strings.Contains(msg, "end of input") {
			return "the error does not say that end of input was expected"
		}
	default:
		e := charCode(byte(r.ErrCh))
		if !strings.Contains(msg, e) {
			return fmt.Sprintf("the error does not show the expected byte %s", e)
		}
		// both bytes are shown, the expected one first
		if i, j := strings.Index(msg, e), strings.LastIndex(msg, charCode(off)); e != charCode(off) && i > j {
			return "the error confuses the expected and the found byte"
		}
	}
	return ""
}

func bucket(n int) string {
	switch {
	case n <= 3:
		return fmt.Sprint(n)
	case n <= 10:
		return "4-10"
	case n <= 100:
		return "11-100"
	case n <= 1000:
		return "101-1000"
	}
	return ">1000"
}

func refTreeStringShort(t *RT, w string) string {
	if len(w) > 60 {
		return "(large tree)"
	}
	return refTreeString(t)
}

func shortStrings(sigma []byte, n int) []string {
	r := []string{""}
	cur := []string{""}
	for l := 0; l < n; l++ {
		var nxt []string
		for _, s := range cur {
			for _, c := range sigma {
				nxt = append(nxt, s+string([]byte{c}))
			}
		}
		r = append(r, nxt...)
		cur = nxt
	}
	return r
}

// scalingFamily: the statement count does not see copying inside a statement;
// allocation and processor time do. Thresholds leave a factor of 3 (bytes,
// which are deterministic) and 12 (time; 5 between long inputs) beyond proportional growth.
func scalingFamily(tier string) Family {
	gs := append(longGrams(), realGrammars()...)
	gs = append(gs, mkGram(body(alt("k", 1, ";", 1)), body(alt("("+strings.Repeat("k", 50)+")", 1), a0)))
	for i, g := range handmade() {
		if t := analyse(g); !t.conflict && t.allProd && i%2 == 0 {
			gs = append(gs, g)
		}
	}
	nLong := len(gs) // from here on: one text repeated, to half a megabyte
	for _, x := range []string{"\n", "\r\n", "\r", " ", "\t", "a", "\"", "\\", "\x01", "\x80", "\xff", "\xc3\xa9", "ab\n"} {
		gs = append(gs, mkGram(body(alt(x, 0), a0)))
	}
	top := 65536
	if tier == "thorough" {
		top = 1 << 20
	}
	return Family{Name: "scaling", Desc: fmt.Sprintf("%d grammars: sentences of 2048 to %d bytes (one short text repeated: 65536 and 524288; and cut or spoiled ones; also from readers, byte by byte and in halves) by bytes allocated and by processor time", len(gs), top), N: uint64(len(gs)), Run: func(c *Ctx, i uint64) {
		g := gs[i]
		from, top, step, slack := 2048, top, 2, int64(12)
		if int(i) >= nLong {
			from, top, step, slack = 1<<16, 1<<19, 8, 5
		}
		t := analyse(g)
		fg := generate(c, g)
		if t.conflict || fg.bad() != "" || fg.err != nil {
			c.violate(fmt.Sprintf("an LL(1) grammar got no table: %s%v", fg.bad(), fg.err), "grammar", g)
			return
		}
		p := parser.NewLL1Parser(*fg.table, *fg.names)
		for _, strat := range []int{0, 1, 100} {
			for end := 0; end < 6; end++ {
				if end > 2 && strat == 1 || int(i) >= nLong && (strat != 100 || end == 2 || end > 3) {
					continue
				}
				type point struct {
					work   int
					bytes  uint64
					micros int64
				}
				var base *point
				for n := from; n <= top; n *= step {
					w, ok := t.sentence(strat, 4*n, n)
					if !ok || len(w) < n/2 {
						break
					}
					switch end {
					case 1:
						w = w[:len(w)-1]
					case 2:
						w += "~"
					}
					r := t.run(w, false)
					pt := point{work: r.Moves + len(w), micros: 1 << 60}
					for rep := 0; rep < 3; rep++ {
						var m0, m1 runtime.MemStats
						runtime.ReadMemStats(&m0)
						var src any = w
						switch end {
						case 3:
							src = strings.NewReader(w)
						case 4:
							src = iotest.OneByteReader(strings.NewReader(w))
						case 5:
							src = iotest.HalfReader(bytes.NewBufferString(w))
						}
						t0 := cpuMicros()
						pr := callParse(p, src, parseFuel(g, pt.work, len(w)))
						d := cpuMicros() - t0
						runtime.ReadMemStats(&m1)
						c.st.Traces++
						if b := pr.bad(); b != "" {
							c.violate("work on a long input is not linear: "+b, "grammar", g, "bytes of input", len(w))
							return
						}
						if d < pt.micros {
							pt.micros = d
						}
						pt.bytes = m1.TotalAlloc - m0.TotalAlloc
						if base != nil && pt.micros < slack*base.micros*int64(pt.work)/int64(base.work) || pt.micros < 300_000 {
							break // repeat only to confirm
						}
						if base != nil && pt.micros > 3*slack*base.micros*int64(pt.work)/int64(base.work)+1_000_000 {
							break // beyond doubt
						}
					}
					c.st.States++
					c.st.Transitions += int64(r.Moves)
					if base == nil {
						pt.micros = max(pt.micros, 1000)
						base = &pt
						continue
					}
					f := float64(pt.work) / float64(base.work)
					if float64(pt.bytes) > 3*f*float64(base.bytes)+1e6 {
						c.violate("the memory parsing uses grows faster than the input", "grammar", g, "bytes of input", len(w), "times the work of the reference machine", f, "times the bytes allocated", float64(pt.bytes)/float64(base.bytes))
						return
					}
					if pt.micros > 300_000 && float64(pt.micros) > float64(slack)*f*float64(base.micros) {
						c.violate("the time parsing takes grows faster than the input", "grammar", g, "bytes of input", len(w), "times the work of the reference machine", f, "times the time", float64(pt.micros)/float64(base.micros))
						return
					}
					c.out("linear")
				}
			}
		}
		c.sample(func() string { return g.String() })
	}}
}

// cpuMicros: processor time used by this process.
func cpuMicros() int64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return (u.Utime.Sec+u.Stime.Sec)*1e6 + int64(u.Utime.Usec+u.Stime.Usec)
}
