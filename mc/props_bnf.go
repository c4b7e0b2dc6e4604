package main

// C09, C10, C11: the BNF notation.

import (
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
)

var theFrontEnd *frontEnd

// bnfCheck runs the real front end on the text and compares with the
// independent reader.
func getFE(c *Ctx) *frontEnd {
	if theFrontEnd == nil {
		fe, msg := newFrontEnd()
		if msg != "" {
			c.violate("no parser for BNF text: " + msg)
			return nil
		}
		theFrontEnd = fe
	}
	return theFrontEnd
}

func bnfCheck(c *Ctx, text string) bool {
	fe := getFE(c)
	if fe == nil {
		return false
	}
	ref := readBNF(text)
	c.st.Traces++
	got := fe.read(text)
	if got.bad != "" {
		c.violate(got.bad, "text", fmt.Sprintf("%q", text))
		return false
	}
	if ref.accepts() != (got.err == nil) {
		if got.err == nil {
			c.violate("a text outside the notation is accepted", "text", fmt.Sprintf("%q", text), "first byte that cannot continue", ref.pos, "read as", clip(deepGrammar(*got.g)))
		} else {
			c.violate("a text of the notation is refused: "+got.err.Error(), "text", fmt.Sprintf("%q", text), "means", clip(deepGrammar(ref.g)))
		}
		return false
	}
	if got.err != nil {
		c.out("refused")
		return true
	}
	c.out("accepted")
	if d := diffGrammar(ref.g, *got.g); d != "" {
		c.violate("the text is read wrongly: "+d, "text", fmt.Sprintf("%q", text), "means", clip(deepGrammar(ref.g)), "read as", clip(deepGrammar(*got.g)))
		return false
	}
	return true
}

// state cover: texts leading to every state of the reader, with different pasts
var bCover = []string{"", "  ", "<", "<k", "<k-9", "<k>", "<k> ", "<k>:", "<k>::", "<k>::=", "<k> ::= ", "<k>::=<", "<k>::=<a", "<k>::=''", "<k> ::= <Z-0> ",
	"<k>::=\"", "<k>::='", "<k>::=\"a", "<k>::='\\n", "<k>::=\"\\", "<k>::='a\\", "<k>::=''|", "<k>::='a'\"b\" ", "<k>::=''\r", "<k>::=''\n", "<k>::='' \r\n ", "<k>::=''\n\n", "<k>::='a'|'b'\n<l>::=<k>",
	"<k>::=''\n<", "<k>::=''\n\r", "<k>::=<k>|\"\" '"}

const bAlpha = "<>:=|'\"\\ \n\rtnaZ0-.#"

func product64(n, k int) uint64 {
	r := uint64(1)
	for i := 0; i < k; i++ {
		r *= uint64(n)
	}
	return r
}

func word(sigma string, i uint64, k int) string {
	b := make([]byte, k)
	for j := range b {
		b[j] = sigma[i%uint64(len(sigma))]
		i /= uint64(len(sigma))
	}
	return string(b)
}

func withCompletion(c *Ctx, text string) bool {
	c.st.States++
	c.st.Transitions++
	if !bnfCheck(c, text) {
		return false
	}
	r := readBNF(text)
	if r.viable() && bClose[r.st] != "" {
		c.st.Transitions++
		return bnfCheck(c, text+bClose[r.st])
	}
	return true
}

var c09Assume = []string{"the notation is the one documented in pkg/bnf/selfgrammar.go, transcribed by hand as an automaton (mc/bnfread.go); '\\' inside a literal is always the start of an escape", "beyond the stated lengths nothing is claimed"}

func jsonBNFText() string {
	b, err := os.ReadFile("/repo/examples/json/json.bnf")
	if err != nil {
		return ""
	}
	return string(b)
}

func litSizes(thorough bool) []int {
	var r []int
	for i := 0; i <= 130; i++ {
		r = append(r, i)
	}
	r = append(r, 200, 254, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097)
	r = append(r, dictSizes(130, 140_000)...)
	if thorough {
		for i := 131; i < 300; i++ {
			r = append(r, i)
		}
		r = append(r, 8192, 10000, 16385, 32767, 32768, 32769, 65535, 65536, 65537)
	}
	return r
}

func init() {
	register(&Property{ID: "C09", Title: "BNF reading",
		Rule:   "states are the states of the hand-written BNF reader together with short pasts (a state cover) and every word over a delimiter alphabet from them; transitions are bytes; every such text, and its shortest completion to a sentence, is executed on the real front end (parser from the self grammar + ToAST): acceptance and the grammar object are compared",
		Assume: c09Assume,
		Families: func(tier string) []Family {
			thorough := tier == "thorough"
			k := 3
			if thorough {
				k = 4
			}
			var fams []Family
			fams = append(fams, Family{Name: "bytes", Desc: fmt.Sprintf("every state of the cover (%d texts) x every byte 0..255 x {nothing, every delimiter}, each also completed", len(bCover)), N: uint64(len(bCover)) * 256, Chunk: 4, Run: func(c *Ctx, i uint64) {
				t := bCover[i/256] + string([]byte{byte(i % 256)})
				if !withCompletion(c, t) {
					return
				}
				if !readBNF(t).viable() {
					// one more byte and a completion after the offending byte
					bnfCheck(c, t+"'")
					bnfCheck(c, t+bClose[readBNF(bCover[i/256]).st])
					return
				}
				for j := range bAlpha {
					if !withCompletion(c, t+bAlpha[j:j+1]) {
						return
					}
				}
				c.sample(func() string { return fmt.Sprintf("%q", t) })
			}})
			for l := 1; l <= k; l++ {
				l := l
				n := product64(len(bAlpha), l)
				fams = append(fams, Family{Name: fmt.Sprintf("words%d", l), Desc: fmt.Sprintf("every state of the cover x every word of %d bytes over %q, each also completed", l, bAlpha), N: uint64(len(bCover)) * n, Chunk: 64, Run: func(c *Ctx, i uint64) {
					p := bCover[i/n]
					w := word(bAlpha, i%n, l)
					// the first l-1 bytes must keep the text alive, else it was seen already
					if l > 1 && !readBNF(p+w[:l-1]).viable() {
						c.count("dead_before_last_byte", 1)
						return
					}
					withCompletion(c, p+w)
				}})
			}
			lines := []string{"<a>::='x'", "<b> ::= \"\" | <a> ", "", "  ", " <c>::=<a><b>'\\\"'", "<d>::=", "x", "<a>::='x'|", "<-a>::='x'", "<1>::=''", "<a->::=\"'\"", "<A1-b> ::='|' | \" \"|'::='", "<e>::='a' <e> | \"b\" \"\" 'c'", "\t", "<f>::=<f>::=''"}
			eols := []string{"\n", "\r\n", "\n\n", "\r", "\n\r\n"}
			for l := 1; l <= 3; l++ {
				l := l
				n := product64(len(lines), l) * product64(len(eols), l)
				fams = append(fams, Family{Name: fmt.Sprintf("lines%d", l), Desc: fmt.Sprintf("all sequences of %d lines out of %d line forms with all line ends (%d kinds) between and optionally after", l, len(lines), len(eols)), N: n, Chunk: 64, Run: func(c *Ctx, i uint64) {
					t := ""
					for j := 0; j < l; j++ {
						t += lines[i%uint64(len(lines))]
						i /= uint64(len(lines))
						e := eols[i%uint64(len(eols))]
						i /= uint64(len(eols))
						if j == l-1 && e == "\n\n" {
							break
						}
						t += e
					}
					c.st.States++
					c.st.Transitions += int64(l)
					bnfCheck(c, t)
				}})
			}
			bases := []string{"<S>::=\"a\" <B-1>|''", "<a> ::= '\\\\' | \"\\\"'\" <b>\r\n\n<b>::=\"\"\n", " <x1> ::= <x1>'z' | \"|\" \n  \n <y> ::=\"<y>::=\""}
			if thorough {
				bases = append(bases, jsonBNFText())
			}
			off := []int{0}
			tot := 0
			for _, b := range bases {
				tot += len(b) + 1
				off = append(off, tot)
			}
			fams = append(fams, Family{Name: "edits", Desc: "realistic texts: every position x every byte inserted or replaced, every deletion, every truncation, every swap of neighbours", N: uint64(tot), Run: func(c *Ctx, i uint64) {
				b := 0
				for off[b+1] <= int(i) {
					b++
				}
				s, p := bases[b], int(i)-off[b]
				c.st.States++
				try := func(t string) bool { c.st.Transitions++; return bnfCheck(c, t) }
				if !try(s[:p]) {
					return
				}
				if p < len(s) {
					if !try(s[:p] + s[p+1:]) {
						return
					}
				}
				if p+1 < len(s) && !try(s[:p]+s[p+1:p+2]+s[p:p+1]+s[p+2:]) {
					return
				}
				for x := 0; x < 256; x++ {
					if len(s) > 500 && !strings.Contains(bAlpha+"\t\x00\x80", string([]byte{byte(x)})) {
						continue
					}
					if !try(s[:p] + string([]byte{byte(x)}) + s[p:]) {
						return
					}
					if p < len(s) && !try(s[:p]+string([]byte{byte(x)})+s[p+1:]) {
						return
					}
				}
			}})
			sz := litSizes(thorough)
			forms := []func(n int) string{
				func(n int) string { return "<" + strings.Repeat("aB3-", n)[:n] + ">::=''" },
				func(n int) string { return "<a>::=<" + strings.Repeat("Z-0y", n)[:n] + ">" },
				func(n int) string { return "<a>::='" + strings.Repeat("q\\n\"\\\\", n)[:n] + "'" },
				func(n int) string { return "<a>::=\"" + strings.Repeat("'| <", n)[:n] + "\"" },
				func(n int) string { return "<a>::=''" + strings.Repeat("|'x'", n) },
				func(n int) string { return "<a>::=''" + strings.Repeat("<b>", n) },
				func(n int) string { return "<a>::=''" + strings.Repeat("\n<b>::=\"y\"", n) },
				func(n int) string { return "<a>::=''" + strings.Repeat("\r\n", n) + "<b>::=''" },
				func(n int) string {
					return strings.Repeat(" ", n) + "<a>" + strings.Repeat(" ", n) + "::=''" + strings.Repeat(" ", n)
				},
			}
			fams = append(fams, Family{Name: "sizes", Desc: fmt.Sprintf("%d shapes (names, literals, alternatives, symbols, rules, blank lines, spaces) at %d sizes up to %d", len(forms), len(sz), sz[len(sz)-1]), N: uint64(len(forms) * len(sz)), Run: func(c *Ctx, i uint64) {
				c.st.States++
				c.st.Transitions++
				bnfCheck(c, forms[i%uint64(len(forms))](sz[i/uint64(len(forms))]))
			}})
			kinds := []string{"<a>", "'x'", "\"y\"", "''", "\"\"", "'\\\\'", "\"\\n'\""}
			var psz []int
			for _, n := range sz {
				if n <= 2100 {
					psz = append(psz, n)
				}
			}
			nk := uint64(len(kinds))
			fams = append(fams, Family{Name: "phases", Desc: fmt.Sprintf("%d numbers of symbols, alternatives and rules up to %d, whose kinds repeat with a period of %d in each phase: every kind at every place", len(psz), maxOf(psz), nk), N: nk * uint64(len(psz)), Chunk: 2, Run: func(c *Ctx, i uint64) {
				p, n := int(i%nk), psz[i/nk]
				var line, alts, rules strings.Builder
				for k := 0; k <= n; k++ {
					x := kinds[(k+p)%len(kinds)]
					line.WriteString(x)
					if k > 0 {
						alts.WriteString([]string{"|", " | ", "| "}[k%3])
					}
					alts.WriteString(x)
					rules.WriteString("<r" + strconv.Itoa(k) + "> ::= " + x + "|" + kinds[(k/2)%len(kinds)] + []string{"\n", " \r\n", "\n\n"}[(k+k/7)%3])
				}
				c.st.States++
				c.st.Transitions += 3
				_ = bnfCheck(c, "<S>::="+line.String()) && bnfCheck(c, "<S>::="+alts.String()) && bnfCheck(c, rules.String())
			}})
			spoil := bAlpha + "\x00\t\x7f\x80\xff"
			short := []int{}
			for _, n := range sz {
				if n <= 70 || n >= 254 && n <= 1025 || thorough {
					short = append(short, n)
				}
			}
			fams = append(fams, Family{Name: "spoiled", Desc: fmt.Sprintf("the same shapes at %d sizes up to %d with each of %d bytes inserted or replaced just before, at and after the middle and the end, and cut there", len(short), short[len(short)-1], len(spoil)), N: uint64(len(forms) * len(short)), Chunk: 1, Run: func(c *Ctx, i uint64) {
				t := forms[i%uint64(len(forms))](short[i/uint64(len(forms))])
				c.st.States++
				for _, at := range []int{len(t) / 2, len(t)/2 + 1, len(t) - 3, len(t) - 2, len(t) - 1} {
					if at < 0 || at >= len(t) {
						continue
					}
					if !bnfCheck(c, t[:at]) || !bnfCheck(c, t[:at]+t[at+1:]) {
						return
					}
					for k := range spoil {
						c.st.Transitions += 2
						if !bnfCheck(c, t[:at]+spoil[k:k+1]+t[at:]) || !bnfCheck(c, t[:at]+spoil[k:k+1]+t[at+1:]) {
							return
						}
					}
				}
			}})
			dn, dl := dictNames(), dictLiterals()
			fams = append(fams, Family{Name: "dictionary", Desc: fmt.Sprintf("%d words that occur in the sources under test (and keywords) as names, written, mentioned or both, and %d as literals in all quotes, alone, first and later, and as lines of their own", len(dn), len(dl)), N: uint64(len(dn) + len(dl)), Chunk: 8, Run: func(c *Ctx, i uint64) {
				c.st.States++
				if i < uint64(len(dn)) {
					n := dn[i]
					for _, t := range []string{"<" + n + ">::='x'", "<a>::=<" + n + ">", "<a>::='x'<" + n + ">|<" + n + ">'y'\n<" + n + "> ::= <a> | <" + n + ">", "<" + n + "> ::= <" + n + "-> | <a>\n", n, "<a>::=" + n, n + "::=''", "<a>::=''\n" + n + "\n<b>::=''", "<a>::=<" + n + ">'x'\n<" + n + ">::='y'\n<b>::='z'\n", "<a>::=<b>\n<b>::=<" + n + ">'z'\n<" + n + ">::='y'", "<" + n + "> ::= <b>\n<b> ::= <c>\n<c> ::= <" + n + ">\n<d> ::= ''", "<b>::=<c>\n<c>::=<d>\n<d>::=''\n<" + n + ">::=<d>\n<e>::=<b>"} {
						c.st.Transitions++
						if !bnfCheck(c, t) {
							return
						}
					}
					return
				}
				l := dl[i-uint64(len(dn))]
				if strings.Count(l, "\"") < 6 {
					for _, e := range writings(l) {
						for _, t := range []string{"<a>::=" + e, "<a>::= 'x' " + e + " <b> | " + e + "\n", "<a>::=" + e + "|''"} {
							c.st.Transitions++
							if !bnfCheck(c, t) {
								return
							}
						}
					}
				}
				for _, t := range []string{l, "<a>::=" + l, "<a>::='" + l + "'", "<a>::=\"" + l + "\"", "<a>::=''\n" + l, "<a>::=''\n" + l + "\n<b>::=''", "<a>" + l + "''", "<" + l + ">::=''"} {
					c.st.Transitions++
					if !bnfCheck(c, t) {
						return
					}
				}
			}})
			fams = append(fams, Family{Name: "shipped", Desc: "the JSON example's grammar text and prefixes of it ending at every line end", N: 1, Run: func(c *Ctx, i uint64) {
				t := jsonBNFText()
				if t == "" {
					return
				}
				for p := range t {
					if t[p] == '\n' && (!bnfCheck(c, t[:p]) || !bnfCheck(c, t[:p+1])) {
						return
					}
				}
				c.st.States++
				bnfCheck(c, t)
			}})
			return fams
		}})

	register(&Property{ID: "C10", Title: "print and read back",
		Rule:   "states are grammar objects enumerated completely (all literal contents up to a length over the special characters, all single and paired bytes, all small shapes, all name bytes, sizes); transitions are print, independent reading of the printed text, and real reading; equal grammars are required",
		Assume: c09Assume,
		Families: func(tier string) []Family {
			thorough := tier == "thorough"
			check := func(c *Ctx, g bnf.Grammar) bool {
				c.st.States++
				c.st.Transitions += 3
				c.st.Traces++
				fe := getFE(c)
				if fe == nil {
					return false
				}
				var text string
				_, p, hang := guarded(100_000_000, func() { text = g.String() })
				if p != nil || hang {
					c.violate(fmt.Sprintf("printing fails: panic %v, hang %v", p, hang), "grammar", clip(deepGrammar(g)))
					return false
				}
				r := readBNF(text)
				if !r.accepts() {
					c.violate("the printed form is not BNF text", "grammar", clip(deepGrammar(g)), "printed", clip(text), "wrong at byte", r.pos)
					return false
				}
				if d := diffGrammar(g, r.g); d != "" {
					c.violate("the printed form denotes another grammar: "+d, "grammar", clip(deepGrammar(g)), "printed", clip(text))
					return false
				}
				got := fe.read(text)
				if got.bad != "" || got.err != nil {
					c.violate("the printed form is not read back: "+got.bad+fmt.Sprint(got.err), "grammar", clip(deepGrammar(g)), "printed", clip(text))
					return false
				}
				if d := diffGrammar(g, *got.g); d != "" {
					c.violate("printing and reading back changes the grammar: "+d, "grammar", clip(deepGrammar(g)), "printed", clip(text), "read back", clip(deepGrammar(*got.g)))
					return false
				}
				c.out("equal")
				c.sample(func() string { return fmt.Sprintf("%q", text) })
				return true
			}
			rule := func(n string, alts ...[]bnf.Symbol) bnf.Rule {
				r := bnf.Rule{Head: bnf.SymbolNonTerminal{Name: n}}
				for _, a := range alts {
					r.Tail.Sequences = append(r.Tail.Sequences, bnf.Sequence{Symbols: a})
				}
				return r
			}
			gr := func(r ...bnf.Rule) bnf.Grammar { return bnf.Grammar{Rules: r} }
			litGram := func(s string, ctx uint64) bnf.Grammar {
				t := tm(s)
				switch ctx % 4 {
				case 0:
					return gr(rule("S", []bnf.Symbol{t}))
				case 1:
					return gr(rule("S", []bnf.Symbol{tm("\""), t, nt("S")}, []bnf.Symbol{bnf.SymbolNothing{}}))
				case 2:
					return gr(rule("S", []bnf.Symbol{nt("A")}, []bnf.Symbol{t, t}), rule("A", []bnf.Symbol{t}))
				default:
					return gr(rule("A", []bnf.Symbol{bnf.SymbolNothing{}}), rule("S", []bnf.Symbol{tm("'"), t, tm("\\")}))
				}
			}
			special := "\"'\\\t\n\r tn|<a"
			max := 4
			if thorough {
				max = 5
			}
			var fams []Family
			for l := 1; l <= max; l++ {
				l := l
				n := product64(len(special), l)
				fams = append(fams, Family{Name: fmt.Sprintf("contents%d", l), Desc: fmt.Sprintf("every literal of %d bytes over %q", l, special), N: n, Chunk: 32, Run: func(c *Ctx, i uint64) {
					for ctx := uint64(0); ctx < 4; ctx++ {
						if l >= 4 && ctx != i%4 {
							continue
						}
						if !check(c, litGram(word(special, i, l), ctx)) {
							return
						}
					}
				}})
			}
			bytes := "\t\n\r"
			for x := byte(0x20); x < 0x7f; x++ {
				bytes += string([]byte{x})
			}
			fams = append(fams, Family{Name: "pairs", Desc: "every literal of one or two of all 98 expressible bytes", N: uint64(len(bytes) * (len(bytes) + 1)), Chunk: 16, Run: func(c *Ctx, i uint64) {
				x := bytes[i%uint64(len(bytes)) : i%uint64(len(bytes))+1]
				if k := i / uint64(len(bytes)); k > 0 {
					x += bytes[k-1 : k]
				}
				check(c, litGram(x, i))
			}})
			syms := []bnf.Symbol{nt("A"), nt("b-2"), tm("x"), tm("\""), tm("'"), tm("'\""), bnf.SymbolNothing{}}
			seqs3 := seqsOf(syms, 3)[1:]
			small := seqsOf(syms, 1)[1:]
			mid := seqsOf(syms, 2)[1:]
			t1 := tailsOf(seqs3, 1, 1)
			t2 := tailsOf(mid, 1, 2)
			t3 := tailsOf(small, 1, 3)
			for _, af := range []astFam{
				astProduct("shape1", "1 rule, 1 alternative of <=3 symbols of every kind (also the empty string next to others)", []string{"A"}, t1),
				astProduct("shape2", "1 rule, <=2 alternatives of <=2 symbols", []string{"A"}, t2),
				astProduct("shape3", "2 rules, <=3 alternatives of one symbol (rule names may repeat)", []string{"A", "b-2"}, tailsOf(small, 1, 2), t3),
				astProduct("shape4", "2 rules of the same name", []string{"A", "A"}, tailsOf(small, 1, 2), tailsOf(small, 1, 2)),
			} {
				af := af
				fams = append(fams, Family{Name: af.name, Desc: af.desc, N: af.n, Chunk: 32, Run: func(c *Ctx, i uint64) { check(c, af.at(i)) }})
			}
			nameBytes := letters + "0123456789-"
			fams = append(fams, Family{Name: "names", Desc: "every name of 1..3 bytes: a letter followed by all name bytes (third byte from a short list)", N: uint64(len(letters) * (len(nameBytes) + 1)), Chunk: 8, Run: func(c *Ctx, i uint64) {
				n := letters[i%uint64(len(letters)) : i%uint64(len(letters))+1]
				if k := i / uint64(len(letters)); k > 0 {
					n += nameBytes[k-1 : k]
				}
				for _, s := range []string{"", "-", "Q", "7", "--", "-0"} {
					if !check(c, gr(rule(n+s, []bnf.Symbol{nt(n + s), nt("A")}, []bnf.Symbol{tm(n + s)}))) {
						return
					}
				}
			}})
			dn, dl := dictNames(), dictLiterals()
			fams = append(fams, Family{Name: "dictionary", Desc: fmt.Sprintf("%d words that occur in the sources under test (and keywords) as names, %d as literals", len(dn), len(dl)), N: uint64(len(dn) + len(dl)), Chunk: 8, Run: func(c *Ctx, i uint64) {
				if i < uint64(len(dn)) {
					n := dn[i]
					_ = check(c, gr(rule(n, []bnf.Symbol{tm("x"), nt(n)}, []bnf.Symbol{nt("A"), nt(n), nt(n + "-")}))) &&
						check(c, gr(rule("A", []bnf.Symbol{nt(n)}), rule(n, []bnf.Symbol{bnf.SymbolNothing{}}, []bnf.Symbol{tm(n)}))) &&
						check(c, gr(rule("A", []bnf.Symbol{nt(n)}), rule(n, []bnf.Symbol{tm("x")}), rule("B", []bnf.Symbol{nt(n)}))) &&
						check(c, gr(rule("A", []bnf.Symbol{nt("B")}), rule("B", []bnf.Symbol{nt(n)}), rule(n, []bnf.Symbol{tm("x")}), rule("C", []bnf.Symbol{nt("A")})))
					return
				}
				l := dl[i-uint64(len(dn))]
				_ = check(c, litGram(l, 0)) && check(c, litGram(l, 1)) && check(c, litGram(l+"'", 2)) && check(c, litGram("\""+l, 0)) && check(c, litGram(l+l, 1))
			}})
			sz := litSizes(thorough)
			shapes := []func(n int) bnf.Grammar{
				func(n int) bnf.Grammar { return litGram(strings.Repeat("a'\"\\\n", n+1)[:n+1], 0) },
				func(n int) bnf.Grammar { return litGram(strings.Repeat("\"", n+1), 1) },
				func(n int) bnf.Grammar { return litGram(strings.Repeat("x", n)+"\\", 2) },
				func(n int) bnf.Grammar {
					return gr(rule("N"+strings.Repeat("a-Z0", n)[:n], []bnf.Symbol{nt("N" + strings.Repeat("9-", n)[:n])}))
				},
				func(n int) bnf.Grammar {
					var a [][]bnf.Symbol
					for k := 0; k <= n; k++ {
						a = append(a, []bnf.Symbol{syms[k%len(syms)]})
					}
					return gr(rule("S", a...))
				},
				func(n int) bnf.Grammar {
					var a []bnf.Symbol
					for k := 0; k <= n; k++ {
						a = append(a, syms[k%len(syms)])
					}
					return gr(rule("S", a))
				},
				func(n int) bnf.Grammar {
					var r []bnf.Rule
					for k := 0; k <= n; k++ {
						r = append(r, rule(fmt.Sprintf("r%d", k), []bnf.Symbol{syms[k%len(syms)]}))
					}
					return gr(r...)
				},
			}
			fams = append(fams, Family{Name: "sizes", Desc: fmt.Sprintf("%d shapes (literals, names, alternatives, symbols, rules) at %d sizes up to %d", len(shapes), len(sz), sz[len(sz)-1]), N: uint64(len(shapes) * len(sz)), Run: func(c *Ctx, i uint64) {
				check(c, shapes[i%uint64(len(shapes))](sz[i/uint64(len(shapes))]))
			}})
			ph := uint64(len(syms))
			var psz []int
			for _, n := range sz {
				if n <= 4100 {
					psz = append(psz, n)
				}
			}
			fams = append(fams, Family{Name: "phases", Desc: fmt.Sprintf("%d numbers of rules, alternatives and symbols up to %d whose kinds (nonterminal, literals of each quoting, the empty string) repeat with a period of %d in each phase: every kind at every place", len(psz), maxOf(psz), ph), N: ph * uint64(len(psz)), Run: func(c *Ctx, i uint64) {
				p, n := int(i%ph), psz[i/ph]
				at := func(k int) bnf.Symbol { return syms[(k+p)%len(syms)] }
				var alts [][]bnf.Symbol
				var line []bnf.Symbol
				var rules, long []bnf.Rule
				for k := 0; k <= n; k++ {
					alts = append(alts, []bnf.Symbol{at(k)})
					line = append(line, at(k))
					rules = append(rules, rule("r"+fmt.Sprint(k), []bnf.Symbol{at(k)}, []bnf.Symbol{at(k / 7)}))
					long = append(long, rule("R-"+fmt.Sprint(k%5), []bnf.Symbol{at(k), at(k + 3)}, []bnf.Symbol{at(2 * k)}, []bnf.Symbol{at(6)}))
				}
				_ = check(c, gr(rule("S", alts...))) && check(c, gr(rule("S", line))) && check(c, gr(rules...)) && check(c, gr(long...))
			}})
			sp8 := "\"'\\\t\n\r |"
			span := 24
			if thorough {
				span = 70
			}
			pairs := uint64(len(sp8) * (len(sp8) + 1))
			fams = append(fams, Family{Name: "placed", Desc: fmt.Sprintf("literals of 0..%d plain bytes, one or two of %q, 0..%d plain bytes", span, sp8, span), N: pairs * uint64((span+1)*(span+1)), Chunk: 32, Run: func(c *Ctx, i uint64) {
				k := i % pairs
				i /= pairs
				x := sp8[k%uint64(len(sp8)) : k%uint64(len(sp8))+1]
				if k /= uint64(len(sp8)); k > 0 {
					x += sp8[k-1 : k]
				}
				p, q := int(i)%(span+1), int(i)/(span+1)
				check(c, litGram(strings.Repeat("nut", span)[:p]+x+strings.Repeat("tr ", span)[:q], i))
			}})
			var lits []string
			for l := 0; l <= 2; l++ {
				for k := uint64(0); k < product64(len(special), l); k++ {
					lits = append(lits, word(special, k, l))
				}
			}
			fams = append(fams, Family{Name: "twoliterals", Desc: fmt.Sprintf("every pair of %d literals of <=2 special bytes next to each other, in two alternatives or in two rules", len(lits)), N: uint64(len(lits) * len(lits)), Chunk: 32, Run: func(c *Ctx, i uint64) {
				mk := func(s string) bnf.Symbol {
					if s == "" {
						return bnf.SymbolNothing{}
					}
					return tm(s)
				}
				a, b := mk(lits[i%uint64(len(lits))]), mk(lits[i/uint64(len(lits))])
				g := gr(rule("S", []bnf.Symbol{a, b}))
				switch i % 3 {
				case 1:
					g = gr(rule("S", []bnf.Symbol{a}, []bnf.Symbol{b}))
				case 2:
					g = gr(rule("S", []bnf.Symbol{a}), rule("T", []bnf.Symbol{b, nt("S")}))
				}
				check(c, g)
			}})
			fams = append(fams, Family{Name: "self", Desc: "the BNF grammar of the notation and the JSON grammar: printed, read back, equal, the same table; and again from the copy", N: 2, Run: func(c *Ctx, i uint64) {
				g := bnf.SelfGrammar()
				if i == 1 {
					r := readBNF(jsonBNFText())
					if !r.accepts() {
						return
					}
					g = r.g
				}
				if !check(c, g) {
					return
				}
				got := theFrontEnd.read(g.String())
				if got.g == nil {
					return
				}
				a, b := callFG(g, 1<<40), callFG(*got.g, 1<<40)
				if a.err != nil || b.err != nil || a.bad() != "" || b.bad() != "" {
					c.violate("no table for a printed and re-read grammar: "+a.bad()+b.bad()+fmt.Sprint(a.err, b.err), "grammar", i)
					return
				}
				if deepTable(*a.table) != deepTable(*b.table) || deep(*a.names) != deep(*b.names) {
					c.violate("the table of the re-read grammar differs", "grammar", i)
				}
			}})
			fams = append(fams, Family{Name: "example", Desc: "the built parseownsyntax example, which compares the re-read notation with the original", N: 1, Run: func(c *Ctx, i uint64) {
				c.st.States++
				c.st.Traces++
				cmd := exec.Command(os.Getenv("MC_OWN"))
				t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
				out, err := cmd.CombinedOutput()
				t.Stop()
				if err != nil {
					c.violate("the example program does not find the notation equal to its re-read print: "+err.Error(), "output", clip(string(out)))
				}
			}})
			return fams
		}})

	register(&Property{ID: "C11", Title: "layout",
		Rule:   "states are layout assignments of a text (spaces at every optional place, line ends, blank lines, trailing line ends, writing of every literal), all of them enumerated for each base grammar; transitions are single layout choices; every text is executed on the real front end and must give exactly the base grammar object",
		Assume: c09Assume,
		Families: func(tier string) []Family {
			var fams []Family
			type tok struct {
				opts []string
			}
			fix := func(s string) tok { return tok{[]string{s}} }
			sp := tok{[]string{"", " ", "  "}}
			sp1 := tok{[]string{"", " "}}
			if tier == "thorough" {
				sp1 = tok{[]string{"", " ", "     "}}
			}
			eol := tok{[]string{"\n", "\r\n"}}
			blank := tok{[]string{"", "\n", "\r\n", "  \n", "\n \r\n"}}
			end := tok{[]string{"", "\n", "\r\n", "\n\n", "\n  ", "\r\n \n "}}
			lit := func(s string) tok { return tok{writings(s)} }
			none := tok{[]string{`""`, `''`}}
			R := func(n string, alts ...[]bnf.Symbol) bnf.Rule {
				r := bnf.Rule{Head: bnf.SymbolNonTerminal{Name: n}}
				for _, a := range alts {
					r.Tail.Sequences = append(r.Tail.Sequences, bnf.Sequence{Symbols: a})
				}
				return r
			}
			a1 := func(s ...bnf.Symbol) []bnf.Symbol { return s }
			nothing := bnf.SymbolNothing{}
			bases := []struct {
				name string
				g    bnf.Grammar
				t    []tok
			}{
				{"one rule", bnf.Grammar{Rules: []bnf.Rule{R("S", a1(tm("a"), nt("B")), a1(nothing))}},
					[]tok{sp, fix("<S>"), sp, fix("::="), sp, lit("a"), sp, fix("<B>"), sp, fix("|"), sp, none, sp, end}},
				{"two rules", bnf.Grammar{Rules: []bnf.Rule{R("S", a1(nt("S-1"), tm("\""))), R("S-1", a1(tm("b")))}},
					[]tok{sp1, fix("<S>"), sp1, fix("::="), sp1, fix("<S-1>"), sp1, lit("\""), sp, eol, blank, sp, fix("<S-1>"), sp1, fix("::="), sp1, lit("b"), sp1, end}},
				{"three rules", bnf.Grammar{Rules: []bnf.Rule{R("a", a1(tm("x"))), R("b", a1(tm("y"))), R("c", a1(nothing))}},
					[]tok{fix("<a>::="), lit("x"), sp, eol, blank, sp1, fix("<b> ::="), lit("y"), sp1, eol, blank, sp, fix("<c>::="), none, sp, end}},
				{"many symbols", bnf.Grammar{Rules: []bnf.Rule{R("a", a1(nt("a"), nt("b"), nothing, tm("c"), nt("d"), tm("e"), tm("\"")))}},
					[]tok{fix("<a>::="), sp1, fix("<a>"), sp1, fix("<b>"), sp1, none, sp1, lit("c"), sp1, fix("<d>"), sp1, lit("e"), sp1, lit("\""), sp1}},
				{"many alternatives", bnf.Grammar{Rules: []bnf.Rule{R("a", a1(nt("a")), a1(tm("|")), a1(nothing), a1(tm("\\\"")), a1(nt("b")))}},
					[]tok{fix("<a>::="), sp1, fix("<a>"), sp1, fix("|"), sp1, lit("|"), sp1, fix("|"), sp1, none, sp1, fix("|"), sp1, lit("\\\""), sp1, fix("|"), sp1, fix("<b>"), sp1}},
				{"literals", bnf.Grammar{Rules: []bnf.Rule{R("a", a1(tm("\"'"), tm("\"a\""), tm("'"), tm("\t\n\r\\")), a1(tm("\"\"\""), tm("<a>::=")))}},
					[]tok{fix("<a>::="), lit("\"'"), sp1, lit("\"a\""), sp1, lit("'"), sp1, lit("\t\n\r\\"), sp1, fix("|"), sp1, lit("\"\"\""), sp1, lit("<a>::="), end}},
			}
			for _, b := range bases {
				b := b
				n := uint64(1)
				for _, t := range b.t {
					n *= uint64(len(t.opts))
				}
				fams = append(fams, Family{Name: b.name, Desc: fmt.Sprintf("all %d layouts and writings of %s", n, clip(deepGrammar(b.g))), N: n, Chunk: 64, Run: func(c *Ctx, i uint64) {
					fe := getFE(c)
					if fe == nil {
						return
					}
					var sb strings.Builder
					for _, t := range b.t {
						sb.WriteString(t.opts[i%uint64(len(t.opts))])
						i /= uint64(len(t.opts))
					}
					text := sb.String()
					c.st.States++
					c.st.Transitions += int64(len(b.t))
					c.st.Traces++
					if !readBNF(text).accepts() {
						c.internal("layout outside the notation: %q", text)
						return
					}
					got := fe.read(text)
					if got.bad != "" || got.err != nil {
						c.violate("a layout is refused: "+got.bad+fmt.Sprint(got.err), "text", fmt.Sprintf("%q", text))
						return
					}
					if d := diffGrammar(b.g, *got.g); d != "" {
						c.violate("layout changes the grammar: "+d, "text", fmt.Sprintf("%q", text), "read as", clip(deepGrammar(*got.g)))
						return
					}
					c.out("same grammar")
					c.sample(func() string { return fmt.Sprintf("%q", text) })
				}})
			}
			layout := func(c *Ctx, text string, want bnf.Grammar) bool {
				fe := getFE(c)
				if fe == nil {
					return false
				}
				c.st.States++
				c.st.Traces++
				c.st.Transitions++
				if r := readBNF(text); !r.accepts() || diffGrammar(want, r.g) != "" {
					c.internal("layout outside the notation: %q", clip(text))
					return false
				}
				got := fe.read(text)
				if got.bad != "" || got.err != nil {
					c.violate("a layout is refused: "+got.bad+fmt.Sprint(got.err), "text", clip(fmt.Sprintf("%q", text)))
					return false
				}
				if d := diffGrammar(want, *got.g); d != "" {
					c.violate("layout changes the grammar: "+d, "text", clip(fmt.Sprintf("%q", text)), "read as", clip(deepGrammar(*got.g)))
					return false
				}
				return true
			}
			// every gap alone, and all together, at many widths
			toks := []string{"<S>", "::=", "\"a\"", "<B-1>", "|", "''", "|", "'\"'", "\\", "<B-1>", "::=", "<S>", "'x'", "|", "\"\\\\\"", "\\", "<C>", "::=", "''"}
			// a "\\" token stands for a line end
			var gaps []string // text pieces between gaps
			lineAt := map[int]bool{}
			for _, t := range toks {
				if t == "\\" {
					lineAt[len(gaps)-1] = true // the gap after the last token holds the line end
					continue
				}
				gaps = append(gaps, t)
			}
			build := func(gap func(k int) string, line func(k int) string) string {
				var sb strings.Builder
				sb.WriteString(gap(0))
				for k, t := range gaps {
					sb.WriteString(t)
					if lineAt[k] {
						sb.WriteString(line(k))
					}
					sb.WriteString(gap(k + 1))
				}
				return sb.String()
			}
			want := readBNF(build(func(int) string { return "" }, func(int) string { return "\n" })).g
			widths := litSizes(tier == "thorough")
			widths = append(widths, 65535, 65536, 65537)
			ng := uint64(len(gaps) + 2)
			fams = append(fams, Family{Name: "widths", Desc: fmt.Sprintf("a three-rule text with %d widths of space up to %d at each of %d places alone and at all of them", len(widths), widths[len(widths)-1], ng-1), N: ng * uint64(len(widths)), Chunk: 2, Run: func(c *Ctx, i uint64) {
				w, g := widths[i/ng], int(i%ng)
				if g == len(gaps)+1 && w > 5000 {
					w = 5000
				}
				layout(c, build(func(k int) string {
					if k == g || g == len(gaps)+1 {
						return strings.Repeat(" ", w)
					}
					return ""
				}, func(int) string { return []string{"\n", "\r\n"}[w%2] }), want)
			}})
			lines := []string{"\n", "\r\n", " \n", "  \r\n", "\n\r\n"}
			fams = append(fams, Family{Name: "blanklines", Desc: fmt.Sprintf("the same text with %d numbers of blank lines of %d kinds after each of its lines", len(widths), len(lines)), N: uint64(len(widths) * len(lines) * 4), Chunk: 2, Run: func(c *Ctx, i uint64) {
				at := int(i % 4)
				l := lines[i/4%uint64(len(lines))]
				w := widths[i/4/uint64(len(lines))]
				seen := -1
				t := build(func(int) string { return "" }, func(int) string {
					if seen++; seen == at || at == 3 && w < 5000 {
						return "\n" + strings.Repeat(l, w)
					}
					return "\r\n"
				})
				if at == 2 {
					t += strings.Repeat(l, w)
				}
				layout(c, t, want)
			}})
			ends := []string{"\n", "\r\n", " \n", " \r\n", "   \n", "   \r\n"}
			bl := 4
			if tier == "thorough" {
				bl = 6
			}
			for l := 1; l <= bl; l++ {
				l := l
				fams = append(fams, Family{Name: fmt.Sprintf("blankmixes%d", l), Desc: fmt.Sprintf("the same text with every sequence of %d line ends of %d kinds (LF or CRLF, after 0, 1 or 3 spaces) after each of its lines", l, len(ends)), N: 3 * product64(len(ends), l), Chunk: 8, Run: func(c *Ctx, i uint64) {
					at := int(i % 3)
					var mix strings.Builder
					for k, j := 0, i/3; k < l; k++ {
						mix.WriteString(ends[j%uint64(len(ends))])
						j /= uint64(len(ends))
					}
					seen := -1
					t := build(func(int) string { return "" }, func(int) string {
						if seen++; seen == at {
							return mix.String()
						}
						return "\n"
					})
					if at == 2 {
						t += mix.String()
					}
					layout(c, t, want)
				}})
			}
			spec := "\"'\\\t\n\r tn|<a"
			wl := 3
			if tier == "thorough" {
				wl = 5
			}
			for l := 0; l <= wl; l++ {
				l := l
				fams = append(fams, Family{Name: fmt.Sprintf("writings%d", l), Desc: fmt.Sprintf("every literal of %d bytes over %q in every way of writing it, at the end of a text, before a symbol, and before another writing of the same literal", l, spec), N: product64(len(spec), l), Chunk: 16, Run: func(c *Ctx, i uint64) {
					s := word(spec, i, l)
					var y bnf.Symbol = tm(s)
					if s == "" {
						y = nothing
					}
					ws := writings(s)
					for k, w := range ws {
						if !layout(c, "<S>::="+w, bnf.Grammar{Rules: []bnf.Rule{R("S", a1(y))}}) ||
							!layout(c, "<S>::="+w+"<S>|"+w+"\n<T>::="+ws[(k+1)%len(ws)]+w, bnf.Grammar{Rules: []bnf.Rule{R("S", a1(y, nt("S")), a1(y)), R("T", a1(y, y))}}) {
							return
						}
					}
				}})
			}
			fams = append(fams, Family{Name: "writingpairs", Desc: "every literal of one or two of all 98 expressible bytes in every way of writing it", N: 98 * 99, Chunk: 16, Run: func(c *Ctx, i uint64) {
				bytes := "\t\n\r"
				for x := byte(0x20); x < 0x7f; x++ {
					bytes += string([]byte{x})
				}
				s := bytes[i%98 : i%98+1]
				if k := i / 98; k > 0 {
					s += bytes[k-1 : k]
				}
				for _, w := range writings(s) {
					if !layout(c, "<S> ::= "+w+" ", bnf.Grammar{Rules: []bnf.Rule{R("S", a1(tm(s)))}}) {
						return
					}
				}
			}})
			fams = append(fams, Family{Name: "real", Desc: "the JSON grammar text and the printed BNF grammar: LF/CRLF, extra spaces at every single token boundary, blank lines after every line, quote style swapped", N: 2, Run: func(c *Ctx, i uint64) {
				fe := getFE(c)
				if fe == nil {
					return
				}
				text := jsonBNFText()
				if i == 1 {
					text = bnf.SelfGrammar().String()
				}
				base := readBNF(text)
				if !base.accepts() {
					return
				}
				try := func(what, t string) bool {
					c.st.States++
					c.st.Transitions++
					c.st.Traces++
					got := fe.read(t)
					if got.bad != "" || got.err != nil {
						c.violate("a layout of a real grammar is refused: "+got.bad+fmt.Sprint(got.err), "change", what)
						return false
					}
					if d := diffGrammar(base.g, *got.g); d != "" {
						c.violate("layout changes a real grammar: "+d, "change", what)
						return false
					}
					return true
				}
				lf := strings.ReplaceAll(text, "\r\n", "\n")
				if !try("as shipped", text) || !try("LF", lf) || !try("CRLF", strings.ReplaceAll(lf, "\n", "\r\n")) ||
					!try("blank lines", strings.ReplaceAll(lf, "\n", "\n\n")) || !try("blank lines with spaces", strings.ReplaceAll(lf, "\n", "\n  \r\n")) ||
					!try("trailing line end", lf+"\n") || !try("trailing CRLF and spaces", lf+"\r\n  ") || !try("leading spaces", "   "+strings.ReplaceAll(lf, "\n", "  \n   ")) {
					return
				}
				for s := uint64(0); s < 40; s++ {
					if !try(fmt.Sprintf("style %d", s), writeGram(base.g, s*7919+1)) {
						return
					}
				}
			}})
			return fams
		}})
}
