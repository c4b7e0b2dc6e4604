package main

// C16: operation lists are made of what they are given and share nothing.

import (
	"fmt"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/parser"
)

func opListFamily() Family {
	const max = 66
	return Family{Name: "oplists", Desc: fmt.Sprintf("operation lists of 0 to %d symbols made from slices with and without spare room: the slice, another list made from it or an appended element never shows in the list or in a parser that uses it, nor the other way round", max), N: (max + 1) * 4, Run: func(c *Ctx, i uint64) {
		n, spare := int(i/4), int(i%4)
		mk := func(k int) parser.ParserOp { return parser.OpTerminal(string([]byte{byte('A' + k%50)})) }
		src := make([]parser.ParserOp, n, n+spare)
		want := make([]parser.ParserOp, n)
		text := ""
		for k := range src {
			src[k], want[k] = mk(k), mk(k)
			text += string([]byte{byte('A' + k%50)})
		}
		same := func(l, w []parser.ParserOp) bool {
			if len(l) != len(w) {
				return false
			}
			for k := range l {
				if l[k] != w[k] {
					return false
				}
			}
			return true
		}
		row := map[byte][]parser.ParserOp{}
		var p parser.LL1Parser
		var l, o []parser.ParserOp
		step := func(what string, ok bool) bool {
			c.st.Transitions++
			if !ok {
				c.violate("an operation list depends on more than what it was made of: "+what, "symbols", n, "spare room", spare)
			}
			return ok
		}
		parse := func(what string) bool {
			for _, w := range []string{text, text + "~", strings.ToLower(text) + "~"} {
				c.st.Traces++
				pr := callParse(p, w, 1_000_000)
				if pr.bad() != "" || (pr.err == nil) != (w == text) {
					c.violate("a parser's answer changes: "+what+": "+pr.bad()+fmt.Sprint(pr.err), "symbols", n, "spare room", spare, "input", w)
					return false
				}
			}
			return true
		}
		c.st.States++
		_, pan, hang := guarded(1_000_000, func() { l = parser.NewParserOpList(src...); o = parser.NewParserOpList(src...) })
		if pan != nil || hang {
			c.violate(fmt.Sprintf("making an operation list: panic %v", pan), "symbols", n)
			return
		}
		if !step("not its arguments", same(l, want) && same(o, want)) {
			return
		}
		first := byte(0)
		if n > 0 {
			first = 'A'
		}
		row[first] = l
		p = parser.NewLL1Parser(map[int]map[byte][]parser.ParserOp{0: row}, map[int]string{0: "S"})
		if !parse("as made") {
			return
		}
		junk := parser.OpNonTerminal(5)
		for k := range src {
			src[k] = junk
		}
		_ = append(src, junk)
		if !step("the slice it was made from", same(l, want) && same(o, want)) || !parse("the slice was overwritten") {
			return
		}
		for k := range o {
			o[k] = junk
		}
		o = append(o, junk)
		if !step("another list made from the same slice", same(l, want)) || !parse("another list was overwritten") {
			return
		}
		x, y := append(l, junk), append(l, mk(0)) // spare room of l itself belongs to the caller
		_, _ = x, y
		if !step("elements appended to it", same(l, want)) || !parse("elements were appended") {
			return
		}
		copy(src, want)
		for k := range l {
			l[k] = junk
		}
		if !step("overwriting it shows in the slice", same(src, want)) {
			return
		}
		c.out("independent")
	}}
}
