package main

// C12: values and keys of the escape mapping.

import (
	"fmt"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
)

// leafy is a node under construction; text is used for leaves.
type leafy struct {
	typ  int
	text string
	kids []*leafy
}

func lay(n *leafy) (*RT, string) {
	var sb strings.Builder
	var rec func(n *leafy) *RT
	rec = func(n *leafy) *RT {
		r := &RT{Typ: n.typ, Pos: sb.Len()}
		sb.WriteString(n.text)
		for _, k := range n.kids {
			r.Kids = append(r.Kids, rec(k))
		}
		r.End = sb.Len()
		return r
	}
	return rec(n), sb.String()
}

func escapeValues() []string {
	var r []string
	lens := []int{}
	for n := 0; n <= 20; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4097)
	for _, n := range lens {
		for _, unit := range []string{"v", "ab", "\u00e9", "\U0001f600", "\xff\xc3", "\x00\x01", "\"'\\", "\n\r\t ", "0123456789"} {
			s := strings.Repeat(unit, n/len(unit)+1)[:n] // may end inside a character
			r = append(r, s)
		}
	}
	for b := 0; b < 256; b++ {
		c := string([]byte{byte(b)})
		r = append(r, c, "x"+c, c+"x", c+c+c)
	}
	r = append(r, "<S>", "::=", "\\n", "t", "\u2028", "\ufeff", "e\u0301", "\xed\xa0\x80")
	return r
}

func escapeKeys() []string {
	k := []string{"", "t", "n", "xy", "\\", "'", "u0041", "\u00e9", "\U0001f600", "\xff", "\x00", " ", "\n", strings.Repeat("k", 64), strings.Repeat("k", 65), "T"}
	return k
}

func escapeFamilies() []Family {
	nums := numberings()
	mk := func(nm *numbering, before, key, between, key2, after string, wrap bool) (*RT, string) {
		t := func(role int, kids ...*leafy) *leafy { return &leafy{typ: nm.typ[role], kids: kids} }
		l := func(role int, s string) *leafy { return &leafy{typ: nm.typ[role], text: s} }
		esc := func(k string) *leafy {
			c := t(roChr, l(roLit, k))
			if wrap {
				c = t(roOther, l(roOther, ""), t(roChr, l(roLit, k[:len(k)/2]), l(roLit, k[len(k)/2:])))
			}
			return t(roEsc, l(roLit, "\\"), c)
		}
		return lay(t(roRoot, t(roRule, l(roHead, "S"), t(roTail, t(roSeq,
			t(roSym, t(roT1, l(roLit, before), esc(key), t(roOther, l(roLit, between)), esc(key2), l(roLit, after))),
			t(roSym, t(roT2, esc(key))))))))
	}
	vals, keys := escapeValues(), escapeKeys()
	with := func(b fromcst.BNFCSTtoASTBindings, kv ...string) fromcst.BNFCSTtoASTBindings {
		b.EscapeMapping = map[string]string{}
		for i := 0; i+1 < len(kv); i += 2 {
			b.EscapeMapping[kv[i]] = kv[i+1]
		}
		return b
	}
	item := func(c *Ctx, tree *RT, text string, b fromcst.BNFCSTtoASTBindings) bool {
		c.st.States++
		c.st.Transitions += int64(tree.size())
		c.sample(func() string { return fmt.Sprintf("%q under %q", clip(text), clip(fmt.Sprint(b.EscapeMapping))) })
		return convCheck(c, tree, text, b)
	}
	nk := uint64(len(keys))
	return []Family{
		{Name: "escape values", Desc: fmt.Sprintf("%d values of an escape (lengths 0..20 and around powers of two to 4097 over 9 contents, every byte) under %d keys: at the start, in the middle, at the end and twice in a literal", len(vals), nk), N: uint64(len(vals)) * nk, Chunk: 16, Run: func(c *Ctx, i uint64) {
			v, k := vals[i/nk], keys[i%nk]
			other := vals[(i/nk*7+3)%uint64(len(vals))]
			k2 := k + "2"
			for n := range nums {
				nm := &nums[n]
				b := with(nm.b, k, v, k2, other, "zz", "never")
				for f := 0; f < 5; f++ {
					before, between, after := []string{"", "a", "a", "", "\u00e9'"}[f], []string{"", "", "b", "", "\\"}[f], []string{"", "", "c", "c", "\xff"}[f]
					second := k2
					if f%2 == 1 {
						second = k
					}
					tree, text := mk(nm, before, k, between, second, after, f >= 2)
					if !item(c, tree, text, b) {
						return
					}
				}
			}
		}},
		{Name: "escape keys", Desc: "every pair of keys out of the same list and their near variants (case, prefix, suffix, one byte added): one mapped, the other used", N: nk * nk * 8, Chunk: 16, Run: func(c *Ctx, i uint64) {
			v := int(i % 8)
			i /= 8
			a, k := keys[i/nk], keys[i%nk]
			used := []string{k, k + "n", "n" + k, strings.ToUpper(k), k + " ", k + "\x00", k[:len(k)/2], k + k}[v]
			for n := range nums {
				for f := 0; f < 2; f++ {
					tree, text := mk(&nums[n], "a", used, "", used, "", f == 1)
					if !item(c, tree, text, with(nums[n].b, a, "value", k, "other")) || !item(c, tree, text, with(nums[n].b, a, "value")) || !item(c, tree, text, with(nums[n].b)) {
						return
					}
					b := nums[n].b
					b.EscapeMapping = nil
					if !item(c, tree, text, b) {
						return
					}
				}
			}
		}},
		{Name: "escape runs", Desc: "literals of 0..300 escapes (and 511..513, 1023..1025, 5000) of three different values with text in between, before and after", N: 308 * 3, Chunk: 16, Run: func(c *Ctx, i uint64) {
			n := int(i / 3)
			if n > 300 {
				n = []int{511, 512, 513, 1023, 1024, 1025, 5000}[n-301]
			}
			nm := &nums[i%3]
			t := func(role int, kids ...*leafy) *leafy { return &leafy{typ: nm.typ[role], kids: kids} }
			l := func(role int, s string) *leafy { return &leafy{typ: nm.typ[role], text: s} }
			for style := 0; style < 3; style++ {
				kids := []*leafy{l(roLit, "<")}
				deep := t(roT2)
				at := deep
				for k := 0; k < n; k++ {
					e := t(roEsc, l(roLit, "\\"), t(roChr, l(roLit, []string{"1", "2", "12"}[(k+style)%3])))
					kids = append(kids, e)
					if style == 1 {
						kids = append(kids, l(roLit, "ab"[k%2:]))
					}
					at.kids = append(at.kids, e)
					if n <= 300 {
						nx := t(roOther)
						at.kids = append(at.kids, nx)
						at = nx
					}
				}
				tree, text := lay(t(roRoot, t(roRule, l(roHead, "S"), t(roTail, t(roSeq, t(roSym, t(roT1, kids...)), t(roSym, deep))))))
				if !item(c, tree, text, with(nm.b, "1", "", "2", "\\", "12", "long value ")) {
					return
				}
			}
		}},
	}
}
