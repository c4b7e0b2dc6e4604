package main

// Indexed families of grammars.

import (
	"fmt"
	"strings"
)

type gramFam struct {
	name, desc string
	n          uint64
	at         func(i uint64) *Gram
}

// seqs: all symbol sequences of length 0..max over the symbols, shortest first.
func seqs(syms []Sym, min, max int) []Alt {
	var r []Alt
	cur := []Alt{{}}
	for l := 0; l <= max; l++ {
		if l >= min {
			r = append(r, cur...)
		}
		var nxt []Alt
		for _, a := range cur {
			for _, s := range syms {
				nxt = append(nxt, append(append(Alt{}, a...), s))
			}
		}
		cur = nxt
	}
	return r
}

// bodies: all ordered lists of 1..k alternatives.
func bodies(alts []Alt, min, max int) []Body {
	var r []Body
	cur := []Body{{}}
	for l := 0; l <= max; l++ {
		if l >= min {
			r = append(r, cur...)
		}
		var nxt []Body
		if l < max {
			for _, b := range cur {
				for _, a := range alts {
					nxt = append(nxt, append(append(Body{}, b...), a))
				}
			}
		}
		cur = nxt
	}
	return r
}

func product(name, desc string, cats ...[]Body) gramFam {
	n := uint64(1)
	for _, c := range cats {
		n *= uint64(len(c))
	}
	return gramFam{name, desc, n, func(i uint64) *Gram {
		bs := make([]Body, len(cats))
		for k := len(cats) - 1; k >= 0; k-- {
			bs[k] = cats[k][i%uint64(len(cats[k]))]
			i /= uint64(len(cats[k]))
		}
		return mkGram(bs...)
	}}
}

func alt(s ...any) Alt {
	var a Alt
	for _, x := range s {
		switch v := x.(type) {
		case string:
			a = append(a, T(v))
		case int:
			a = append(a, N(v))
		}
	}
	return a
}
func body(a ...Alt) Body { return Body(a) }

var a0 = alt() // the empty alternative

// handmade grammars with nullable chains, nested FOLLOW propagation, several
// spellings of the same language, used with every rule order.
func handmade() []*Gram {
	const S, A, B, C, D, E = 0, 1, 2, 3, 4, 5
	return []*Gram{
		// nullable chain before a terminal, used twice in different contexts
		mkGram(body(alt("x", A, "y"), alt(A, "z")), body(alt(B, C, "d")), body(alt("b"), a0), body(alt("c"), a0)),
		// FOLLOW through two levels of tail position
		mkGram(body(alt(A, "q", S), a0), body(alt("(", B)), body(alt(C, D)), body(alt("c", C), a0), body(a0, alt("d", B))),
		// expression grammar
		mkGram(body(alt(B, A)), body(alt("+", B, A), a0), body(alt(D, C)), body(alt("*", D, C), a0), body(alt("(", S, ")"), alt("n"))),
		// all-nullable start
		mkGram(body(alt(A, B, C)), body(alt("a", A), a0), body(a0, alt("b", B)), body(alt("c"), a0)),
		// nested empties
		mkGram(body(alt(A, A)), body(alt(B)), body(alt(C, C)), body(a0)),
		// right recursion with multi-byte keywords sharing later bytes
		mkGram(body(alt("ab", A)), body(alt("ba", S), alt("cab", A), a0)),
		// unused, unproductive and unreachable rules
		mkGram(body(alt("a", A), alt("b")), body(alt("c", S), a0), body(alt("x", B)), body(alt("u", C), alt(D)), body(alt("v"), a0)),
		// statements: optional else, blocks
		mkGram(body(alt("i", S, A), alt("{", B, "}"), alt("s")), body(a0, alt("e", S, "f")), body(alt(S, ";", B), a0)),
		// dangling else (conflict)
		mkGram(body(alt("i", S, A), alt("s")), body(alt("e", S), a0)),
		// beginning/beginning conflict two levels down
		mkGram(body(alt(A), alt(B)), body(alt(C, "x")), body(alt("k", "y")), body(alt("k"), alt("j"))),
		// beginning/following conflict through a nullable chain
		mkGram(body(alt(A, B, "t")), body(alt("t"), a0), body(alt("u"), a0)),
		// two optional alternatives
		mkGram(body(alt(A, "x")), body(alt(B), alt(C)), body(alt("b"), a0), body(alt("c"), a0)),
		// left recursion: direct, indirect, hidden
		mkGram(body(alt(S, "a"), alt("b"))),
		mkGram(body(alt("b"), alt(A, "a")), body(alt(S, "c"))),
		mkGram(body(alt(A, S, "a"), alt("b")), body(a0, alt("c"))),
		mkGram(body(alt(S, "a"), a0)),
		mkGram(body(a0, alt(S, "a"))),
		// FOLLOW taken over several nullable symbols to the end of the rule
		mkGram(body(alt("[", A, "]")), body(alt(B, C, D)), body(alt("b"), a0), body(alt("c"), a0), body(alt("d"), a0)),
		// same nonterminal several times in one alternative
		mkGram(body(alt(A, "x", A, "y", A)), body(alt("a", A), a0)),
		mkGram(body(alt(A, B, A, "z")), body(alt("a"), a0), body(alt("b"))),
		// symbol right after itself
		mkGram(body(alt(A, A, "z")), body(alt("a"))),
		// list with separators, names out of order
		mkGram(body(alt("[", A, "]")), body(alt(C, B), a0), body(alt(",", C, B), a0), body(alt("n"), alt(S))),
		// deep chain of unit rules
		mkGram(body(alt(A)), body(alt(B)), body(alt(C)), body(alt(D, "!")), body(alt(E), alt("d")), body(alt("e"), a0)),
	}
}

func factorial(n int) uint64 {
	r := uint64(1)
	for i := 2; i <= n; i++ {
		r *= uint64(i)
	}
	return r
}

// permGram: permute the rules 1..n-1 (the start stays first) and reverse the
// alternatives of the rules selected by mask.
func permGram(g *Gram, perm uint64, mask uint64) *Gram {
	n := len(g.Rules)
	rest := make([]int, n-1)
	for i := range rest {
		rest[i] = i + 1
	}
	order := []int{0}
	for k := n - 1; k > 0; k-- {
		f := factorial(k - 1)
		j := perm / f
		perm %= f
		order = append(order, rest[j])
		rest = append(append([]int{}, rest[:j]...), rest[j+1:]...)
	}
	newIdx := make([]int, n)
	for i, o := range order {
		newIdx[o] = i
	}
	r := &Gram{}
	for i, o := range order {
		r.Names = append(r.Names, g.Names[o])
		var b Body
		for _, a := range g.Rules[o] {
			var x Alt
			for _, s := range a {
				if s.NT {
					s.N = newIdx[s.N]
				}
				x = append(x, s)
			}
			b = append(b, x)
		}
		if mask>>uint(i)&1 == 1 {
			for l, h := 0, len(b)-1; l < h; l, h = l+1, h-1 {
				b[l], b[h] = b[h], b[l]
			}
		}
		r.Rules = append(r.Rules, b)
	}
	return r
}

func permFamily() gramFam {
	hm := handmade()
	var starts []uint64
	total := uint64(0)
	for _, g := range hm {
		starts = append(starts, total)
		n := len(g.Rules)
		total += factorial(n-1) << uint(n)
	}
	return gramFam{"perm", fmt.Sprintf("%d handmade grammars (nullable chains, nested FOLLOW, recursion, conflicts) under every order of the non-start rules and every reversal of alternatives", len(hm)), total,
		func(i uint64) *Gram {
			k := len(starts) - 1
			for starts[k] > i {
				k--
			}
			i -= starts[k]
			n := uint(len(hm[k].Rules))
			return permGram(hm[k], i>>n, i&(1<<n-1))
		}}
}

// bytesFamily: terminals over all byte values.
func bytesFamily(all bool) gramFam {
	if all {
		return gramFam{"bytes2", "S ::= x | y A, A ::= y | \"\" for all ordered byte pairs x, y (1..255)", 255 * 255, func(i uint64) *Gram {
			x, y := string([]byte{byte(1 + i/255)}), string([]byte{byte(1 + i%255)})
			return mkGram(body(alt(x), alt(y, 1)), body(alt(x), a0))
		}}
	}
	return gramFam{"bytes", "S ::= x A z, A ::= y S | \"\" with y every byte 1..255, x and z derived from it (neighbours, +64, +128)", 255 * 4, func(i uint64) *Gram {
		y := int(1 + i/4)
		d := []int{1, 64, 128, 254}[i%4]
		z := (y-1+d)%255 + 1
		ys, zs := string([]byte{byte(y)}), string([]byte{byte(z)})
		return mkGram(body(alt(zs+ys, 1, zs), alt(ys)), body(alt(ys, zs), a0))
	}}
}

// ladderFamily: size thresholds.
func ladderShapes() []func(n int) *Gram {
	return []func(n int) *Gram{
		func(n int) *Gram { // chain of n rules, each adding a byte and optionally stopping
			bs := []Body{}
			for k := 0; k < n; k++ {
				b := string([]byte{byte('a' + k%26)})
				if k == n-1 {
					bs = append(bs, body(alt(b), a0))
				} else {
					bs = append(bs, body(alt(b, k+1), a0))
				}
			}
			return mkGram(bs...)
		},
		func(n int) *Gram { // n nullable rules in one alternative
			bs := []Body{{}}
			a := Alt{}
			for k := 1; k <= n; k++ {
				a = append(a, N(k))
				bs = append(bs, body(alt(string([]byte{byte(k%255 + 1), 'x'})), a0))
			}
			bs[0] = body(append(a, T("\xff$")))
			if n > 200 {
				bs[0] = body(a[:200])
			}
			return mkGram(bs...)
		},
		func(n int) *Gram { // n alternatives
			b := Body{}
			for k := 1; k <= n && k <= 255; k++ {
				b = append(b, alt(string([]byte{byte(k)})))
			}
			return mkGram(body(alt(1, 1)), b)
		},
		func(n int) *Gram { // one terminal of n bytes
			t := make([]byte, n)
			for k := range t {
				t[k] = byte('a' + (k*7)%23)
			}
			return mkGram(body(alt(string(t), 1)), body(alt("!"), a0))
		},
		func(n int) *Gram { // one alternative with n symbols
			a := Alt{}
			for k := 0; k < n; k++ {
				if k%3 == 2 {
					a = append(a, N(1))
				} else {
					a = append(a, T(string([]byte{byte('a' + k%5)})))
				}
			}
			return mkGram(body(a), body(alt("-")))
		},
		func(n int) *Gram { // unit chain of n rules
			bs := []Body{}
			for k := 0; k < n; k++ {
				bs = append(bs, body(alt(k+1)))
			}
			bs = append(bs, body(alt("u"), a0))
			return mkGram(bs...)
		},
		func(n int) *Gram { // unit chain written backwards: needs many FIRST passes
			bs := []Body{body(alt("<", n, ">"))}
			for k := 1; k <= n; k++ {
				if k == 1 {
					bs = append(bs, body(alt("u"), a0))
				} else {
					bs = append(bs, body(alt(k-1)))
				}
			}
			return mkGram(bs...)
		},
		func(n int) *Gram { // unit chain forwards under a bracket: needs many FIRST/FOLLOW passes
			bs := []Body{body(alt("<", 1, ">"))}
			for k := 1; k <= n; k++ {
				if k == n {
					bs = append(bs, body(a0, alt("u", k)))
				} else {
					bs = append(bs, body(alt(k+1)))
				}
			}
			return mkGram(bs...)
		},
		func(n int) *Gram { // n symbols in a row that are all left out
			a := Alt{}
			for k := 0; k < n; k++ {
				a = append(a, N(1+k%2))
			}
			return mkGram(body(append(a, T("z")), alt("y", 0)), body(a0), body(alt(1)))
		},
	}
}

// bySymbols: the shape's size is a length, not a number of rules.
func bySymbols(shape int) bool { return shape == 3 || shape == 4 || shape == 8 }

func ladderFamily(max int) gramFam {
	shapes := ladderShapes()
	return gramFam{"ladder", fmt.Sprintf("%d size shapes (rules, nullable runs, alternatives, terminal length, alternative length, unit chains both ways) for every size 1..%d", len(shapes), max), uint64(len(shapes) * max),
		func(i uint64) *Gram { return shapes[i%uint64(len(shapes))](int(i/uint64(len(shapes))) + 1) }}
}


// sizesFamily: the same shapes at sizes around powers of two.
func sizesFamily(thorough bool) gramFam {
	shapes := ladderShapes()
	rules := []int{96, 127, 128, 129, 255, 256, 257, 300}
	syms := []int{96, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097}
	if thorough {
		rules = append(rules, 340, 400)
		syms = append(syms, 8191, 8193, 10000, 10001, 16385, 32767, 32769, 65535, 65536, 65537, 100000)
	}
	type item struct{ shape, n int }
	var items []item
	for k := range shapes {
		l := rules
		if bySymbols(k) {
			l = syms
		}
		for _, n := range l {
			if k == 2 && n > 255 || k == 8 && n > 20_000 {
				continue
			}
			items = append(items, item{k, n})
		}
	}
	return gramFam{"sizes", fmt.Sprintf("the ladder's shapes at %d rule counts up to %d and %d lengths of a terminal or an alternative up to %d", len(rules), rules[len(rules)-1], len(syms), syms[len(syms)-1]), uint64(len(items)),
		func(i uint64) *Gram { return shapes[items[i].shape](items[i].n) }}
}

// manyFamily: thousands of rules.
func manyFamily(thorough bool) gramFam {
	ns := []int{500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049}
	if thorough {
		ns = append(ns, 4095, 4096, 4097)
	}
	shapes := []func(n int) *Gram{
		ladderShapes()[0],
		func(n int) *Gram { // reached by two bytes: every rule is used
			bs := make([]Body, n)
			for k := range bs {
				x, y := string([]byte{byte(33 + k%90)}), string([]byte{byte(35 + (k+1)%90)})
				bs[k] = body(alt(x, (k*2+1)%n, y), alt(y, (k+n/2)%n, x), alt("\x7f"))
				if x == y || k == n-1 {
					bs[k] = body(alt(x))
				}
			}
			bs[0] = body(alt("a", n/2), alt("b", n-1), alt("c", n-2), alt("d", 1))
			return mkGram(bs...)
		},
		func(n int) *Gram { // rules far apart
			bs := make([]Body, n)
			for k := range bs {
				bs[k] = body(alt(string([]byte{byte(1 + k%255)}), "x"))
			}
			bs[0] = body(alt(n-1, "1", n-2, "2", n/2, "3", n*3/4))
			bs[n-1] = body(alt("a", n-2, n/3), alt("b"))
			return mkGram(bs...)
		},
	}
	k := uint64(len(shapes))
	return gramFam{"many", fmt.Sprintf("%d shapes of up to %d rules (chains, jumps, rules far apart) at %d sizes", k, ns[len(ns)-1], len(ns)), uint64(len(ns)) * k, func(i uint64) *Gram { return shapes[i%k](ns[i/k]) }}
}

// namePool: rule names are arbitrary strings; these are the ones most easily
// confused with each other or with something special.
var namePool = []string{"S", "s", "S ", " S", "", " ", "  ", "S\t", "S\n", "<S>", "S>", "S|T", "\"S\"", "'", "\\", "\x00", "S\x00", "\xff", "\u00e9", "e\u0301", "\u017f", "_literal", "_nothing", "EOL", "Unknown_1", "0", "1", "-1", "%s", "%!d", "::=",
	strings.Repeat("n", 300), strings.Repeat("n", 300) + "1", strings.Repeat("n", 300) + "2", "S-", "S-1", "S-10", "S_1", "S1", "S01", "\ufeffS"}

func namesFamily() gramFam {
	hm := handmade()
	steps := []int{1, 7, 40}
	per := uint64(len(namePool) * len(steps))
	return gramFam{"names", fmt.Sprintf("the handmade grammars with their rules named by %d odd names in %d arrangements", len(namePool), per), uint64(len(hm)) * per, func(i uint64) *Gram {
		g := *hm[i/per]
		i %= per
		o, st := int(i)/len(steps), steps[int(i)%len(steps)]
		var n []string
		for k := range g.Rules {
			n = append(n, namePool[(o+k*st)%len(namePool)])
		}
		g.Names = n
		return &g
	}}
}

// dagFamily: grammars in which naive recursion revisits rules exponentially often.
func dagFamily() gramFam {
	shapes := []func(n int) *Gram{
		func(n int) *Gram { // conflicts everywhere
			bs := []Body{}
			for k := 0; k < n; k++ {
				bs = append(bs, body(alt(k+1, "a"), alt(k+1, "b")))
			}
			return mkGram(append(bs, body(alt("x")))...)
		},
		func(n int) *Gram { // one sentence of 2^n bytes
			bs := []Body{}
			for k := 0; k < n; k++ {
				bs = append(bs, body(alt(k+1, k+1)))
			}
			return mkGram(append(bs, body(alt("x")))...)
		},
		func(n int) *Gram { // only the empty sentence, with 2^n leaves
			bs := []Body{}
			for k := 0; k < n; k++ {
				bs = append(bs, body(alt(k+1, k+1)))
			}
			return mkGram(append(bs, body(a0))...)
		},
		func(n int) *Gram { // two ways down everywhere
			bs := []Body{}
			for k := 0; k < n; k++ {
				bs = append(bs, body(alt(string([]byte{byte('a' + k%20)}), k+1), alt(k+1, k+1, "z")))
			}
			return mkGram(append(bs, body(alt("x")))...)
		},
		func(n int) *Gram { // every rule mentions every rule
			bs := []Body{}
			for k := 0; k <= n; k++ {
				a := alt(string([]byte{byte(1 + k)}))
				for j := 0; j <= n; j++ {
					a = append(a, N(j))
				}
				bs = append(bs, body(a, a0))
			}
			return mkGram(bs...)
		},
		func(n int) *Gram { // every rule mentions every later rule, all optional, in tail position
			bs := []Body{}
			for k := 0; k <= n; k++ {
				a := Alt{}
				for j := k + 1; j <= n; j++ {
					a = append(a, N(j))
				}
				if k == n {
					bs = append(bs, body(a0))
				} else {
					bs = append(bs, body(append(alt(string([]byte{byte(1 + k)})), a...), a0))
				}
			}
			return mkGram(bs...)
		},
		func(n int) *Gram { // a cycle of unit rules beside a way out
			bs := []Body{body(alt("[", 1, "]"))}
			for k := 1; k <= n; k++ {
				next := k%n + 1
				bs = append(bs, body(alt(next, next), alt("x")))
			}
			return mkGram(bs...)
		},
		func(n int) *Gram { // a cycle with no way out
			bs := []Body{body(alt("[", 1, "]"), a0)}
			for k := 1; k <= n; k++ {
				next := k%n + 1
				bs = append(bs, body(alt(next, next, next)))
			}
			return mkGram(bs...)
		},
	}
	const max = 40
	return gramFam{"dag", fmt.Sprintf("%d shapes of rules that mention later rules several times, or each other in circles, for every size 1..%d (tables only)", len(shapes), max), uint64(len(shapes) * max),
		func(i uint64) *Gram { return shapes[i%uint64(len(shapes))](int(i/uint64(len(shapes))) + 1) }}
}

// longFamily: grammars for inputs of more than 2^16 and 2^17 bytes.
func longGrams() []*Gram {
	const S, A, B = 0, 1, 2
	return []*Gram{
		mkGram(body(alt("a", S), alt(A)), body(alt("b"))),
		mkGram(body(alt("(", S, ")"), a0)),
		mkGram(body(alt("[", A, "]", S), a0), body(alt("x", A), alt("yy"), a0)),
		mkGram(body(alt("kw", A, B)), body(alt(",n", A), a0), body(alt(";", S), a0)),
		mkGram(body(alt(A, B)), body(alt("x"), alt("(", S, ")")), body(alt("+", A, B), a0)),
	}
}

func longFamily() gramFam {
	gs := longGrams()
	return gramFam{"long", "5 grammars (flat, nested, mixed) with sentences of more than 65536 and 131072 bytes, whole, cut and spoiled", uint64(len(gs)), func(i uint64) *Gram { return gs[i] }}
}

// farLeavesFamily: long terminals far from the start of the input.
func farLeavesFamily() gramFam {
	ls := []int{100, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8193, 10000, 16385, 32769, 65535, 65536, 65537}
	ls = append(ls, dictSizes(99, 140_000)...)
	return gramFam{"farleaves", fmt.Sprintf("lists of terminals of %d lengths up to %d, and of commas, in inputs of up to 300000 bytes, whole, cut and spoiled", len(ls), maxOf(ls)), uint64(len(ls)), func(i uint64) *Gram {
		t := make([]byte, ls[i])
		for k := range t {
			t[k] = byte('a' + (k*7+k/23)%26)
		}
		return mkGram(body(alt(string(t), 0), alt(",", 0), a0))
	}}
}

// denseFamily: choices among (nearly) all bytes, with and without one clash.
func denseFamily() gramFam {
	one := func(b int) string { return string([]byte{byte(b)}) }
	run := func(lo, hi, but int) Body { // one alternative per byte lo..hi but one
		var r Body
		for b := lo; b <= hi; b++ {
			if b != but {
				r = append(r, alt(one(b)))
			}
		}
		return r
	}
	forms := []func(y int, clash bool) *Gram{
		func(y int, clash bool) *Gram { // two beginnings in one rule
			b := run(1, 255, y)
			b = append(b, alt(one(y), "!"))
			if clash {
				b = append(b, alt(one(y)))
			}
			return mkGram(b)
		},
		func(y int, clash bool) *Gram { // the clash first
			b := Body{alt(one(y), "!")}
			if clash {
				b = append(b, alt(one(y)))
			}
			return mkGram(append(b, run(1, 255, y)...))
		},
		func(y int, clash bool) *Gram { // beginning against following
			but := y
			if clash {
				but = 0
			}
			return mkGram(body(alt(1, one(y))), append(run(1, 255, but), a0))
		},
		func(y int, clash bool) *Gram { // the optional alternative first
			but := y
			if clash {
				but = 0
			}
			return mkGram(body(alt("!", 1, 2), a0), append(Body{a0}, run(1, 255, but)...), body(alt(one(y), 0), alt(one(y%255+1))))
		},
		func(y int, clash bool) *Gram { // two rules that share the bytes
			hi := y + 1
			if clash {
				hi = y
			}
			return mkGram(body(alt(1), alt(2)), run(1, y, 0), append(run(hi, 255, 0), alt("\x01x")))
		},
		func(y int, clash bool) *Gram { // clash at the end of input alone
			b := run(y+1, 255, 0)
			if clash || len(b) == 0 {
				b = append(b, a0)
			}
			return mkGram(body(alt(1), alt(2)), append(run(1, y, 0), a0), b)
		},
		func(y int, clash bool) *Gram { // something in the middle of a repetition
			but := y
			if clash {
				but = 0
			}
			return mkGram(body(alt(1, 0), alt(one(y))), run(1, 255, but))
		},
		func(y int, clash bool) *Gram { // an optional rule after dense optional rules
			hi := y + 1
			if clash {
				hi = y
			}
			return mkGram(body(alt(1, 2, 1)), append(run(1, y, 0), a0), run(hi, 255, 0))
		},
		func(y int, clash bool) *Gram { // a dense choice in front of something, beside another alternative
			but := y
			if clash {
				but = 0
			}
			return mkGram(body(alt(one(y), "!"), alt(1, "?")), run(1, 255, but))
		},
		func(y int, clash bool) *Gram {
			but := y
			if clash {
				but = 0
			}
			return mkGram(body(alt(1, "?"), alt(one(y), 2), a0), run(1, 255, but), body(alt("!", 2), a0))
		},
		func(y int, clash bool) *Gram { // two rules that share the bytes, each followed by something
			hi := y + 1
			if clash {
				hi = y
			}
			return mkGram(body(alt(1, "?"), alt(2, "#", 1)), run(1, y, 0), append(run(hi, 255, 0), alt("\x01x")))
		},
		func(y int, clash bool) *Gram { // the same two levels down, with another two-symbol alternative in between
			hi := y + 1
			if clash {
				hi = y
			}
			return mkGram(body(alt(3, 0), a0), run(1, y, 0), append(run(hi, 254, 0), alt("\x01x")), body(alt(1, 1), alt("\xff"), alt(2, 2)))
		},
		func(y int, clash bool) *Gram { // an optional dense choice in front of a dense choice
			hi := y + 1
			if clash {
				hi = y
			}
			return mkGram(body(alt(1, 2, "?"), alt("\xff", 1)), append(run(1, y, 0), a0), run(hi, 254, 0))
		},
		func(y int, clash bool) *Gram { // three rules that share the bytes
			lo, hi := y/2+1, y+1
			if clash {
				lo = max(1, y/2)
			}
			return mkGram(body(alt("{", 4, "}")), append(run(1, y/2, int('}')), alt("\x01x")), append(run(lo, y, int('}')), alt("\x01y")), append(run(hi, 255, int('}')), alt("\x01z")), body(alt(1, "1"), alt(2, "2"), alt(3, "3"), a0))
		},
	}
	n := uint64(len(forms))
	return gramFam{"dense", fmt.Sprintf("%d grammars that choose among (nearly) all bytes, around every byte 1..255, each without and with a clash on that byte or at end of input", n), n * 255 * 2, func(i uint64) *Gram {
		return forms[i/2%n](int(i/2/n)+1, i%2 == 1)
	}}
}

// farFamily: one clash at any place of a larger grammar.
func farFamily() gramFam {
	type item struct{ n, k, kind int }
	var items []item
	sizes := []int{}
	for n := 1; n <= 20; n++ {
		sizes = append(sizes, n)
	}
	for _, n := range append(sizes, 33, 65, 129) {
		for k := 0; k < n; k++ {
			if n > 100 && k > 2 && k < n-3 && k%16 > 1 {
				continue
			}
			for kind := 0; kind < 7; kind++ {
				items = append(items, item{n, k, kind})
			}
		}
	}
	type pair struct{ m, i, j, kind int }
	var pairs []pair
	for m := 2; m <= 12; m++ {
		for i := 0; i < m; i++ {
			for j := 0; j < m; j++ {
				for kind := 0; kind < 3 && i != j; kind++ {
					pairs = append(pairs, pair{m, i, j, kind})
				}
			}
		}
	}
	return gramFam{"far", fmt.Sprintf("chains of up to 129 rules with a clash of one of 6 kinds (or none) in any one rule, and rules of up to 12 alternatives with a clash between any two: %d grammars", len(items)+len(pairs)), uint64(len(items) + len(pairs)), func(x uint64) *Gram {
		if x >= uint64(len(items)) {
			p := pairs[x-uint64(len(items))]
			var b Body
			for k := 0; k < p.m; k++ {
				b = append(b, alt(string([]byte{byte('a' + k)}), "1"))
			}
			u := alt("u")
			switch p.kind {
			case 0: // the same byte, first
				b[p.i], b[p.j] = alt("z"), alt("zz", 1)
			case 1: // through another rule
				b[p.i], b[p.j] = alt("z"), alt(1, "y")
				u = alt("z")
			case 2: // beginning against following
				b[p.i], b[p.j] = alt("|", 1), a0
			}
			return mkGram(body(alt("<", 2, "|"), alt("-", 1)), body(u, a0), b)
		}
		it := items[x]
		var bs []Body
		for k := 0; k < it.n; k++ {
			b := string([]byte{byte('a' + k%20)})
			tail := alt(b, k+1)
			if k == it.n-1 {
				tail = alt(b)
			}
			r := body(tail, a0)
			if k == it.k {
				switch it.kind {
				case 1:
					r = body(tail, alt(b, "x"), a0)
				case 2:
					r = body(a0, tail, a0)
				case 3:
					r = body(tail, alt(it.n), a0) // the extra rule begins with the same byte
				case 4:
					r = body(tail, a0, alt(it.n+1)) // the extra rule is optional
				case 5:
					r = body(alt(it.n+1, b), tail)
				case 6:
					r = body(tail, alt("~", it.n+2, b)) // a clash with what follows, inside the extra rule
				}
			}
			bs = append(bs, r)
		}
		b := string([]byte{byte('a' + it.k%20)})
		return mkGram(append(bs, body(alt(b, "!")), body(alt("#"), a0), body(alt(b), a0))...)
	}}
}

func gramFamilies(tier string) []gramFam {
	thorough := tier == "thorough"
	a, b, ab, ba := T("a"), T("b"), T("ab"), T("ba")
	S, A, B := N(0), N(1), N(2)
	two := bodies(seqs([]Sym{a, b, S, A}, 0, 2), 1, 2)
	twoM := bodies(seqs([]Sym{ab, ba, S, A}, 0, 2), 1, 2)
	fams := []gramFam{}
	if thorough {
		fams = append(fams, product("one", "1 rule, <=3 alternatives of length <=3 over a, b, ab, S", bodies(seqs([]Sym{a, b, ab, S}, 0, 3), 1, 3)))
	} else {
		fams = append(fams, product("one", "1 rule, <=2 alternatives of length <=3 over a, b, ab, S", bodies(seqs([]Sym{a, b, ab, S}, 0, 3), 1, 2)))
	}
	fams = append(fams, permFamily())
	c1 := bodies([]Alt{a0, alt("a"), alt("b"), alt("c"), alt(2)}, 1, 2)
	c2 := bodies([]Alt{a0, alt("a"), alt("b"), alt("c"), alt(1)}, 1, 2)
	chain0 := bodies(seqs([]Sym{A, B, a}, 3, 4), 1, 1)
	fams = append(fams,
		product("two", "2 rules, each <=2 alternatives of length <=2 over a, b, S, A", two, two),
		product("chain3", "S ::= 3..4 symbols over A, B, a; A and B <=2 alternatives over \"\", a, b, c and each other", chain0, c1, c2),
	)
	cat := []Body{body(a0), body(alt("a")), body(alt("a"), a0), body(a0, alt("a")), body(alt("b"), a0), body(a0, alt("b")), body(alt("c"), a0),
		body(alt(2)), body(alt(2), a0), body(alt(2, 3)), body(alt("a", 1), a0), body(a0, alt("b", 3)), body(alt("d"), alt("c", 2))}
	s4 := bodies(seqs([]Sym{A, B, N(3)}, 3, 3), 1, 1)
	s4d := []Body{}
	for _, x := range s4 {
		s4d = append(s4d, x, body(append(append(Alt{}, x[0]...), T("d"))))
	}
	fams = append(fams, product("chain4", "S ::= 3 nonterminals (optionally a trailing d); A, B, C each one of 13 bodies with optional, recursive and chained alternatives", s4d, cat, cat, cat))
	fams = append(fams, denseFamily(), farFamily(), namesFamily(), lookFamily(), dagFamily(), longFamily(), sizesFamily(thorough), manyFamily(thorough), dictFamily(), farLeavesFamily())
	fams = append(fams, bytesFamily(false), ladderFamily(map[bool]int{false: 70, true: 300}[thorough]))
	if thorough {
		fams = append(fams,
			product("twomulti", "2 rules, each <=2 alternatives of length <=2 over ab, ba, S, A", twoM, twoM),
			bytesFamily(true),
			product("three", "3 rules: S <=2 alternatives of length <=2 over a, A, B; A, B <=2 alternatives of length <=1 or xN", bodies(seqs([]Sym{a, A, B}, 0, 2), 1, 2),
				bodies([]Alt{a0, alt("a"), alt("b"), alt(2), alt("a", 2), alt(2, "b"), alt("b", 0), alt(1, "a")}, 1, 2),
				bodies([]Alt{a0, alt("a"), alt("b"), alt(1), alt("b", 1), alt(1, "a"), alt("a", 0)}, 1, 2)),
		)
	}
	return fams
}
