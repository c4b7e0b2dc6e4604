package main

// C16: the n-th call answers like the first, for every n the sources name.
// C15: very long texts.

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

// countsFamily: one kind of call repeated n times, then every probe.
func countsFamily() Family {
	counts := append([]int{100, 300_000}, dictSizes(16, 1<<20+1)...)
	kinds := []string{"accepting", "rejecting", "accepting and rejecting in turn", "failing to read", "building parsers", "building tables", "refusing grammars", "converting", "failing to convert"}
	nk := uint64(len(kinds))
	return Family{Name: "counts", Desc: fmt.Sprintf("%d kinds of calls repeated each of %d numbers of times (named by the sources under test, and their neighbours), then every input of up to 3 bytes through every source, a table, a refusal, a conversion: the answers of a fresh start", len(kinds), len(counts)), N: uint64(len(counts)) * nk, Chunk: 1, Run: func(c *Ctx, i uint64) {
		n, kind := counts[i/nk], i%nk
		g := toBNF(mkGram(body(alt("a", 1, "c"), alt("d")), body(alt("b", 0, 1), a0)))
		e := toBNF(mkGram(body(alt("a", 0), a0)))
		bad := toBNF(mkGram(body(alt("a", 0), alt("a"))))
		if kind > 3 && kind < 7 {
			n = min(n, 300_000)
		}
		ft, fe := callFG(g, 1<<40), callFG(e, 1<<40)
		if ft.bad() != "" || ft.err != nil || fe.bad() != "" || fe.err != nil {
			c.violate("no table for an LL(1) grammar: " + ft.bad() + fmt.Sprint(ft.err) + fe.bad() + fmt.Sprint(fe.err))
			return
		}
		ps := []parser.LL1Parser{parser.NewLL1Parser(*ft.table, *ft.names), parser.NewLL1Parser(*fe.table, *fe.names), parser.NewLL1Parser(rtable{0: {'a': {{t: "a"}, {nt: true, n: -2}}}}.real(), nil)}
		root, text, bind := tinyTree()
		probe := func() string {
			var sb strings.Builder
			for k, p := range ps {
				for l := 0; l <= 3; l++ {
					for x := uint64(0); x < product64(5, l); x++ {
						w := word("abcd\n", x, l)
						for _, src := range []any{w, []byte(w), bytes.NewBufferString(w), hideReader{strings.NewReader(w)}} {
							fmt.Fprintf(&sb, "parser %d, %T %q: %v\n", k, src, w, outcomeOf(callParse(p, src, 1_000_000)))
						}
					}
				}
				fmt.Fprintf(&sb, "parser %d, nil: %v\n", k, outcomeOf(callParse(p, nil, 1_000_000)))
			}
			fmt.Fprintln(&sb, wideGen(g), wideGen(e), wideGen(bad), aOut(bind.ToAST(root, text)), g.String())
			return sb.String()
		}
		want := probe()
		broken := failingReader{}
		_, pan, hang := guarded(1<<44, func() {
			for k := 0; k < n; k++ {
				p := ps[k%len(ps)]
				switch kind {
				case 0:
					p.Parse([]string{"d", "", "a\n"}[k%3])
				case 1:
					p.Parse([]string{"x", "b", "a"}[k%3])
				case 2:
					p.Parse([]string{"d", "", "a\n", "x", "b", "a"}[k%6])
				case 3:
					p.Parse(broken)
				case 4:
					parser.NewLL1Parser(*fe.table, *fe.names)
				case 5:
					tablegen.FromGrammar(e)
				case 6:
					tablegen.FromGrammar(bad)
				case 7:
					bind.ToAST(root, text)
				case 8:
					bind.ToAST(root, "?????????"[:min(9, len(text))]+strings.Repeat("?", max(0, len(text)-9)))
				}
			}
		})
		c.st.States++
		c.st.Traces++
		c.st.Transitions += int64(n)
		if pan != nil || hang {
			c.violate(fmt.Sprintf("repeated calls end in a panic: %v (hang %v)", pan, hang), "calls", kinds[kind], "number", n)
			return
		}
		if got := probe(); got != want {
			a, b := strings.Split(want, "\n"), strings.Split(got, "\n")
			for k := range a {
				if k < len(b) && a[k] != b[k] {
					c.violate("a call does not depend on its arguments alone", "earlier calls", fmt.Sprintf("%d times %s", n, kinds[kind]), "at first", a[k], "afterwards", b[k])
					return
				}
			}
			c.violate("a call does not depend on its arguments alone", "earlier calls", fmt.Sprintf("%d times %s", n, kinds[kind]))
		}
	}}
}

type failingReader struct{}

func (failingReader) Read([]byte) (int, error) { return 0, errBroken }

// hugeFamily: texts of many MiB, made of one long terminal so that the trees
// stay small.
func hugeFamily(beyond bool) Family {
	const block = 1 << 20
	totals := []int{1 << 20, 1<<20 + 1, 8 << 20, 16<<20 + 1, 24 << 20, 33 << 20, 70 << 20, 140 << 20}
	totals = append(totals, dictSizes(1<<20, 1<<28)...)
	if beyond {
		totals = []int{1<<31 + 5}
	}
	return Family{Name: "huge", Desc: fmt.Sprintf("sentences of %d lengths up to %d bytes (and named by the sources) made of terminals of 1 MiB and of 1 byte: as string, slice, buffer, reader and failing reader; shortened, extended and spoiled at the end (above 2 MiB: slice and reader, spoiled at the end; above 40 MiB: spoiled at the start, and failing readers)", len(totals), totals[len(totals)-1]), N: uint64(len(totals)), Chunk: 1, Run: func(c *Ctx, i uint64) {
		n := totals[i]
		b := make([]byte, block)
		for k := range b {
			b[k] = byte('b' + (k*7+k/251)%24)
		}
		b[0] = 'B'
		t := rtable{0: {'B': {{t: string(b)}, {nt: true, n: 0}}, 'a': {{t: "a"}, {nt: true, n: 1}}, 0: {}}, 1: {'a': {{t: "a"}, {nt: true, n: 1}}, 0: {}}}
		p := parser.NewLL1Parser(t.real(), map[int]string{0: "S", 1: "A"})
		blocks, rest := n/block, n%block
		if rest > 2000 { // few small terminals
			rest = 2000
		}
		w := bytes.Repeat(b, blocks)
		w = append(w, bytes.Repeat([]byte("a"), rest)...)
		n = len(w)
		fuel := srcFuel(n)
		c.st.States++
		check := func(what string, src any, n int, ok bool) bool {
			c.st.Traces++
			c.st.Transitions += int64(blocks)
			pr := callParse(p, src, fuel)
			d := pr.bad()
			if d == "" && (pr.err == nil) != ok {
				d = fmt.Sprintf("want accepted=%v, got error %v", ok, clip(fmt.Sprint(pr.err)))
			}
			if d == "" && ok {
				x := pr.node
				for k := 0; d == "" && k <= blocks+n-blocks*block; k++ {
					at := min(k, blocks)*block + max(0, k-blocks)
					if x.Pos() != at || x.End() != n {
						d = fmt.Sprintf("node %d spans [%d,%d), want [%d,%d)", k, x.Pos(), x.End(), at, n)
					}
					if k < blocks+n-blocks*block {
						if len(x.Childs()) != 2 || x.Childs()[0].Pos() != at {
							d = fmt.Sprintf("node %d has other children", k)
							break
						}
						x = x.Childs()[1]
					}
				}
			}
			if d != "" {
				c.violate("a long text is treated differently: "+d, "terminals of 1 MiB", blocks, "terminals of one byte", rest, "source", what)
			}
			return d == ""
		}
		switch {
		case n > 40<<20 && !beyond: // only what is decided by the first bytes
			w[0] = '?'
			for k, src := range []any{w, hideReader{bytes.NewReader(w)}, bytes.NewBuffer(w)} {
				if !check(fmt.Sprintf("spoiled at the start (%d)", k), src, 0, false) {
					return
				}
			}
		case n > 2<<20 || beyond:
			if !check("slice", w, n, true) || beyond || !check("reader", hideReader{bytes.NewReader(w)}, n, true) {
				return
			}
		default:
			if !check("slice", w, n, true) || !check("string", string(w), n, true) || !check("reader", hideReader{bytes.NewReader(w)}, n, true) || !check("buffer", bytes.NewBuffer(w), n, true) {
				return
			}
			if !check("slice without the last byte", w[:n-1], n-1, rest > 0) || !check("reader with one more byte", io.MultiReader(bytes.NewReader(w), strings.NewReader("b")), 0, false) || !check("reader without the last byte", hideReader{bytes.NewReader(w[:n-1])}, n-1, rest > 0) || !check("string with a zero byte more", string(w)+"\x00", 0, false) {
				return
			}
		}
		pr := callParse(p, io.MultiReader(bytes.NewReader(w), failingReader{}), fuel)
		if pr.bad() != "" || pr.err == nil || pr.node != nil || pr.names != nil || !isFailure(pr.err, errBroken) {
			c.violate("a reader failure is not returned", "bytes before the failure", n, "got", clip(fmt.Sprint(pr.err)))
			return
		}
		if n > 40<<20 {
			return
		}
		w[n-1] ^= 0x40
		check("reader, last byte changed", hideReader{bytes.NewReader(w)}, 0, false)
	}}
}
