package main

// Values that common hashes and short digests do not tell apart: names, texts,
// grammars and tables that are different but would share an entry of a cache or
// a set keyed by such a digest.

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"hash"
	"hash/adler32"
	"hash/crc32"
	"hash/fnv"
	"math/bits"
	"strings"
	"sync"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

type digester struct {
	name string
	of   func(s string) uint32
}

func digesters() []digester {
	poly := func(start, mul uint32) func(string) uint32 {
		return func(s string) uint32 {
			h := start
			for k := 0; k < len(s); k++ {
				h = h*mul + uint32(s[k])
			}
			return h
		}
	}
	std := func(mk func() hash.Hash32) func(string) uint32 {
		h := mk()
		return func(s string) uint32 { h.Reset(); h.Write([]byte(s)); return h.Sum32() }
	}
	fold64 := func(mk func() hash.Hash64, f func(uint64) uint32) func(string) uint32 {
		h := mk()
		return func(s string) uint32 { h.Reset(); h.Write([]byte(s)); return f(h.Sum64()) }
	}
	lo := func(x uint64) uint32 { return uint32(x) }
	hi := func(x uint64) uint32 { return uint32(x >> 32) }
	xor := func(x uint64) uint32 { return uint32(x) ^ uint32(x>>32) }
	return []digester{
		{"fnv32", std(fnv.New32)}, {"fnv32a", std(fnv.New32a)},
		{"fnv64 low", fold64(fnv.New64, lo)}, {"fnv64a low", fold64(fnv.New64a, lo)}, {"fnv64a high", fold64(fnv.New64a, hi)}, {"fnv64a folded", fold64(fnv.New64a, xor)},
		{"crc32 IEEE", crc32IEEE}, {"crc32 Castagnoli", func(s string) uint32 { return crc32.Checksum([]byte(s), castagnoli) }}, {"crc32 Koopman", func(s string) uint32 { return crc32.Checksum([]byte(s), koopman) }},
		{"adler32", func(s string) uint32 { return adler32.Checksum([]byte(s)) }},
		{"31", poly(0, 31)}, {"33", poly(5381, 33)}, {"131", poly(0, 131)}, {"257", poly(0, 257)}, {"65599", poly(0, 65599)}, {"1000003", poly(0, 1000003)}, {"16777619", poly(0, 16777619)},
		{"33 xor", func(s string) uint32 {
			h := uint32(5381)
			for k := 0; k < len(s); k++ {
				h = h*33 ^ uint32(s[k])
			}
			return h
		}},
		{"rotations", func(s string) uint32 {
			h := uint32(0)
			for k := 0; k < len(s); k++ {
				h = bits.RotateLeft32(h, 5) ^ uint32(s[k])
			}
			return h
		}},
		{"sum", func(s string) uint32 {
			h := uint32(0)
			for k := 0; k < len(s); k++ {
				h += uint32(s[k])
			}
			return h
		}},
		{"md5", func(s string) uint32 { d := md5.Sum([]byte(s)); return binary.BigEndian.Uint32(d[:]) }},
		{"sha1", func(s string) uint32 { d := sha1.Sum([]byte(s)); return binary.BigEndian.Uint32(d[:]) }},
		{"sha256", func(s string) uint32 { d := sha256.Sum256([]byte(s)); return binary.BigEndian.Uint32(d[:]) }},
	}
}

var castagnoli, koopman = crc32.MakeTable(crc32.Castagnoli), crc32.MakeTable(crc32.Koopman)

func crc32IEEE(s string) uint32 { return crc32.ChecksumIEEE([]byte(s)) }

// colliding: pairs w, x of 8-letter words for which before+w+after and
// before+x+after have the same digest.
func colliding(d digester, before, after string, letters string, most int) [][2]string {
	seen := make(map[uint32]uint32, 1<<17)
	wordOf := func(k uint32) string {
		var b [8]byte
		z := uint64(k)*0x9E3779B97F4A7C15 + 0x1234567
		z ^= z >> 31
		z *= 0xBF58476D1CE4E5B9
		for j := range b {
			b[j] = letters[(z>>(7*uint(j)))%uint64(len(letters))]
		}
		return string(b[:])
	}
	var r [][2]string
	for k := uint32(0); k < 260_000 && len(r) < most; k++ {
		w := wordOf(k)
		h := d.of(before + w + after)
		if o, ok := seen[h]; ok {
			if x := wordOf(o); x != w {
				r = append(r, [2]string{x, w})
			}
			continue
		}
		seen[h] = k
	}
	return r
}

// thueMorse: two texts that every polynomial in a machine word confuses.
func thueMorse(n int) (string, string) {
	var a, b strings.Builder
	for k := 0; k < n; k++ {
		if bits.OnesCount(uint(k))%2 == 0 {
			a.WriteByte('a')
			b.WriteByte('b')
		} else {
			a.WriteByte('b')
			b.WriteByte('a')
		}
	}
	return a.String(), b.String()
}

// sameEnds: texts that agree in length and at most places.
func sameEnds() [][2]string {
	var r [][2]string
	for _, n := range []int{1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 20_000} {
		l := strings.Repeat("q", n)
		r = append(r, [2]string{"a" + l, "b" + l}, [2]string{l + "a", l + "b"}, [2]string{l + "a" + l, l + "b" + l}, [2]string{l + "ab", l + "ba"}, [2]string{"ab" + l, "ba" + l}, [2]string{l + "ab" + l, l + "ba" + l})
	}
	for _, n := range []int{64, 1024, 2048} {
		a, b := thueMorse(n)
		r = append(r, [2]string{a, b})
	}
	return r
}

var collideOnce sync.Once
var collideNames [][2]string

// collidingNames: names for the grammar families.
func collidingNames() [][2]string {
	collideOnce.Do(func() {
		for _, d := range digesters() {
			collideNames = append(collideNames, colliding(d, "", "", "abcdefghijklmnopqrstuvwxyz", 1)...)
		}
		for _, n := range []int{64, 1024, 2048} {
			a, b := thueMorse(n)
			collideNames = append(collideNames, [2]string{a, b})
		}
	})
	return collideNames
}

// collideFamily: two texts, grammars or tables of one digest, in turn.
func collideFamily() Family {
	ds := digesters()
	reprs := []string{"printed", "%v", "%+v", "%#v"}
	nd, nr := uint64(len(ds)), uint64(len(reprs))
	ends := sameEnds()
	vowels := "aeiou"
	var c1, v1 Body
	for k := byte('a'); k <= 'z'; k++ {
		if strings.IndexByte(vowels, k) >= 0 {
			v1 = append(v1, alt(string(k)))
		} else {
			c1 = append(c1, alt(string(k)))
		}
	}
	g := mkGram(body(alt(1, 0), alt(2, 0), a0), c1, v1)
	t := analyse(g)
	p := parser.NewLL1Parser(rTable(t), namesOf(g))
	texts := func(c *Ctx, pairs [][2]string) {
		for _, pr := range pairs {
			for form := 0; form < 16; form++ { // which kind of source each has
				for k, w := range []string{pr[0], pr[1], pr[0]} {
					r := t.run(w, false)
					f := form & 3
					if k == 1 {
						f = form >> 2
					}
					var src any = w
					switch f {
					case 1:
						src = []byte(w)
					case 2:
						src = strings.NewReader(w)
					case 3:
						src = hideReader{strings.NewReader(w)}
					}
					got := callParse(p, src, parseFuel(g, r.Moves, len(w)))
					c.st.Traces++
					bad := got.bad()
					if bad == "" {
						if r.Tree == nil && got.err == nil {
							bad = "a rejected input is accepted"
						} else if r.Tree != nil && got.err != nil {
							bad = "a sentence is rejected: " + got.err.Error()
						} else if r.Tree != nil {
							bad = diffTree(r.Tree, got.node, "root")
						} else if e, b := fmt.Sprint(got.err), (w + "\x00")[r.ErrPos]; !strings.Contains(e, charCode(b)) {
							bad = "the report shows another byte than " + charCode(b) + ": " + e
						}
					}
					if bad != "" {
						c.violate(bad, "input", clip(w), "after", clip(pr[0]))
						return
					}
				}
			}
		}
	}
	return Family{Name: "collisions", Desc: fmt.Sprintf("pairs of different texts, conversion texts, grammars and tables (in %d representations) with equal values of %d common hashes and digests, and %d pairs of texts that agree in length and nearly everywhere: used in turn, each with its own result", nr, nd, len(ends)), N: nd*2 + nd*nr*3 + uint64(len(ends)), Chunk: 1, Run: func(c *Ctx, i uint64) {
		c.st.States++
		if i < uint64(len(ends)) {
			texts(c, ends[i:i+1])
			return
		}
		i -= uint64(len(ends))
		var kind, repr uint64
		d := ds[i%nd]
		i /= nd
		if i < 2 {
			kind = i
		} else {
			kind, repr = 2+(i-2)%3, (i-2)/3
		}
		const mark = "QQQQQQQQ"
		show := func(v any) string {
			switch reprs[repr] {
			case "printed":
				if g, ok := v.(bnf.Grammar); ok {
					return g.String()
				}
				return fmt.Sprintf("%q", v)
			}
			return fmt.Sprintf(reprs[repr], v)
		}
		gramWith := func(kind uint64, w string) *Gram {
			if kind == 2 {
				return mkGram(body(alt("X", 1, w), alt("W")), body(alt("Y", 0), a0)) // written once: the rest is the same
			}
			g := mkGram(body(alt("x", 1, "z"), alt("d")), body(alt("y", 0), a0))
			g.Names = []string{"S", w}
			return g
		}
		// words for which the values made with them have one digest
		pairsOf := func(make func(w string) any) [][2]string {
			x := strings.Split(show(make(mark)), mark)
			if len(x) < 2 {
				return nil
			}
			words := colliding(d, x[0], strings.Join(x[1:], mark), "abcdefghijklmnopqrstuvwxyz", 3)
			return words
		}
		switch kind {
		case 0:
			texts(c, colliding(d, "", "", "abcdefghijklmnopqrstuvwxyzABCD", 3))
		case 1:
			_, _, bind := tinyTree()
			node := func(t, a, b int, k ...cst.Node) cst.Node { return cst.NewNode(t, a, b, k) }
			root := node(0, 0, 8, node(bind.RuleType, 0, 8, node(bind.RuleHeadType, 0, 4), node(bind.RuleTailType, 4, 8, node(bind.ExpressionSequencesType, 4, 8, node(bind.SequencesSymbolType, 4, 8, node(bind.SymbolNonTerminalType, 4, 8))))))
			for _, pr := range colliding(d, "", "", "abcdefghijklmnopqrstuvwxyz", 3) {
				for _, w := range []string{pr[0], pr[1], pr[0]} {
					got, err := bind.ToAST(root, w)
					c.st.Traces++
					want := bnf.Grammar{Rules: []bnf.Rule{{Head: bnf.SymbolNonTerminal{Name: w[:4]}, Tail: bnf.Substitution{Sequences: []bnf.Sequence{{Symbols: []bnf.Symbol{bnf.SymbolNonTerminal{Name: w[4:]}}}}}}}}
					if err != nil || diffGrammar(want, *got) != "" {
						c.violate("the conversion of a text has another text's names", "text", w, "got", aOut(got, err), "pair", pr)
						return
					}
				}
			}
		case 2, 3:
			for _, ws := range pairsOf(func(w string) any { return toBNF(gramWith(kind, w)) }) {
				for _, w := range []string{ws[0], ws[1], ws[0]} {
					g := gramWith(kind, w)
					th := analyse(g)
					f := callFG(toBNF(g), 1<<40)
					c.st.Traces++
					bad := f.bad()
					if bad == "" && f.err != nil {
						bad = "refused: " + f.err.Error()
					}
					if bad == "" {
						bad = diffTable(th, *f.table)
					}
					if bad == "" && !namesEqual(namesOf(g), f.names) {
						bad = fmt.Sprintf("names %v", *f.names)
					}
					if bad != "" {
						c.violate("a table for one grammar is not its own: "+bad, "grammar", g, "pair", ws)
						return
					}
				}
			}
		case 4:
			mk := func(w string) any { return rTable(analyse(gramWith(2, w))) }
			for _, ws := range pairsOf(mk) {
				for _, w := range []string{ws[0], ws[1], ws[0]} {
					g := gramWith(2, w)
					p := parser.NewLL1Parser(rTable(analyse(g)), namesOf(g))
					for _, in := range []string{w, "X" + ws[0], "X" + ws[1], "X" + w + "~", "XYW" + w} {
						r := analyse(g).run(in, false)
						got := callParse(p, in, parseFuel(g, r.Moves, len(in)))
						c.st.Traces++
						bad := got.bad()
						if bad == "" && (r.Tree != nil) != (got.err == nil) {
							bad = fmt.Sprintf("the verdict on %q is %v", in, got.err)
						}
						if bad != "" {
							c.violate("a parser for one table uses another: "+bad, "grammar", g, "pair", ws)
							return
						}
					}
				}
			}
		}
	}}
}
