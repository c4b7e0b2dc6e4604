package main

// C16: what a call gives in a fresh process is what it gives after all others.

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"strings"
	"time"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

// probe is one call (or a small chain) with objects of its own.
type probe struct {
	name string
	run  func() string
}

// rejection kinds: the message of each shows the byte in another role
var rejectKinds = []struct {
	name string
	mk   func(b byte) (*Gram, string)
}{
	{"no entry at the byte", func(b byte) (*Gram, string) { return mkGram(body(alt("ab"), alt("cd"))), string([]byte{b}) }},
	{"no entry at the byte inside", func(b byte) (*Gram, string) {
		return mkGram(body(alt("a", 1)), body(alt("b"), alt("c"))), "a" + string([]byte{b})
	}},
	{"the byte for another byte", func(b byte) (*Gram, string) { return mkGram(body(alt("aq"))), "a" + string([]byte{b}) }},
	{"another byte for the byte", func(b byte) (*Gram, string) {
		return mkGram(body(alt("a" + string([]byte{b})))), "a" + string([]byte{b + 1})
	}},
	{"end of input for the byte", func(b byte) (*Gram, string) { return mkGram(body(alt("a" + string([]byte{b})))), "a" }},
	{"the byte for end of input", func(b byte) (*Gram, string) { return mkGram(body(alt("a"))), "a" + string([]byte{b}) }},
	{"the rule named by the byte", func(b byte) (*Gram, string) {
		g := mkGram(body(alt("a", 1)), body(alt("b"), alt("c")))
		g.Names = []string{"S", "s" + string([]byte{b})}
		return g, "ax"
	}},
	{"the rule numbered by the byte", func(b byte) (*Gram, string) {
		n := int(b) + 1
		bs := []Body{}
		for k := 0; k < n; k++ {
			bs = append(bs, body(alt(k+1)))
		}
		return mkGram(append(bs, body(alt("u")))...), "v"
	}},
}

func digest(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("%s #%d %x", cut(strings.ToValidUTF8(strings.ReplaceAll(s, "\n", "/"), "."), 160), len(s), h.Sum64())
}

func probes() []probe {
	var r []probe
	add := func(name string, f func() string) { r = append(r, probe{name, f}) }
	for _, k := range rejectKinds {
		k := k
		for b := 0; b < 256; b++ {
			b := byte(b)
			if k.name == "the rule numbered by the byte" && b%4 != 3 {
				continue
			}
			if k.name == "another byte for the byte" && b == 255 {
				continue
			}
			add(fmt.Sprintf("rejecting: %s, byte %d", k.name, b), func() string {
				g, w := k.mk(b)
				p := parser.NewLL1Parser(rTable(analyse(g)), namesOf(g))
				return wideParse(p, w) + wideParse(p, strings.NewReader(w)) + wideParse(p, []byte(w))
			})
		}
	}
	for b := 0; b < 256; b++ {
		b := byte(b)
		add(fmt.Sprintf("the line end at byte %d", b), func() string {
			t := rtable{0: {'a': {{t: "a"}, {nt: true, n: -2}}}}.real()
			return wideParse(parser.NewLL1Parser(t, nil), "a"+string([]byte{b})) + wideParse(parser.NewLL1Parser(t, nil), "a"+string([]byte{b})+"\n")
		})
		add(fmt.Sprintf("printing and reading back with byte %d", b), func() string {
			s := string([]byte{b})
			g := bnf.Grammar{Rules: []bnf.Rule{{Head: bnf.SymbolNonTerminal{Name: "S" + s}, Tail: bnf.Substitution{Sequences: []bnf.Sequence{{Symbols: []bnf.Symbol{tm(s), tm(s + "x" + s), nt("S" + s)}}, {Symbols: []bnf.Symbol{bnf.SymbolNothing{}}}}}}}}
			return g.String() + wideGen(g)
		})
		add(fmt.Sprintf("refusing a name with byte %d", b), func() string {
			s := string([]byte{b})
			g := bnf.Grammar{Rules: []bnf.Rule{{Head: bnf.SymbolNonTerminal{Name: "S"}, Tail: bnf.Substitution{Sequences: []bnf.Sequence{{Symbols: []bnf.Symbol{tm("a"), nt("S" + s)}}}}}}}
			return wideGen(g)
		})
		add(fmt.Sprintf("refusing two alternatives at byte %d", b), func() string {
			s := string([]byte{b})
			return wideGen(toBNF(mkGram(body(alt(s+"x"), alt("q"), alt(s, 0)))))
		})
		add(fmt.Sprintf("converting an escape of byte %d", b), func() string {
			root, text, bind := tinyTree()
			bind.EscapeMapping = map[string]string{"n": string([]byte{b, b})}
			return aOut(bind.ToAST(root, text))
		})
		add(fmt.Sprintf("a wrong escape of byte %d", b), func() string {
			root, text, bind := tinyTree()
			return aOut(bind.ToAST(root, strings.Replace(text, "n", string([]byte{b}), 1)))
		})
	}
	for i := 0; i < gramUses(); i++ {
		i := i
		for t := 0; t < 2; t++ {
			t := t
			add(fmt.Sprintf("%s (%d)", wideName(i), t), func() string {
				mk := wideScenario(i, 300)
				if mk == nil {
					return "does not apply"
				}
				return mk()[t]()
			})
		}
	}
	for i := range foreigners() {
		i := i
		add(fmt.Sprintf("refusing foreign symbol %d", i), func() string {
			return wideGen(bnf.Grammar{Rules: []bnf.Rule{{Head: bnf.SymbolNonTerminal{Name: "S"}, Tail: bnf.Substitution{Sequences: []bnf.Sequence{{Symbols: []bnf.Symbol{tm("a"), foreigners()[i]}}}}}}})
		})
	}
	for i, n := range namePool {
		n := n
		add(fmt.Sprintf("names %d", i), func() string {
			g := mkGram(body(alt("a", 1)), body(alt("b"), alt("c", 1)))
			g.Names = []string{"start " + n, n}
			b := toBNF(g)
			p := parser.NewLL1Parser(rTable(analyse(g)), namesOf(g))
			return wideGen(b) + wideParse(p, "acb") + wideParse(p, "acx") + wideParse(p, "") + b.String()
		})
	}
	for i, text := range c12Texts {
		text := text
		add(fmt.Sprintf("reading text %d", i), func() string {
			n, _, err := parser.NewLL1Parser(rTable(analyse(bnfGram())), namesOf(bnfGram())).Parse(text)
			if err != nil {
				return err.Error()
			}
			v := &digestVisitor{}
			cst.Walk(v, n)
			b := fromcst.SelfCSTtoASTBindings()
			return aOut(b.ToAST(n, text)) + fmt.Sprint(v.n, v.h)
		})
	}
	add("the self grammar", func() string { return deepGrammar(bnf.SelfGrammar()) + deep(fromcst.SelfCSTtoASTBindings()) })
	return r
}

func (p probe) digest() (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "panic " + digest(fmt.Sprint(r))
		}
	}()
	return digest(p.run())
}

// probeOrders: after which others a probe runs.
var probeOrders = []struct {
	name string
	at   func(k, n int) int
}{
	{"all probes in order", func(k, n int) int { return k }},
	{"all probes in reverse", func(k, n int) int { return n - 1 - k }},
	{"every 257th, wrapping around", func(k, n int) int {
		st := 257
		for gcd(st, n) != 1 {
			st += 2
		}
		return k * st % n
	}},
	{"from both ends", func(k, n int) int {
		if k%2 == 0 {
			return k / 2
		}
		return n - 1 - k/2
	}},
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// probeMain: "one I" prints one probe's digest, "order K" all of them twice.
func probeMain(args []string) {
	runtime.GOMAXPROCS(2)
	var x int
	fmt.Sscan(args[1], &x)
	ps := probes()
	if args[0] == "one" {
		fmt.Println(ps[x].digest())
		os.Exit(0)
	}
	n := len(ps)
	out := make([]string, n)
	for lap := 0; lap < 2; lap++ {
		for k := 0; k < n; k++ {
			i := probeOrders[x].at(k, n)
			s := ps[i].digest()
			if lap == 0 {
				out[i] = s
			} else if s != out[i] {
				fmt.Printf("probe %d first gave %s and again %s\n", i, out[i], s)
				os.Exit(1)
			}
		}
	}
	fmt.Println(strings.Join(out, "\n"))
	os.Exit(0)
}

func freshFamily() Family {
	ps := probes()
	var orders [][]string
	return Family{Name: "fresh", Desc: fmt.Sprintf("%d calls (rejections of 8 kinds at every byte value, refusals, printing, escapes, odd names, uses of grammars of up to 130 rules and 4200-byte terminals), each in a fresh process, against the same calls after all others, twice over in %d orders", len(ps), len(probeOrders)), N: uint64(len(ps)), Chunk: 32, Run: func(c *Ctx, i uint64) {
		if orders == nil {
			for k := range probeOrders {
				out, code := runChild(os.Args[0], nil, 300*time.Second, "probe", "order", fmt.Sprint(k))
				lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
				if code != 0 || len(lines) != len(ps) {
					c.violate("a call repeated after others gives another result or fails", "order", probeOrders[k].name, "report", cut(out, 2000), "exit", code, "lines", len(lines))
					return
				}
				orders = append(orders, lines)
				c.st.Traces += int64(2 * len(ps))
			}
		}
		out, code := runChild(os.Args[0], nil, 60*time.Second, "probe", "one", fmt.Sprint(i))
		out = strings.TrimSuffix(out, "\n")
		c.st.States += int64(1 + len(orders))
		c.st.Transitions += int64(1 + 2*len(orders))
		c.st.Traces++
		if code != 0 {
			c.violate("a call fails in a fresh process", "call", ps[i].name, "report", cut(out, 2000), "exit", code)
			return
		}
		for k, o := range orders {
			if o[i] != out {
				c.violate("a call gives another result after other calls than in a fresh process", "call", ps[i].name, "before it", probeOrders[k].name, "fresh", out, "after others", o[i])
				return
			}
		}
		c.out("same result")
		c.sample(func() string { return ps[i].name + " -> " + out })
	}}
}

// probeGroups: the probes by kind, for concurrent use.
func probeGroups() map[string][]probe {
	g := map[string][]probe{}
	for _, p := range probes() {
		if i := strings.Index(p.name, "byte"); i > 0 {
			n := strings.TrimRight(p.name, "0123456789")
			g[n] = append(g[n], p)
		}
	}
	return g
}

var probeNames []string

func probeGroupNames() []string {
	if probeNames != nil {
		return probeNames
	}
	seen := map[string]bool{}
	for _, p := range probes() {
		if i := strings.Index(p.name, "byte"); i > 0 {
			n := strings.TrimRight(p.name, "0123456789")
			if !seen[n] {
				seen[n] = true
				probeNames = append(probeNames, n)
			}
		}
	}
	return probeNames
}
