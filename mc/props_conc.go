package main

// C17: concurrent use.

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"time"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	bs "github.com/TooManySugar/ll1parser/pkg/bnf/tablegen/byteset"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

type scenario struct {
	name string
	// mk builds fresh shared objects and the threads using them
	mk    func() []func() string
	heavy bool // not with deeper bounds
}

func pOut(n cst.Node, names *map[int]string, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	if n == nil || names == nil {
		return "nil result"
	}
	return treeString(n) + " " + fmt.Sprint(*names)
}

func gOut(t *Table, n *map[int]string, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return deepTable(*t) + " " + fmt.Sprint(*n)
}

func aOut(g *bnf.Grammar, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return deepGrammar(*g)
}

type orderVisitor struct{ log *[]int }

func (o orderVisitor) Visit(n cst.Node) cst.Visitor {
	*o.log = append(*o.log, n.Type(), n.Pos(), n.End())
	return o
}

// a tiny notation: rule 1 = [head 2, tail 3[seq 4 [sym 5[term 6[lit]], sym 5[name 2]]]], escapes 7[8]
func tinyTree() (cst.Node, string, fromcst.BNFCSTtoASTBindings) {
	text := "Sa\\nB"
	lit := func(a, b int) cst.Node { return cst.NewNode(-1, a, b, nil) }
	n := func(t, a, b int, k ...cst.Node) cst.Node { return cst.NewNode(t, a, b, k) }
	root := n(0, 0, 5,
		n(1, 0, 5, n(2, 0, 1, lit(0, 1)),
			n(3, 1, 5, n(4, 1, 5,
				n(5, 1, 4, n(6, 1, 4, lit(1, 2), n(7, 2, 4, lit(2, 3), n(8, 3, 4, lit(3, 4))))),
				n(30, 4, 4, n(5, 4, 4)),
				n(5, 4, 5, n(2, 4, 5, lit(4, 5)))))))
	return root, text, fromcst.BNFCSTtoASTBindings{IgnoreNodeTypes: []int{30, 12, 20, 11, 9}, RuleType: 1, RuleHeadType: 2, RuleTailType: 3, ExpressionSequencesType: 4,
		SequencesSymbolType: 5, SymbolTerminalTypes: []int{6}, SymbolNonTerminalType: 2, EscapeSequenceType: 7, EscapeCharacterType: 8, EscapeMapping: map[string]string{"n": "\n"}}
}

func scenarios() []scenario {
	gA := mkGram(body(alt("a", 1), alt("d")), body(alt("b"), a0))
	tA := rTable(analyse(gA))
	gN := mkGram(body(alt(1, "x")), body(alt("y", 1), a0))
	fresh := func() parser.LL1Parser { return parser.NewLL1Parser(rTable(analyse(gA)), namesOf(gA)) }
	parse := func(p parser.LL1Parser, src any) func() string {
		return func() string { return pOut(p.Parse(src)) }
	}
	_ = tA
	bt := analyse(bnfGram())
	selfTbl := rTable(bt)
	tinyBNF := "<S>::='a'"
	two := func(f func() (func() string, func() string)) func() []func() string {
		return func() []func() string { a, b := f(); return []func() string{a, b} }
	}
	return []scenario{
		{"one parser, two accepted inputs", two(func() (func() string, func() string) { p := fresh(); return parse(p, "ab"), parse(p, "d") }), false},
		{"one parser, an accepted and a rejected input", two(func() (func() string, func() string) { p := fresh(); return parse(p, "ab"), parse(p, "ac") }), false},
		{"one parser, two rejected inputs", two(func() (func() string, func() string) { p := fresh(); return parse(p, "q"), parse(p, "abz") }), false},
		{"one parser, one byte slice", two(func() (func() string, func() string) {
			p := fresh()
			b := []byte("ab")
			return parse(p, b), parse(p, b)
		}), false},
		{"one parser, two readers", two(func() (func() string, func() string) {
			p := fresh()
			return func() string { return pOut(p.Parse(strings.NewReader("ab"))) }, func() string { return pOut(p.Parse(bytes.NewReader([]byte("a")))) }
		}), false},
		{"two parsers sharing table and names", two(func() (func() string, func() string) {
			t, n := rTable(analyse(gA)), namesOf(gA)
			return parse(parser.NewLL1Parser(t, n), "ab"), parse(parser.NewLL1Parser(t, n), "d")
		}), false},
		{"creating a parser while another parses with the same table", two(func() (func() string, func() string) {
			t, n := rTable(analyse(gA)), namesOf(gA)
			p := parser.NewLL1Parser(t, n)
			return func() string { return pOut(parser.NewLL1Parser(t, n).Parse("d")) }, parse(p, "a")
		}), false},
		{"parse twice against parse once, different grammars", two(func() (func() string, func() string) {
			p := fresh()
			q := parser.NewLL1Parser(rTable(analyse(gN)), namesOf(gN))
			return func() string { return pOut(p.Parse("a")) + pOut(p.Parse("d")) }, parse(q, "yx")
		}), false},
		{"reading and changing returned names while another parse runs", two(func() (func() string, func() string) {
			p := fresh()
			return func() string {
				_, n, err := p.Parse("d")
				if err != nil {
					return err.Error()
				}
				(*n)[0] = "mine"
				(*n)[9] = "more"
				s := fmt.Sprint(*n)
				return s
			}, parse(p, "a")
		}), false},
		{"generating twice from one grammar", two(func() (func() string, func() string) {
			g := toBNF(mkGram(body(alt(1, "a")), body(alt("b"), a0)))
			f := func() string { return gOut(tablegen.FromGrammar(g)) }
			return f, f
		}), true},
		{"generating and being refused", two(func() (func() string, func() string) {
			g := toBNF(mkGram(body(alt("a"), a0)))
			h := toBNF(mkGram(body(alt("a"), alt("a", 0))))
			return func() string { return gOut(tablegen.FromGrammar(g)) }, func() string { return gOut(tablegen.FromGrammar(h)) }
		}), true},
		{"generating while parsing", two(func() (func() string, func() string) {
			g := toBNF(gN)
			p := fresh()
			return func() string { return gOut(tablegen.FromGrammar(g)) }, parse(p, "ab")
		}), true},
		{"generating, building and parsing on both sides", two(func() (func() string, func() string) {
			g := toBNF(mkGram(body(alt("a"))))
			f := func() string {
				t, n, err := tablegen.FromGrammar(g)
				if err != nil {
					return err.Error()
				}
				return pOut(parser.NewLL1Parser(*t, *n).Parse("a"))
			}
			return f, f
		}), true},
		{"converting one tree twice with shared bindings", two(func() (func() string, func() string) {
			root, text, b := tinyTree()
			f := func() string { return aOut(b.ToAST(root, text)) }
			return f, f
		}), true},
		{"converting with shared bindings, once failing", two(func() (func() string, func() string) {
			root, text, b := tinyTree()
			bad := b
			bad.EscapeMapping = map[string]string{}
			return func() string { return aOut(b.ToAST(root, text)) }, func() string { return aOut(bad.ToAST(root, text)) }
		}), true},
		{"walking one tree twice", two(func() (func() string, func() string) {
			root, _, _ := tinyTree()
			f := func() string {
				var l []int
				cst.Walk(orderVisitor{&l}, root)
				return fmt.Sprint(l)
			}
			return f, f
		}), false},
		{"printing one grammar while generating from it", two(func() (func() string, func() string) {
			g := toBNF(mkGram(body(alt("a'\"\n"), a0)))
			return func() string { return g.String() }, func() string { return gOut(tablegen.FromGrammar(g)) }
		}), true},
		{"printing one grammar twice", two(func() (func() string, func() string) {
			g := toBNF(mkGram(body(alt("a'\"\n", 0), alt("\"\\")), body(a0)))
			f := func() string { return g.String() }
			return f, f
		}), false},
		{"the self grammar and its bindings on both sides", two(func() (func() string, func() string) {
			f := func() string {
				b := fromcst.SelfCSTtoASTBindings()
				return deepGrammar(bnf.SelfGrammar()) + deep(b)
			}
			return f, f
		}), false},
		{"reading one BNF text twice with one parser", two(func() (func() string, func() string) {
			p := parser.NewLL1Parser(selfTbl, namesOf(bnfGram()))
			return parse(p, tinyBNF), parse(p, "<T>")
		}), true},
		{"byte sets on both sides", two(func() (func() string, func() string) {
			shared := bs.New(1, 64, 200)
			f := func(x byte) func() string {
				return func() string {
					s := shared
					s.Add(x)
					u := s.Union(bs.New(3))
					return u.String() + fmt.Sprint(u.Bytes(), u.Len(), s.Contains(64), shared.IsSubSet(u))
				}
			}
			return f(7), f(255)
		}), false},
	}
}

type calib struct {
	want []string
	len  []int64
}

func calibrate(sc scenario) (*calib, string) {
	c := &calib{}
	n := len(sc.mk())
	for i := 0; i < n; i++ {
		fns := sc.mk()
		r := runSched(fns[i:i+1], nil)
		if r.stuck || r.deadlock || r.hang || r.thrs[0].pan != nil {
			return nil, fmt.Sprintf("thread %d alone: stuck=%v deadlock=%v hang=%v panic=%v", i, r.stuck, r.deadlock, r.hang, r.thrs[0].pan)
		}
		c.want = append(c.want, r.thrs[0].res)
		c.len = append(c.len, r.thrs[0].steps)
	}
	return c, ""
}

func init() {
	register(&Property{ID: "C17", Title: "concurrency",
		Rule: "states are scheduling points (before every library statement) of 2 or 3 threads using shared objects; transitions are scheduling choices; all schedules within the stated preemption bound are executed on the real code under a controlled scheduler and each call's result is compared with its result alone. Conflicting unsynchronised accesses are decided by a happens-before race detector over serial orders executed without any ordering between the threads, and over free-running repetitions",
		Assume: []string{"sequentially consistent statement-level interleavings; statements of the standard library are atomic", "library locks are replaced by cooperative ones with the same meaning under the controlled scheduler; the race detector pass uses the unmodified library", "package-level lazy initialisation is in its initial state only in the cold family (a fresh process per schedule)"},
		Families: func(tier string) []Family {
			runtime.GOMAXPROCS(1)
			var fams []Family
			scs := scenarios()
			thorough := tier == "thorough"
			if _, err := os.Stat(os.Getenv("MC_OV") + "/uncontrolled"); err == nil && os.Getenv("MC_OV") != "" {
				return uncontrolled(scs, thorough)
			}
			maxK2 := int64(1500)
			if thorough {
				maxK2 = 12000
			}
			cal := make([]*calib, len(scs))
			for si := range scs {
				si, sc := si, scs[si]
				cb, msg := calibrate(sc)
				cal[si] = cb
				if msg != "" {
					fams = append(fams, Family{Name: "alone: " + sc.name, N: 1, Run: func(c *Ctx, i uint64) {
						c.violate("a call does not work even alone: "+msg, "scenario", sc.name)
					}})
					continue
				}
				execute := func(c *Ctx, plan []seg) bool {
					if notControllable {
						c.res.Capped = true
						return false
					}
					r := runSched(sc.mk(), plan)
					c.st.Traces++
					c.st.States += int64(r.switches)
					c.st.Transitions += int64(r.switches)
					if r.stuck {
						c.count("schedules_not_controllable", 1)
						c.res.Capped = true
						notControllable = true
						return false
					}
					if b := r.bad(cb.want); b != "" {
						c.violate("a call gives another result under concurrency: "+b, "scenario", sc.name, "schedule (thread, statements)", plan)
						return false
					}
					return true
				}
				ca, cbl := cb.len[0], cb.len[1]
				for order := 0; order < 2; order++ {
					x, y, lx, ly := 0, 1, ca, cbl
					if order == 1 {
						x, y, lx, ly = 1, 0, cbl, ca
					}
					stride := int64(1)
					for ly/stride > maxK2 {
						stride++
					}
					desc := fmt.Sprintf("%s: thread %d preempted before each of its %d statements, thread %d run to the end or preempted before every %s of its %d statements (2 preemptions)", sc.name, x, lx, y, map[bool]string{true: "one", false: fmt.Sprintf("%dth", stride)}[stride == 1], ly)
					fams = append(fams, Family{Name: fmt.Sprintf("s%d.%d", si, order), Desc: desc, N: uint64(lx) + 1, Run: func(c *Ctx, i uint64) {
						if !execute(c, []seg{{x, int64(i) + 1}, {y, 0}}) {
							return
						}
						for k2 := int64(1); k2 <= ly; k2 += stride {
							if !execute(c, []seg{{x, int64(i) + 1}, {y, k2}, {x, 0}}) {
								return
							}
						}
						c.out("same results")
						c.sample(func() string { return desc + " -> " + clip(cb.want[0]) })
					}})
					if thorough && !sc.heavy {
						s3 := int64(1)
						for (lx/s3)*(ly/s3)*(lx/s3) > 4_000_000 {
							s3++
						}
						fams = append(fams, Family{Name: fmt.Sprintf("s%d.%d.3", si, order), Desc: fmt.Sprintf("%s: three preemptions, every %d statements", sc.name, s3), N: uint64(lx/s3) + 1, Run: func(c *Ctx, i uint64) {
							for k2 := int64(1); k2 <= ly; k2 += s3 {
								for k3 := int64(1); k3 <= lx; k3 += s3 {
									if !execute(c, []seg{{x, int64(i)*s3 + 1}, {y, k2}, {x, k3}, {y, 0}}) {
										return
									}
								}
							}
						}})
					}
				}
			}
			// three threads
			mk3 := func() []func() string {
				gA := mkGram(body(alt("a", 1), alt("d")), body(alt("b"), a0))
				p := parser.NewLL1Parser(rTable(analyse(gA)), namesOf(gA))
				f := func(w string) func() string { return func() string { return pOut(p.Parse(w)) } }
				return []func() string{f("d"), f("ax"), f("ab")}
			}
			c3, msg := calibrate(scenario{"three", mk3, false})
			if msg == "" {
				st3 := int64(4)
				if thorough {
					st3 = 1
				}
				perms := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
				n := c3.len[0]
				for _, l := range c3.len {
					n = max(n, l)
				}
				fams = append(fams, Family{Name: "three", Desc: fmt.Sprintf("3 parses on one parser, every order, two preemptions every %d statements", st3), N: uint64(6 * (n/st3 + 1)), Run: func(c *Ctx, i uint64) {
					pm := perms[i%6]
					k1 := int64(i/6)*st3 + 1
					for k2 := int64(1); k2 <= n; k2 += st3 {
						for f := 0; f < 2; f++ {
							plan := []seg{{pm[0], k1}, {pm[1], k2}, {pm[2], 0}, {pm[f], 0}, {pm[1-f], 0}}
							r := runSched(mk3(), plan)
							c.st.Traces++
							c.st.States += int64(r.switches)
							c.st.Transitions += int64(r.switches)
							if r.stuck {
								c.res.Capped = true
								return
							}
							if b := r.bad(c3.want); b != "" {
								c.violate("a call gives another result under concurrency: "+b, "scenario", "three parses", "schedule (thread, statements)", plan)
								return
							}
						}
					}
				}})
			}
			// cold start: a fresh process per schedule
			coldStride := int64(4)
			if thorough {
				coldStride = 1
			}
			for si := range scs {
				if cal[si] == nil {
					continue
				}
				si := si
				l := cal[si].len[0]
				stride := coldStride
				for l/stride > 60 && !thorough {
					stride++
				}
				fams = append(fams, Family{Name: fmt.Sprintf("cold%d", si), Desc: fmt.Sprintf("%s: in a fresh process, thread 0 preempted every %d statements while thread 1 runs to its end", scs[si].name, stride), N: uint64(l/stride) + 1, Run: func(c *Ctx, i uint64) {
					k := int64(i)*stride + 1
					out, code := runChild(os.Args[0], nil, 60*time.Second, "cold", fmt.Sprint(si), fmt.Sprint(k))
					c.st.States += 2
					c.st.Transitions += 3
					c.st.Traces++
					switch code {
					case 0:
						// compare with the results after warm-up
						if want := strings.Join(cal[si].want, "\x01"); out != want {
							c.violate("in a fresh process a call gives another result under concurrency", "scenario", scs[si].name, "thread 0 preempted after", k, "got", out, "want", want)
						}
					case 9:
						c.count("schedules_not_controllable", 1)
						c.res.Capped = true
					default:
						c.violate("in a fresh process concurrent use fails: "+clip(out), "scenario", scs[si].name, "thread 0 preempted after", k)
					}
				}})
			}
			if rb := os.Getenv("MC_RACE"); rb != "" {
				fams = append(fams, raceWide(rb, thorough), raceSmall(rb, scs, thorough), waitFamily(rb, thorough))
			}
			return append(fams, schedWide(thorough)...)
		}})
}

// notControllable: a thread blocked outside the scheduler's control; each
// further schedule would take its time limit.
var notControllable bool

// uncontrolled: the library starts goroutines that wait for each other by
// channels, which the scheduler does not follow.  What is left is free-running
// repetition and the race detector; the result is reported as capped.
func uncontrolled(scs []scenario, thorough bool) []Family {
	reps := 60
	if thorough {
		reps = 2000
	}
	fams := []Family{{Name: "free", Desc: fmt.Sprintf("the library starts goroutines of its own that use channels: every scenario run freely %d times (not exhaustive)", reps), N: uint64(len(scs)), Run: func(c *Ctx, i uint64) {
		runtime.GOMAXPROCS(4)
		c.res.Capped = true
		c.count("scenarios_not_controllable", 1)
		var want []string
		for _, f := range scs[i].mk() {
			want = append(want, f())
		}
		for r := 0; r < reps; r++ {
			fns := scs[i].mk()
			got := make([]string, len(fns))
			pan := make([]any, len(fns))
			done := make(chan int, len(fns))
			for k, f := range fns {
				k, f := k, f
				go func() {
					defer func() { pan[k] = recover(); done <- k }()
					got[k] = f()
				}()
			}
			for range fns {
				select {
				case <-done:
				case <-time.After(60 * time.Second):
					c.violate("concurrent calls do not finish", "scenario", scs[i].name)
					return
				}
			}
			c.st.States += 2
			c.st.Transitions += 2
			c.st.Traces++
			for k := range got {
				if pan[k] != nil || got[k] != want[k] {
					c.violate(fmt.Sprintf("a call gives another result under concurrency: %q instead of %q (panic %v)", got[k], want[k], pan[k]), "scenario", scs[i].name)
					return
				}
			}
		}
	}}}
	if rb := os.Getenv("MC_RACE"); rb != "" {
		fams = append(fams, raceSmall(rb, scs, thorough), raceWide(rb, thorough), waitFamily(rb, thorough))
	}
	return fams
}

func raceSmall(rb string, scs []scenario, thorough bool) Family {
	reps := 30
	if thorough {
		reps = 400
	}
	return Family{Name: "races", Desc: "every scenario under the race detector: both serial orders with no ordering between the threads, thread-level repetitions in both orders, and free-running repetitions", N: uint64(len(scs)), Run: func(c *Ctx, i uint64) {
		for mode := 0; mode < 3; mode++ {
			out, code := runChild(rb, []string{"GORACE=halt_on_error=1 exitcode=66 history_size=7 atexit_sleep_ms=0", "GOMAXPROCS=4"}, 120*time.Second, "race", fmt.Sprint(i), fmt.Sprint(mode), fmt.Sprint(reps))
			c.st.States++
			c.st.Transitions += 2
			c.st.Traces += int64(reps)
			switch code {
			case 0:
			case 66:
				c.violate("two calls make conflicting unsynchronised accesses", "scenario", scs[i].name, "mode", []string{"serial, thread 0 first", "serial, thread 1 first", "free-running"}[mode], "report", cut(out, 2500))
				return
			default:
				c.violate(fmt.Sprintf("concurrent use fails (exit %d)", code), "scenario", scs[i].name, "mode", mode, "output", cut(out, 2500))
				return
			}
		}
		c.out("no race")
	}}
}

const wideBase = 1000

// raceWide: larger objects under the race detector, a fresh process each.
func raceWide(bin string, thorough bool) Family {
	reps := 2
	if thorough {
		reps = 12
	}
	return Family{Name: "races wide", Desc: fmt.Sprintf("%d uses (%d kinds of use of %d grammars up to 130 rules, 4200-byte terminals, inputs over 6000 bytes; %d kinds of rejection, printing or conversion at all 256 byte values) by two threads under the race detector, both unordered serial orders and free-running", wideCount(), wideKinds, gramUses()/wideKinds, wideCount()-gramUses()), N: uint64(wideCount()), Run: func(c *Ctx, i uint64) {
		for mode := 0; mode < 3; mode++ {
			out, code := runChild(bin, []string{"GORACE=halt_on_error=1 exitcode=66 history_size=7 atexit_sleep_ms=0", "GOMAXPROCS=4"}, 300*time.Second, "race", fmt.Sprint(int(i)+wideBase), fmt.Sprint(mode), fmt.Sprint(reps))
			c.st.States++
			c.st.Transitions += 2
			c.st.Traces += int64(reps)
			if code == 0 {
				continue
			}
			what := fmt.Sprintf("concurrent use fails (exit %d)", code)
			if code == 66 {
				what = "two calls make conflicting unsynchronised accesses"
			}
			c.violate(what, "scenario", wideName(int(i)), "mode", []string{"serial, thread 0 first", "serial, thread 1 first", "free-running"}[mode], "report", cut(out, 2500))
			return
		}
		c.out("no race")
	}}
}

// schedWide: larger objects under the controlled scheduler, preempted at
// evenly spaced points.
func schedWide(thorough bool) []Family {
	points := int64(6)
	if thorough {
		points = 60
	}
	return []Family{{Name: "wide", Desc: fmt.Sprintf("the same uses under the controlled scheduler: each thread preempted at %d evenly spaced statements while the other runs to its end", points), N: uint64(wideCount()), Run: func(c *Ctx, i uint64) {
		mk := wideScenario(int(i), 1200)
		if mk == nil {
			c.out("does not apply")
			return
		}
		name := wideName(int(i))
		defer func(f int64) { runFuel = f }(runFuel)
		runFuel = 1_000_000_000
		cb, msg := calibrate(scenario{name, mk, true})
		if msg != "" {
			c.violate("a call does not work even alone: "+msg, "scenario", name)
			return
		}
		for order := 0; order < 2; order++ {
			for k := int64(0); k < points; k++ {
				// odd multiples of half a step, and the very beginning
				at := cb.len[order] * (2*k + 1) / (2 * points)
				if k == 0 {
					at = 1
				}
				plan := []seg{{order, at + 1}, {1 - order, 0}, {order, 0}}
				r := runSched(mk(), plan)
				c.st.Traces++
				c.st.States += int64(r.switches)
				c.st.Transitions += int64(r.switches)
				if r.stuck {
					c.count("schedules_not_controllable", 1)
					c.res.Capped = true
					return
				}
				if b := r.bad(cb.want); b != "" {
					c.violate("a call gives another result under concurrency: "+cut(b, 1500), "scenario", name, "schedule (thread, statements)", plan)
					return
				}
			}
		}
		c.out("same results")
	}}}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func runChild(bin string, env []string, limit time.Duration, args ...string) (string, int) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Env = append(os.Environ(), env...)
	b, err := cmd.CombinedOutput()
	if err == nil {
		return string(b), 0
	}
	if ctx.Err() != nil {
		return "no result within " + limit.String() + " (deadlock?)\n" + string(b), 3
	}
	if e, ok := err.(*exec.ExitError); ok {
		return string(b), e.ExitCode()
	}
	return err.Error(), 4
}

// coldMain: one schedule in this fresh process.
func coldMain(si int, k int64) {
	runtime.GOMAXPROCS(1)
	sc := scenarios()[si]
	r := runSched(sc.mk(), []seg{{0, k}, {1, 0}, {0, 0}})
	if r.stuck {
		os.Exit(9)
	}
	if r.deadlock || r.hang {
		fmt.Printf("deadlock=%v hang=%v", r.deadlock, r.hang)
		os.Exit(1)
	}
	var out []string
	for i, t := range r.thrs {
		if t.pan != nil {
			fmt.Printf("thread %d panicked: %v\n%s", i, t.pan, t.stack)
			os.Exit(1)
		}
		if i < len(sc.mk()) {
			out = append(out, t.res)
		}
	}
	fmt.Print(strings.Join(out, "\x01"))
	os.Exit(0)
}
