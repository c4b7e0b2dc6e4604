package main

// C17: calls suspended inside their callbacks (a reader being read, a node
// asked for its children, a visitor visiting) while other calls run.

import (
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

// session: one library call that gives way inside its callbacks.
type session struct {
	name string
	run  func(yield func()) string
}

// yieldReader delivers one byte per read.
type yieldReader struct {
	text  string
	fail  error
	yield func()
}

func (r *yieldReader) Read(p []byte) (int, error) {
	r.yield()
	if r.text == "" {
		if r.fail != nil {
			return 0, r.fail
		}
		return 0, io.EOF
	}
	n := copy(p[:min(1, len(p))], r.text)
	r.text = r.text[n:]
	return n, nil
}

// yieldNode gives way whenever its children are asked for.
type yieldNode struct {
	cst.Node
	kids  []cst.Node
	yield func()
}

func (n *yieldNode) Childs() []cst.Node { n.yield(); return n.kids }

func yielding(n cst.Node, yield func()) cst.Node {
	var k []cst.Node
	for _, x := range n.Childs() {
		k = append(k, yielding(x, yield))
	}
	return &yieldNode{n, k, yield}
}

type yieldVisitor struct {
	yield func()
	log   *[]int
}

func (v yieldVisitor) Visit(n cst.Node) cst.Visitor {
	v.yield()
	*v.log = append(*v.log, n.Type())
	if n.Type() == 3 {
		return nil
	}
	return v
}

// waitWorld: shared objects and the calls that use them.
func waitWorld() (gated []session, plain []session) {
	gA := mkGram(body(alt("a", 1), alt("d")), body(alt("b"), a0))
	p := parser.NewLL1Parser(rTable(analyse(gA)), namesOf(gA))
	root, text, bind := tinyTree()
	parse := func(name, w string, fail error) session {
		return session{name, func(y func()) string { return pOut(p.Parse(&yieldReader{w, fail, y})) }}
	}
	gated = []session{
		parse("parse ab", "ab", nil),
		parse("parse d", "d", nil),
		parse("parse ax", "ax", nil),
		parse("parse from a failing reader", "a", errBroken),
		{"convert", func(y func()) string { return aOut(bind.ToAST(yielding(root, y), text)) }},
		{"convert with an unknown escape", func(y func()) string { return aOut(bind.ToAST(yielding(root, y), strings.Replace(text, "n", "q", 1))) }},
		{"walk", func(y func()) string {
			var l []int
			cst.Walk(yieldVisitor{y, &l}, root)
			return fmt.Sprint(l)
		}},
	}
	bg, bad := toBNF(gA), toBNF(mkGram(body(alt("a"), alt("a"))))
	plain = []session{
		{"parse a string", func(func()) string { return pOut(p.Parse("ab")) }},
		{"reject a string", func(func()) string { return pOut(p.Parse("ax")) }},
		{"build a parser", func(func()) string {
			q := parser.NewLL1Parser(rTable(analyse(gA)), namesOf(gA))
			return pOut(q.Parse("d"))
		}},
		{"build a table", func(func()) string { return wideGen(bg) }},
		{"refuse a grammar", func(func()) string { return wideGen(bad) }},
		{"self grammar", func(func()) string { return deepGrammar(bnf.SelfGrammar()) }},
		{"bindings", func(func()) string { return fmt.Sprint(fromcst.SelfCSTtoASTBindings()) }},
		{"print", func(func()) string { return bg.String() }},
		{"convert", func(func()) string { return aOut(bind.ToAST(root, text)) }},
		{"walk", func(func()) string {
			var l []int
			cst.Walk(yieldVisitor{func() {}, &l}, root)
			return fmt.Sprint(l)
		}},
	}
	return
}

const waitLimit = 20 * time.Second

// waitItems: what waitsMain does under each number.
func waitGates() []int {
	ns := []int{}
	for n := 2; n <= 40; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500)
	return append(ns, dictSizes(40, 1000)...)
}

type waitItem struct {
	kind    int // 0 interleave, 1 nested, 2 gates
	a, b, c int
}

func waitItems() []waitItem {
	g, p := waitWorld()
	var r []waitItem
	for a := range g {
		for b := a; b < len(g); b++ {
			r = append(r, waitItem{0, a, b, -1})
		}
	}
	for a := 0; a < 4; a++ {
		for b := a; b < 4; b++ {
			for c := b; c < 4; c++ {
				r = append(r, waitItem{0, a, b, c})
			}
		}
	}
	for a := range g {
		for b := range g {
			r = append(r, waitItem{1, a, b, 0})
		}
		for b := range p {
			r = append(r, waitItem{1, a, b, 1})
		}
	}
	for k := range waitGates() {
		r = append(r, waitItem{2, k, 0, 0})
	}
	return r
}

func (it waitItem) String() string {
	g, p := waitWorld()
	switch it.kind {
	case 0:
		s := g[it.a].name + " and " + g[it.b].name
		if it.c >= 0 {
			s += " and " + g[it.c].name
		}
		return s + ", interleaved at their callbacks"
	case 1:
		if it.c == 1 {
			return p[it.b].name + " inside the callbacks of " + g[it.a].name
		}
		return g[it.b].name + " inside the callbacks of " + g[it.a].name
	}
	return fmt.Sprintf("%d calls suspended at the same time", waitGates()[it.a])
}

// waitsMain runs in a fresh process: prints BAD and exits 1, or the number of
// schedules and exits 0.
func waitsMain(i, most int) {
	it := waitItems()[i]
	gated, plain := waitWorld()
	alone := func(s session) string { return s.run(func() {}) }
	fail := func(f string, a ...any) {
		fmt.Printf("BAD "+f+"\n", a...)
		os.Exit(1)
	}
	n := 0
	switch it.kind {
	case 0:
		ss := []session{gated[it.a], gated[it.b]}
		if it.c >= 0 {
			ss = append(ss, gated[it.c])
		}
		var want []string
		for _, s := range ss {
			want = append(want, alone(s))
		}
		var prefix []int
		for bound := 2; ; bound = 99 {
			prefix = nil
			for n < most {
				choices, alts, got, stuck := interleave(ss, prefix, bound)
				n++
				if stuck >= 0 {
					fail("call %d (%s) waits for a call that is suspended in its own callback; schedule %v", stuck, ss[stuck].name, choices)
				}
				for k := range ss {
					if got[k] != want[k] {
						fail("call %d (%s) returns %q instead of %q; schedule %v", k, ss[k].name, got[k], want[k], choices)
					}
				}
				k := len(choices) - 1
				for k >= 0 && len(alts[k]) == 0 {
					k--
				}
				if k < 0 {
					break
				}
				// alts[k]: the later siblings of choice k
				prefix = append(append([]int{}, choices[:k]...), alts[k][0])
			}
			if bound == 99 || n >= most {
				break
			}
		}
	case 1:
		a, inner := gated[it.a], gated
		if it.c == 1 {
			inner = plain
		}
		b := inner[it.b]
		wa, wb := alone(a), alone(b)
		calls := 0
		a.run(func() { calls++ })
		for other := 0; other < 2; other++ {
			for at := 0; at <= calls; at++ { // at == calls: in every callback
				k, bad := 0, ""
				done := make(chan string, 1)
				go func() {
					defer func() {
						if r := recover(); r != nil {
							done <- fmt.Sprint("panic: ", r)
						}
					}()
					done <- a.run(func() {
						if k == at || at == calls {
							got := ""
							if other == 1 {
								c := make(chan string)
								go func() {
									defer func() {
										if r := recover(); r != nil {
											c <- fmt.Sprint("panic: ", r)
										}
									}()
									c <- alone(b)
								}()
								got = <-c
							} else {
								got = alone(b)
							}
							if got != wb && bad == "" {
								bad = got
							}
						}
						k++
					})
				}()
				n++
				select {
				case got := <-done:
					if bad != "" {
						fail("inside callback %d the inner call returns %q instead of %q", at, bad, wb)
					}
					if got != wa {
						fail("the outer call returns %q instead of %q after the inner one in callback %d", got, wa, at)
					}
				case <-time.After(waitLimit):
					fail("deadlock: the inner call in callback %d does not return (other goroutine: %v)", at, other == 1)
				}
			}
		}
	case 2:
		k := waitGates()[it.a]
		for mode := 0; mode < 6; mode++ {
			n++
			type call struct {
				s    session
				want string
				go_  chan struct{}
				res  chan string
			}
			in := make(chan int, k)
			calls := make([]call, k)
			for j := range calls {
				s := gated[(j*map[bool]int{true: 1, false: 0}[mode >= 2])%len(gated)] // one parser used for one text, or every kind of call
				calls[j] = call{s, "", make(chan struct{}), make(chan string, 1)}
				calls[j].want = alone(s)
			}
			for j := range calls {
				j, x := j, calls[j]
				go func() {
					defer func() {
						if r := recover(); r != nil {
							x.res <- fmt.Sprint("panic: ", r)
						}
					}()
					var once sync.Once
					x.res <- x.s.run(func() { once.Do(func() { in <- j; <-x.go_ }) })
				}()
			}
			limit := time.After(waitLimit)
			for j := 0; j < k; {
				select {
				case <-in:
					j++
				case <-limit:
					for x := range calls {
						select {
						case got := <-calls[x].res:
							fail("%d calls at the same time: call %d (%s) ends early with %q instead of %q", k, x, calls[x].s.name, got, calls[x].want)
						default:
						}
					}
					fail("%d calls at the same time: only %d begin, the others wait for them", k, j)
				}
				if j < k && len(in) == 0 {
					for x := range calls {
						select {
						case got := <-calls[x].res:
							fail("%d calls at the same time: call %d (%s) ends early with %q instead of %q", k, x, calls[x].s.name, got, calls[x].want)
						default:
						}
					}
				}
			}
			for j := range calls {
				x := j
				switch mode % 3 {
				case 1:
					x = k - 1 - j
				case 2:
					x = (j*7 + j/7) % k
					for calls[x].go_ == nil {
						x = (x + 1) % k
					}
				}
				close(calls[x].go_)
				calls[x].go_ = nil
				select {
				case got := <-calls[x].res:
					if got != calls[x].want {
						fail("%d calls at the same time: call %d (%s) returns %q instead of %q", k, x, calls[x].s.name, got, calls[x].want)
					}
				case <-time.After(waitLimit):
					fail("%d calls at the same time: call %d (%s) does not finish before others do", k, x, calls[x].s.name)
				}
			}
		}
	}
	fmt.Println(n)
	os.Exit(0)
}

// interleave runs the sessions one at a time, switching at callbacks only.
// choices: the session chosen at each step; alts: the ones not yet tried
// there within the bound on switches away from a session that could go on.
func interleave(ss []session, prefix []int, bound int) (choices []int, alts [][]int, res []string, stuck int) {
	type ev struct {
		id   int
		done bool
		res  string
	}
	at := make(chan ev)
	resume := make([]chan struct{}, len(ss))
	done := make([]bool, len(ss))
	res = make([]string, len(ss))
	for i := range ss {
		i := i
		resume[i] = make(chan struct{})
		go func() {
			<-resume[i]
			defer func() {
				if r := recover(); r != nil {
					at <- ev{i, true, fmt.Sprint("panic: ", r)}
				}
			}()
			r := ss[i].run(func() { at <- ev{id: i}; <-resume[i] })
			at <- ev{i, true, r}
		}()
	}
	cur, switches, left := -1, 0, len(ss)
	t := time.NewTimer(waitLimit)
	defer t.Stop()
	for left > 0 {
		// enabled, the current one first
		var order []int
		if cur >= 0 && !done[cur] {
			order = append(order, cur)
		}
		for i := range ss {
			if i != cur && !done[i] {
				order = append(order, i)
			}
		}
		free := cur < 0 || done[cur]
		if !free && switches >= bound {
			order = order[:1]
		}
		pick := order[0]
		if len(choices) < len(prefix) {
			pick = prefix[len(choices)]
		}
		var rest []int
		for j, i := range order {
			if i == pick {
				rest = order[j+1:]
			}
		}
		if !free && pick != cur {
			switches++
		}
		choices = append(choices, pick)
		alts = append(alts, rest)
		cur = pick
		resume[pick] <- struct{}{}
		t.Reset(waitLimit)
		select {
		case e := <-at:
			if e.done {
				done[e.id] = true
				res[e.id] = e.res
				left--
			}
		case <-t.C:
			return choices, alts, res, pick
		}
	}
	return choices, alts, res, -1
}

func waitFamily(rb string, thorough bool) Family {
	most := 3000
	if thorough {
		most = 400_000
	}
	items := waitItems()
	return Family{Name: "callbacks", Desc: fmt.Sprintf("%d combinations: pairs and triples of calls interleaved at every callback (reads, visits, children asked for; all interleavings with 2 switches, then all, up to %d each), every call inside every callback of every other (same and another goroutine), and 2 to 500 calls suspended at the same time and finished in three orders", len(items), most), N: uint64(len(items)), Chunk: 1, Run: func(c *Ctx, i uint64) {
		out, code := runChild(rb, []string{"GORACE=halt_on_error=1 exitcode=66 history_size=7 atexit_sleep_ms=0", "GOMAXPROCS=4"}, 600*time.Second, "waits", fmt.Sprint(i), fmt.Sprint(most))
		n, err := strconv.ParseInt(strings.TrimSpace(out), 10, 64)
		if code == 0 && err == nil {
			c.st.States += n
			c.st.Traces += n
			c.st.Transitions += n * 2
			if n >= int64(most) {
				c.count("interleavings_cut", 1)
			}
			c.out("same results")
			return
		}
		what := fmt.Sprintf("calls that overlap fail (exit %d)", code)
		switch code {
		case 66:
			what = "two calls make conflicting unsynchronised accesses"
		case 1:
			what = "a call depends on another that has not finished"
		}
		c.violate(what, "calls", items[i], "report", cut(out, 2500))
	}}
}
