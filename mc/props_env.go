package main

// C16: nothing but the arguments matters - not the process's surroundings, and
// not that an earlier call was torn down from inside a callback.

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

// surroundings of a process that runs all probes
type surrounding struct {
	name  string
	env   func() []string // nil: as here
	procs int
	gc    int
	files bool     // the working directory has files named by the dictionary
	args  []string // further arguments
	stack int      // goroutine depth the probes run at
	other bool     // in a goroutine of their own, one each
}

func envNames() []string {
	var r []string
	seen := map[string]bool{}
	for _, w := range dictWords() {
		for _, v := range []string{w, strings.ToUpper(w)} {
			if v != "" && !strings.ContainsAny(v, "=\x00 \n\r\t") && !seen[v] {
				seen[v] = true
				r = append(r, v)
			}
		}
	}
	return r
}

func withWords(val string, base []string) []string {
	r := append([]string{}, base...)
	for _, n := range envNames() {
		if strings.HasPrefix(n, "GO") || n == "PATH" || n == "HOME" || strings.HasPrefix(n, "LD_") { // the runtime's own
			continue
		}
		r = append(r, n+"="+val)
	}
	return r
}

func surroundings() []surrounding {
	bare := func() []string { return []string{"PATH=/usr/bin:/bin"} }
	r := []surrounding{
		{name: "an almost empty environment", env: bare},
		{name: "another language and time zone", env: func() []string {
			return []string{"LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "TZ=Asia/Kathmandu", "TERM=dumb", "CI=true", "DEBUG=1"}
		}},
		{name: "one processor", procs: 1},
		{name: "many processors", procs: 64},
		{name: "no garbage collection", gc: -1},
		{name: "very eager garbage collection", gc: 1},
		{name: "a working directory with files named by words of the sources", files: true},
		{name: "words of the sources as arguments", args: envNames()},
		{name: "on a deep stack", stack: 20000},
		{name: "each in a goroutine of its own", other: true},
	}
	for _, v := range []string{"1", "true", "0", "", "debug", "100000"} {
		v := v
		r = append(r, surrounding{name: fmt.Sprintf("every word of the sources set to %q", v), env: func() []string { return withWords(v, bare()) }})
	}
	return r
}

// surroundMain: "surround K [ARGS]" prints the digests of all probes.
func surroundMain(args []string) {
	var x int
	fmt.Sscan(args[0], &x)
	s := surrounding{procs: 2}
	if x >= 0 {
		s = surroundings()[x]
	}
	runtime.GOMAXPROCS(max(2, s.procs))
	if s.procs == 1 {
		runtime.GOMAXPROCS(1)
	}
	if s.gc != 0 {
		debug.SetGCPercent(s.gc)
	}
	os.Args = append(os.Args[:1:1], args[1:]...)
	var deep func(n int, f func()) int
	deep = func(n int, f func()) int {
		if n == 0 {
			f()
			return 0
		}
		return deep(n-1, f) + 1
	}
	var sb strings.Builder
	deep(s.stack, func() {
		for _, p := range probes() {
			if s.other {
				done := make(chan string)
				go func() { done <- p.digest() }()
				sb.WriteString(<-done + "\n")
				continue
			}
			sb.WriteString(p.digest() + "\n")
		}
	})
	os.Stdout.WriteString(sb.String())
	os.Exit(0)
}

func environmentFamily() Family {
	ss := surroundings()
	ps := probes()
	run := func(x int, s surrounding) ([]string, string) {
		ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, os.Args[0], append([]string{"surround", fmt.Sprint(x)}, s.args...)...)
		if s.env != nil {
			cmd.Env = s.env()
		}
		dir, err := os.MkdirTemp("", "mcenv")
		if err != nil {
			return nil, "no scratch directory: " + err.Error()
		}
		defer os.RemoveAll(dir)
		cmd.Dir = dir
		if s.files {
			for _, w := range envNames() {
				if !strings.Contains(w, "/") && w != "." && w != ".." && len(w) < 60 {
					os.WriteFile(filepath.Join(dir, w), []byte("1\n"), 0o644)
				}
			}
		}
		var out, serr bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &serr
		if err := cmd.Run(); err != nil {
			return nil, fmt.Sprintf("%v: %s%s", err, cut(serr.String(), 1500), cut(out.String(), 500))
		}
		l := strings.Split(strings.TrimSuffix(out.String(), "\n"), "\n")
		if len(l) != len(ps) || serr.Len() > 0 {
			return nil, fmt.Sprintf("%d lines for %d calls; on standard error: %s", len(l), len(ps), cut(serr.String(), 1500))
		}
		return l, ""
	}
	return Family{Name: "environment", Desc: fmt.Sprintf("%d calls in a process under each of %d surroundings (environment variables, files and arguments named by words of the sources, language, processors, garbage collection, deep stack, goroutines): the results of a plain process", len(ps), len(ss)), N: uint64(len(ss)), Chunk: 1, Run: func(c *Ctx, i uint64) {
		want, e := run(-1, surrounding{})
		if e != "" {
			c.violate("calls fail in a process of their own", "report", e)
			return
		}
		got, e := run(int(i), ss[i])
		if e != "" {
			c.violate("calls fail in a process of their own", "surroundings", ss[i].name, "report", e)
			return
		}
		c.st.States++
		c.st.Transitions += int64(len(ps))
		c.st.Traces += int64(2 * len(ps))
		for k := range want {
			if want[k] != got[k] {
				c.violate("a call depends on the surroundings of the process", "surroundings", ss[i].name, "call", ps[k].name, "plain", want[k], "there", got[k])
				return
			}
		}
		c.out("same results")
	}}
}

// tearing callbacks
type tearReader struct {
	after int
	how   func()
}

func (t *tearReader) Read(p []byte) (int, error) {
	if t.after == 0 {
		t.how()
	}
	t.after--
	p[0] = 'a'
	return 1, nil
}

type tearVisitor struct {
	after *int
	how   func()
}

func (t tearVisitor) Visit(cst.Node) cst.Visitor {
	if *t.after == 0 {
		t.how()
	}
	*t.after--
	return t
}

type tearNode struct {
	cst.Node
	after *int
	how   func()
}

func (t tearNode) step() {
	if *t.after == 0 {
		t.how()
	}
	*t.after--
}
func (t tearNode) Type() int { t.step(); return t.Node.Type() }
func (t tearNode) Pos() int  { t.step(); return t.Node.Pos() }
func (t tearNode) Childs() []cst.Node {
	t.step()
	var r []cst.Node
	for _, k := range t.Node.Childs() {
		r = append(r, tearNode{k, t.after, t.how})
	}
	return r
}

type tearSymbol struct{ how func() }

func (t tearSymbol) Type() int      { t.how(); return 0 }
func (t tearSymbol) String() string { t.how(); return "" }

// tornFamily: calls torn down by a panic or by the end of their goroutine
// inside a callback leave nothing behind.
func tornFamily() Family {
	const most = 40
	counts := []int{1, 2, 3, 17, 300}
	whats := []string{"a reader", "a visitor", "a node in conversion", "a node being walked", "a printed symbol"}
	ways := []string{"panics", "panics (handled outside)", "ends its goroutine"}
	nw, nh, nc := uint64(len(whats)), uint64(len(ways)), uint64(len(counts))
	return Family{Name: "torn", Desc: fmt.Sprintf("%d callbacks that panic or end their goroutine at the 1st..%dth time they are called, %d numbers of times up to %d: afterwards every short input through every source, a table, a refusal, a conversion, a walk answer as before", nw, most, nc, counts[nc-1]), N: nw * nh * nc * most, Chunk: 4, Run: func(c *Ctx, i uint64) {
		what, way, cnt, at := i%nw, i/nw%nh, counts[i/nw/nh%nc], int(i/nw/nh/nc)
		if what == 4 && at > 0 {
			return
		}
		g := toBNF(mkGram(body(alt("a", 1, "c"), alt("d")), body(alt("b", 0, 1), a0)))
		ft := callFG(g, 1<<40)
		if ft.bad() != "" || ft.err != nil {
			c.violate("no table for an LL(1) grammar: " + ft.bad() + fmt.Sprint(ft.err))
			return
		}
		p := parser.NewLL1Parser(*ft.table, *ft.names)
		root, text, bind := tinyTree()
		probe := func() string {
			var sb strings.Builder
			for l := 0; l <= 3; l++ {
				for x := uint64(0); x < product64(4, l); x++ {
					w := word("abcd", x, l)
					for _, src := range []any{w, hideReader{strings.NewReader(w)}} {
						fmt.Fprintf(&sb, "%T %q: %v\n", src, w, outcomeOf(callParse(p, src, 1_000_000)))
					}
				}
			}
			v := &digestVisitor{}
			cst.Walk(v, root)
			fmt.Fprintln(&sb, wideGen(g), aOut(bind.ToAST(root, text)), g.String(), v.n, v.h)
			return sb.String()
		}
		want := probe()
		how := func() { panic("torn") }
		if way == 2 {
			how = runtime.Goexit
		}
		one := func() {
			after := at
			switch what {
			case 0:
				p.Parse(&tearReader{at, how})
			case 1:
				cst.Walk(tearVisitor{&after, how}, root)
			case 2:
				bind.ToAST(tearNode{root, &after, how}, text)
			case 3:
				cst.Walk(&digestVisitor{}, tearNode{root, &after, how})
			case 4:
				x := g
				x.Rules = append([]bnf.Rule{}, g.Rules...)
				x.Rules[1] = bnf.Rule{Head: bnf.SymbolNonTerminal{Name: "T"}, Tail: bnf.Substitution{Sequences: []bnf.Sequence{{Symbols: []bnf.Symbol{tm("x"), tearSymbol{how}}}}}}
				_ = x.String()
			}
		}
		for k := 0; k < cnt; k++ {
			done := make(chan bool)
			call := func() {
				defer close(done)
				defer func() { recover() }()
				one()
			}
			if way == 1 {
				call()
			} else {
				go call()
			}
			select {
			case <-done:
			case <-time.After(60 * time.Second):
				c.violate("a call does not return after an earlier one was torn down", "callback", whats[what]+" "+ways[way], "at its call", at+1, "earlier calls", k)
				return
			}
		}
		c.st.States++
		c.st.Traces++
		c.st.Transitions += int64(cnt)
		res := make(chan string, 1)
		go func() { res <- probe() }()
		select {
		case got := <-res:
			if got != want {
				c.violate("a call depends on an earlier one that was torn down", "callback", whats[what]+" "+ways[way], "at its call", at+1, "earlier calls", cnt, "before", firstDiff(want, got), "afterwards", firstDiff(got, want))
			}
		case <-time.After(100 * time.Second):
			c.violate("a call does not return after an earlier one was torn down", "callback", whats[what]+" "+ways[way], "at its call", at+1, "earlier calls", cnt)
		}
	}}
}

// firstDiff: the first line of a that b has otherwise.
func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for k := range x {
		if k >= len(y) || x[k] != y[k] {
			return cut(x[k], 300)
		}
	}
	return ""
}
