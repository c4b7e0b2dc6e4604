package main

// C13: tree walking.

import (
	"fmt"
	"sync"

	"github.com/TooManySugar/ll1parser/pkg/cst"
)

type shape struct {
	kids []*shape
	id   int
}

// shapesOf: all ordered trees with n nodes (Catalan numbers).
var shapeMemo = map[int][][]*shape{}

func forestsOf(n int) [][]*shape {
	if r, ok := shapeMemo[n]; ok {
		return r
	}
	var r [][]*shape
	if n == 0 {
		r = [][]*shape{nil}
	}
	for k := 1; k <= n; k++ { // first tree has k nodes
		for _, first := range forestsOf(k - 1) {
			for _, rest := range forestsOf(n - k) {
				r = append(r, append([]*shape{{kids: first}}, rest...))
			}
		}
	}
	shapeMemo[n] = r
	return r
}

func (s *shape) String() string {
	r := "("
	for _, k := range s.kids {
		r += k.String()
	}
	return r + ")"
}

// clone with preorder ids
func (s *shape) number(next *int) *shape {
	c := &shape{id: *next}
	*next++
	for _, k := range s.kids {
		c.kids = append(c.kids, k.number(next))
	}
	return c
}

// foreign implementation of cst.Node
type myNode struct {
	id   int
	kids []cst.Node
}

func (m *myNode) Type() int          { return m.id }
func (m *myNode) Pos() int           { return m.id + 1000 }
func (m *myNode) End() int           { return m.id + 2000 }
func (m *myNode) Childs() []cst.Node { return m.kids }

func (s *shape) node(kind int) cst.Node {
	var k []cst.Node
	if kind == 1 {
		k = []cst.Node{}
	}
	for _, x := range s.kids {
		k = append(k, x.node(kind))
	}
	if kind == 2 || (kind == 3 && s.id%2 == 1) {
		return &myNode{s.id, k}
	}
	return cst.NewNode(s.id, s.id+1000, s.id+2000, k)
}

type event struct{ visitor, node int }

type logVisitor struct {
	id    int
	log   *[]event
	prune uint64
	share int // 0: a new visitor per node; 1: the same visitor everywhere; 2: a new one at every second node
}

func (v *logVisitor) Visit(n cst.Node) cst.Visitor {
	*v.log = append(*v.log, event{v.id, n.Type()})
	if len(*v.log) > 10000 {
		panic("more than 10000 visits")
	}
	if v.prune>>uint(n.Type()&63)&1 == 1 {
		return nil
	}
	if v.share == 1 || (v.share == 2 && n.Type()%2 == 0) {
		return v
	}
	return &logVisitor{n.Type(), v.log, v.prune, v.share}
}

func wantWalk(s *shape, vis int, prune uint64, share int, log []event) []event {
	log = append(log, event{vis, s.id})
	if prune>>uint(s.id&63)&1 == 1 {
		return log
	}
	w := s.id
	if share == 1 || (share == 2 && s.id%2 == 0) {
		w = vis
	}
	for _, k := range s.kids {
		log = wantWalk(k, w, prune, share, log)
	}
	return log
}

func diffLog(a, b []event) string {
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("node %d is not visited (%d visits instead of %d)", a[i].node, len(b), len(a))
		}
		if a[i] != b[i] {
			return fmt.Sprintf("visit %d: want node %d by visitor %d, got node %d by visitor %d", i, a[i].node, a[i].visitor, b[i].node, b[i].visitor)
		}
	}
	if len(b) > len(a) {
		return fmt.Sprintf("an extra visit of node %d", b[len(a)].node)
	}
	return ""
}

type countVisitor struct {
	n      *int64
	limit  int64
	bad    *string
	expect *int64
}

func (v countVisitor) Visit(n cst.Node) cst.Visitor {
	if int64(n.Type()) != *v.expect && *v.bad == "" {
		*v.bad = fmt.Sprintf("visit %d is node %d", *v.expect, n.Type())
	}
	*v.expect++
	*v.n++
	if *v.n > v.limit {
		panic("too many visits")
	}
	return v
}

func init() {
	register(&Property{ID: "C13", Title: "tree walking",
		Rule:   "states are (tree shape, set of pruned nodes, visitor policy) triples enumerated completely up to a number of nodes; transitions are the visits of the real Walk, compared one by one (node and visitor) with the specification",
		Assume: []string{"visitors return a visitor or a nil interface", "trees are proper trees (no shared subtrees)"},
		Families: func(tier string) []Family {
			max := 9
			if tier == "thorough" {
				max = 11
			}
			var fams []Family
			for n := 1; n <= max; n++ {
				n := n
				kids := forestsOf(n - 1)
				fams = append(fams, Family{Name: fmt.Sprintf("trees%d", n), Desc: fmt.Sprintf("all %d ordered trees with %d nodes x all %d prune sets x 3 visitor policies x node representations", len(kids), n, 1<<n),
					N: uint64(len(kids)), Chunk: 4, Run: func(c *Ctx, i uint64) {
						cnt := 0
						s := (&shape{kids: kids[i]}).number(&cnt)
						for kind := 0; kind < 4; kind++ {
							root := s.node(kind)
							for share := 0; share < 3; share++ {
								if kind > 0 && share != int(i+uint64(kind))%3 {
									continue // the other representations with one policy each
								}
								for prune := uint64(0); prune < 1<<n; prune++ {
									c.st.States++
									c.st.Traces++
									var log []event
									_, p, hang := guarded(5_000_000, func() { cst.Walk(&logVisitor{-5, &log, prune, share}, root) })
									want := wantWalk(s, -5, prune, share, nil)
									c.st.Transitions += int64(len(want))
									d := diffLog(want, log)
									if p != nil {
										d = fmt.Sprintf("panic: %v", p)
									}
									if hang {
										d = "the walk does not finish"
									}
									if d != "" {
										c.violate("walking goes wrong: "+d, "tree", s, "pruned nodes (bits)", fmt.Sprintf("%b", prune), "visitor policy", share)
										return
									}
								}
							}
						}
						c.out(fmt.Sprintf("%d nodes", n))
						c.sample(func() string { return s.String() })
					}})
			}
			// trees as parsers make them: nodes of built-in and other types,
			// empty and not, equal ones next to each other
			lmax := 5
			if tier == "thorough" {
				lmax = 6
			}
			for n := 2; n <= lmax; n++ {
				n := n
				kids := forestsOf(n - 1)
				fams = append(fams, Family{Name: fmt.Sprintf("labels%d", n), Desc: fmt.Sprintf("all %d ordered trees with %d nodes x all %d labellings with 4 (type, span) labels, repeated labels included, pruning nothing or one label", len(kids), n, 1<<(2*n)),
					N: uint64(len(kids)) << (2 * n), Chunk: 256, Run: func(c *Ctx, i uint64) {
						l := i
						k := kids[l>>(2*n)]
						var build func(s *shape) cst.Node
						build = func(s *shape) cst.Node {
							m := walkLabels[l&3]
							l >>= 2
							var ks []cst.Node
							for _, x := range s.kids {
								ks = append(ks, build(x))
							}
							return cst.NewNode(m[0], m[1], m[2], ks)
						}
						root := build(&shape{kids: k})
						for prune := -1; prune < len(walkLabels); prune++ {
							if prune >= 0 && n > 4 && uint64(prune) != i%4 {
								continue
							}
							var want, got []string
							expectLabels(root, "", prune, &want)
							c.st.States++
							c.st.Traces++
							c.st.Transitions += int64(len(want))
							_, p, hang := guarded(5_000_000, func() { cst.Walk(&labelVisitor{"", prune, &got}, root) })
							if p != nil || hang || fmt.Sprint(want) != fmt.Sprint(got) {
								c.violate(fmt.Sprintf("walking goes wrong: panic %v, hang %v", p, hang), "tree", treeString(root), "pruned label", prune, "want visits", want, "got", got)
								return
							}
						}
						c.out(fmt.Sprintf("%d nodes", n))
					}})
			}
			// positions say nothing about the order of the children
			pmax := 5
			if tier == "thorough" {
				pmax = 7
			}
			for n := 2; n <= pmax; n++ {
				n := n
				kids := forestsOf(n - 1)
				combos := uint64(1)
				for i := 0; i < n; i++ {
					combos *= uint64(len(walkSpans))
				}
				fams = append(fams, Family{Name: fmt.Sprintf("spans%d", n), Desc: fmt.Sprintf("all %d ordered trees with %d nodes x all %d assignments of spans (rising, falling, equal, empty, negative, end before start), types rising or falling, nothing pruned", len(kids), n, combos),
					N: uint64(len(kids)) * combos, Chunk: 256, Run: func(c *Ctx, i uint64) {
						l := i
						k := kids[l%uint64(len(kids))]
						l /= uint64(len(kids))
						for _, sign := range []int{1, -1} {
							l, cnt := l, 0
							var want []int
							var build func(s *shape) cst.Node
							build = func(s *shape) cst.Node {
								m := walkSpans[l%uint64(len(walkSpans))]
								l /= uint64(len(walkSpans))
								t := sign * cnt
								cnt++
								want = append(want, t)
								var ks []cst.Node
								for _, x := range s.kids {
									ks = append(ks, build(x))
								}
								return cst.NewNode(t, m[0], m[1], ks)
							}
							root := build(&shape{kids: k})
							var got []int
							c.st.States++
							c.st.Traces++
							c.st.Transitions += int64(len(want))
							_, p, hang := guarded(5_000_000, func() {
								cst.Walk(sliceVisitor{func(t int) { got = append(got, t) }}, root)
							})
							if p != nil || hang || fmt.Sprint(want) != fmt.Sprint(got) {
								c.violate(fmt.Sprintf("walking goes wrong: panic %v, hang %v", p, hang), "tree", treeString(root), "want visits of types", want, "got", got)
								return
							}
						}
						c.out(fmt.Sprintf("%d nodes", n))
					}})
			}
			// visitors of every kind a Go type can have
			for n := 1; n <= 6; n++ {
				n := n
				kids := forestsOf(n - 1)
				fams = append(fams, Family{Name: fmt.Sprintf("visitors%d", n), Desc: fmt.Sprintf("all %d ordered trees with %d nodes x all prune sets x visitors that are nil pointers, functions, slices (not comparable), empty structs, integers, and visitors that walk the node themselves during the visit", len(kids), n),
					N: uint64(len(kids)), Chunk: 1, Run: func(c *Ctx, i uint64) {
						cnt := 0
						s := (&shape{kids: kids[i]}).number(&cnt)
						root := s.node(0)
						for kind := 0; kind < 6; kind++ {
							for prune := uint64(0); prune < 1<<n; prune++ {
								want := wantWalk(s, 0, prune, 1, nil)
								var got []event
								c.st.States++
								c.st.Traces++
								c.st.Transitions += int64(len(want))
								note := func(node cst.Node) bool {
									got = append(got, event{0, node.Type()})
									if len(got) > 1000 {
										panic("more than 1000 visits")
									}
									return prune>>uint(node.Type())&1 == 0
								}
								var v cst.Visitor
								visitNote.Lock()
								visitNote.f = note
								switch kind {
								case 0:
									v = (*nilVisitor)(nil)
								case 1:
									v = funcVisitor(note)
								case 2:
									v = sliceVisitor2{note}
								case 3:
									v = emptyVisitor{}
								case 4:
									v = intVisitor(0)
								case 5:
									v = nestedVisitor{note}
								}
								_, p, hang := guarded(5_000_000, func() { cst.Walk(v, root) })
								visitNote.Unlock()
								d := diffLog(want, got)
								if p != nil {
									d = fmt.Sprintf("panic: %v", p)
								}
								if hang {
									d = "the walk does not finish"
								}
								if d != "" {
									c.violate("walking goes wrong: "+d, "tree", s, "pruned nodes (bits)", fmt.Sprintf("%b", prune), "visitor", fmt.Sprintf("%T", v))
									return
								}
							}
						}
						c.out(fmt.Sprintf("%d nodes", n))
					}})
			}
			vals := []int{0, 1, -1, -2, 7, 255, 256, 1 << 31, -1 << 31, 1<<63 - 1, -1 << 63}
			fams = append(fams, Family{Name: "accessors", Desc: "NewNode with all combinations of boundary types, starts, ends and 0..3 children", N: uint64(len(vals) * len(vals)), Run: func(c *Ctx, i uint64) {
				t, p := vals[i%uint64(len(vals))], vals[i/uint64(len(vals))]
				for _, e := range vals {
					for k := 0; k < 5; k++ {
						var kids []cst.Node
						for j := 0; j < k; j++ {
							kids = append(kids, cst.NewNode(j, j, j, nil))
						}
						if k == 4 {
							kids = []cst.Node{}
						}
						n := cst.NewNode(t, p, e, kids)
						other := cst.NewNode(t+1, p+1, e+1, []cst.Node{n})
						c.st.States++
						c.st.Traces++
						c.st.Transitions += 4
						bad := ""
						if n.Type() != t || n.Pos() != p || n.End() != e || len(n.Childs()) != len(kids) {
							bad = fmt.Sprintf("got type %d pos %d end %d, %d children", n.Type(), n.Pos(), n.End(), len(n.Childs()))
						} else {
							for j := range kids {
								if n.Childs()[j].Type() != j {
									bad = fmt.Sprintf("child %d is %d", j, n.Childs()[j].Type())
								}
							}
						}
						if other.Type() != t+1 || other.Pos() != p+1 || other.End() != e+1 || len(other.Childs()) != 1 || other.Childs()[0].Type() != t || other.Childs()[0].Pos() != p {
							bad = "a node created later reports other values"
						}
						if bad != "" {
							c.violate("a node does not report what it was created with: "+bad, "type", t, "pos", p, "end", e, "children", len(kids))
							return
						}
					}
				}
			}})
			sizes := []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 10000, 65535, 65537, 100000}
			sizes = append(sizes, dictSizes(16, 300_000)...)
			fams = append(fams, Family{Name: "ladder", Desc: "chains of every listed depth, stars of every listed width, combs; all nodes visited in order", N: uint64(len(sizes) * 3), Run: func(c *Ctx, i uint64) {
				n := sizes[i/3]
				var root cst.Node
				total := int64(0)
				switch i % 3 {
				case 0:
					for k := n - 1; k >= 0; k-- {
						var kids []cst.Node
						if root != nil {
							kids = []cst.Node{root}
						}
						root = cst.NewNode(k, 0, 0, kids)
					}
					total = int64(n)
				case 1:
					kids := make([]cst.Node, n)
					for k := range kids {
						kids[k] = cst.NewNode(k+1, 0, 0, nil)
					}
					root = cst.NewNode(0, 0, 0, kids)
					total = int64(n + 1)
				case 2: // every node has a leaf, then the rest of the chain
					nodes := make([]cst.Node, 0, n)
					for k := n - 1; k >= 0; k-- {
						kids := []cst.Node{cst.NewNode(2*k+1, 0, 0, nil)}
						if len(nodes) > 0 {
							kids = append(kids, nodes[len(nodes)-1])
						}
						nodes = append(nodes, cst.NewNode(2*k, 0, 0, kids))
					}
					root = nodes[len(nodes)-1]
					total = int64(2 * n)
				}
				var cnt, exp int64
				bad := ""
				_, p, hang := guarded(total*1000+100000, func() { cst.Walk(countVisitor{&cnt, total + 5, &bad, &exp}, root) })
				c.st.States++
				c.st.Traces++
				c.st.Transitions += total
				if p != nil || hang || bad != "" || cnt != total {
					c.violate(fmt.Sprintf("walking a large tree goes wrong: visited %d of %d nodes, panic %v, hang %v %s", cnt, total, p, hang, bad), "size", n, "kind", i%3)
				}
			}})
			return fams
		}})
}

var walkLabels = [][3]int{{-2, 5, 5}, {-1, 5, 6}, {0, 5, 5}, {3, 5, 7}}

func labelOf(n cst.Node) int {
	for i, l := range walkLabels {
		if l == [3]int{n.Type(), n.Pos(), n.End()} {
			return i
		}
	}
	return -9
}

// labelVisitor carries the path of labels above it.
type labelVisitor struct {
	path  string
	prune int
	log   *[]string
}

func (v *labelVisitor) Visit(n cst.Node) cst.Visitor {
	if len(*v.log) > 1000 {
		panic("more than 1000 visits")
	}
	p := fmt.Sprintf("%s/%d", v.path, labelOf(n))
	*v.log = append(*v.log, p)
	if labelOf(n) == v.prune {
		return nil
	}
	return &labelVisitor{p, v.prune, v.log}
}

func expectLabels(n cst.Node, path string, prune int, log *[]string) {
	p := fmt.Sprintf("%s/%d", path, labelOf(n))
	*log = append(*log, p)
	if labelOf(n) == prune {
		return
	}
	for _, k := range n.Childs() {
		expectLabels(k, p, prune, log)
	}
}

var walkSpans = [][2]int{{0, 3}, {3, 9}, {3, 3}, {-1, 0}, {9, 2}}

// sliceVisitor and sliceVisitor2 cannot be compared.
type sliceVisitor []func(t int)

func (v sliceVisitor) Visit(n cst.Node) cst.Visitor {
	v[0](n.Type())
	return v
}

type sliceVisitor2 []func(n cst.Node) bool

func (v sliceVisitor2) Visit(n cst.Node) cst.Visitor {
	if v[0](n) {
		return v
	}
	return nil
}

var visitNote struct {
	sync.Mutex
	f func(n cst.Node) bool
}

// nilVisitor works as a nil pointer, which is not a nil visitor.
type nilVisitor struct{}

func (v *nilVisitor) Visit(n cst.Node) cst.Visitor {
	if visitNote.f(n) {
		return (*nilVisitor)(nil)
	}
	return nil
}

type funcVisitor func(n cst.Node) bool

func (v funcVisitor) Visit(n cst.Node) cst.Visitor {
	if v(n) {
		return v
	}
	return nil
}

type emptyVisitor struct{}

func (emptyVisitor) Visit(n cst.Node) cst.Visitor {
	if visitNote.f(n) {
		return emptyVisitor{}
	}
	return nil
}

type intVisitor int

func (intVisitor) Visit(n cst.Node) cst.Visitor {
	if visitNote.f(n) {
		return intVisitor(0)
	}
	return nil
}

// nestedVisitor walks the node with another visitor before it returns.
type nestedVisitor struct{ note func(n cst.Node) bool }

func (v nestedVisitor) Visit(n cst.Node) cst.Visitor {
	seen := 0
	cst.Walk(funcVisitor(func(cst.Node) bool { seen++; return seen < 3 }), n)
	if v.note(n) {
		return v
	}
	return nil
}
