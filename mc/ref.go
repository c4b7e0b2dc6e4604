package main

// Reference models, written from the textbook definitions and independent of
// the code under test: grammars, FIRST/FOLLOW/predict, LL(1) conflicts,
// the LL(1) pushdown machine, and derivation semantics (language sets).

import (
	"fmt"
	"strings"
)

type Sym struct {
	NT bool
	N  int    // nonterminal index
	T  string // terminal text (non-empty)
}

func T(s string) Sym { return Sym{T: s} }
func N(n int) Sym    { return Sym{NT: true, N: n} }

type Alt []Sym   // empty = derives the empty string
type Body []Alt  // alternatives in order
type Gram struct {
	Names []string
	Rules []Body
}

var defaultNames = []string{"S", "A", "B", "C", "D", "E", "F", "G", "H"}

func mkGram(bodies ...Body) *Gram {
	g := &Gram{Rules: bodies}
	for i := range bodies {
		if i < len(defaultNames) {
			g.Names = append(g.Names, defaultNames[i])
		} else {
			g.Names = append(g.Names, fmt.Sprintf("r%d", i))
		}
	}
	return g
}

func (g *Gram) String() string {
	var sb strings.Builder
	for i, b := range g.Rules {
		if i > 0 {
			sb.WriteString(" ; ")
		}
		fmt.Fprintf(&sb, "<%s> ::=", g.Names[i])
		for j, a := range b {
			if j > 0 {
				sb.WriteString(" |")
			}
			if len(a) == 0 {
				sb.WriteString(` ""`)
			}
			for _, s := range a {
				if s.NT {
					fmt.Fprintf(&sb, " <%s>", g.Names[s.N])
				} else {
					fmt.Fprintf(&sb, " %q", s.T)
				}
			}
		}
	}
	r := sb.String()
	if len(r) > 2000 {
		r = r[:2000] + fmt.Sprintf("... (%d rules)", len(g.Rules))
	}
	return r
}

// ---- lookahead sets: 256 bytes + end of input -------------------------------

const EOI = 256

type LA [5]uint64

func (s *LA) add(i int)      { s[i>>6] |= 1 << (uint(i) & 63) }
func (s *LA) has(i int) bool { return s[i>>6]>>(uint(i)&63)&1 == 1 }
func (s *LA) or(o LA) bool {
	ch := false
	for i := range s {
		n := s[i] | o[i]
		if n != s[i] {
			ch = true
			s[i] = n
		}
	}
	return ch
}
func (s LA) and(o LA) LA {
	for i := range s {
		s[i] &= o[i]
	}
	return s
}
func (s LA) empty() bool { return s == LA{} }
func (s LA) list() []int {
	var r []int
	for i := 0; i <= EOI; i++ {
		if s.has(i) {
			r = append(r, i)
		}
	}
	return r
}

type Theory struct {
	g        *Gram
	nullable []bool
	first    []LA
	follow   []LA
	prod     []bool // derives some string
	allProd  bool
	altFirst [][]LA
	altNull  [][]bool
	conflict bool
	confNT   int
	// table[nt][la] = 0 none, k+1: alternative k by beginning, -(k+1): alternative k by FOLLOW
	table [][257]int16
	size  int // total symbols
}

func (t *Theory) seqFirst(a []Sym) (LA, bool) {
	var f LA
	for _, s := range a {
		if !s.NT {
			f.add(int(s.T[0]))
			return f, false
		}
		f.or(t.first[s.N])
		if !t.nullable[s.N] {
			return f, false
		}
	}
	return f, true
}

func analyse(g *Gram) *Theory {
	n := len(g.Rules)
	t := &Theory{g: g, nullable: make([]bool, n), first: make([]LA, n), follow: make([]LA, n), prod: make([]bool, n)}
	for ch := true; ch; {
		ch = false
		for i, b := range g.Rules {
			for _, a := range b {
				f, nl := t.seqFirst(a)
				if t.first[i].or(f) {
					ch = true
				}
				if nl && !t.nullable[i] {
					t.nullable[i] = true
					ch = true
				}
				if !t.prod[i] {
					ok := true
					for _, s := range a {
						if s.NT && !t.prod[s.N] {
							ok = false
							break
						}
					}
					if ok {
						t.prod[i] = true
						ch = true
					}
				}
			}
		}
	}
	t.allProd = true
	for _, p := range t.prod {
		t.allProd = t.allProd && p
	}
	if n > 0 {
		t.follow[0].add(EOI)
	}
	for ch := true; ch; {
		ch = false
		for i, b := range g.Rules {
			for _, a := range b {
				// trailer: what can follow the symbol being looked at
				trailer := t.follow[i]
				for k := len(a) - 1; k >= 0; k-- {
					s := a[k]
					if !s.NT {
						trailer = LA{}
						trailer.add(int(s.T[0]))
						continue
					}
					if t.follow[s.N].or(trailer) {
						ch = true
					}
					if t.nullable[s.N] {
						trailer.or(t.first[s.N])
					} else {
						trailer = t.first[s.N]
					}
				}
			}
		}
	}
	t.table = make([][257]int16, n)
	t.altFirst = make([][]LA, n)
	t.altNull = make([][]bool, n)
	t.confNT = -1
	for i, b := range g.Rules {
		var seen LA
		t.size++
		for k, a := range b {
			t.size += 1 + len(a)
			f, nl := t.seqFirst(a)
			t.altFirst[i] = append(t.altFirst[i], f)
			t.altNull[i] = append(t.altNull[i], nl)
			p := f
			if nl {
				p.or(t.follow[i])
			}
			if !seen.and(p).empty() && !t.conflict {
				t.conflict, t.confNT = true, i
			}
			seen.or(p)
			for _, c := range p.list() {
				if t.table[i][c] == 0 {
					if f.has(c) {
						t.table[i][c] = int16(k + 1)
					} else {
						t.table[i][c] = -int16(k + 1)
					}
				}
			}
		}
	}
	return t
}

// ---- the LL(1) pushdown machine --------------------------------------------

type RT struct {
	Typ, Pos, End int
	Kids          []*RT
}

const (
	refLiteral = -1
	refNothing = -2
)

type RunResult struct {
	Tree   *RT // nil when rejected
	ErrPos int
	ErrNT  int // nonterminal with no entry (-1: not that kind)
	ErrCh  int // expected terminal byte (-1), 256 = expected end of input
	Moves  int
	Prefix bool // prefix mode: input exhausted without an error
	Depth  int
}

type frame struct {
	node *RT
	alt  Alt
	next int
}

// run executes the machine; in prefix mode reaching the end of the bytes means
// "more input may come" and the run stops there with Prefix set.
func (t *Theory) run(w string, prefix bool) RunResult {
	r := RunResult{ErrNT: -1, ErrCh: -1}
	pos := 0
	var root *RT
	var st []frame
	expand := func(nt int) (*RT, Alt, bool) {
		r.Moves++
		la := EOI
		if pos < len(w) {
			la = int(w[pos])
		}
		c := t.table[nt][la]
		if c == 0 {
			r.ErrPos, r.ErrNT = pos, nt
			return nil, nil, false
		}
		n := &RT{Typ: nt, Pos: pos, End: pos}
		if c < 0 {
			n.Kids = []*RT{{Typ: refNothing, Pos: pos, End: pos}}
			return n, nil, true
		}
		return n, t.g.Rules[nt][c-1], true
	}
	if prefix && len(w) == 0 {
		r.Prefix = true
		return r
	}
	n, a, ok := expand(0)
	if !ok {
		return r
	}
	root = n
	st = append(st, frame{n, a, 0})
	for len(st) > 0 {
		f := &st[len(st)-1]
		if len(st) > r.Depth {
			r.Depth = len(st)
		}
		if f.next == len(f.alt) {
			f.node.End = pos
			st = st[:len(st)-1]
			r.Moves++
			continue
		}
		s := f.alt[f.next]
		if prefix && pos == len(w) {
			r.Prefix = true
			return r
		}
		f.next++
		if s.NT {
			n, a, ok := expand(s.N)
			if !ok {
				return r
			}
			f.node.Kids = append(f.node.Kids, n)
			st = append(st, frame{n, a, 0})
			continue
		}
		start := pos
		for k := 0; k < len(s.T); k++ {
			r.Moves++
			if prefix && pos == len(w) {
				r.Prefix = true
				return r
			}
			if pos >= len(w) || w[pos] != s.T[k] {
				r.ErrPos, r.ErrCh = pos, int(s.T[k])
				return r
			}
			pos++
		}
		f.node.Kids = append(f.node.Kids, &RT{Typ: refLiteral, Pos: start, End: pos})
	}
	if pos < len(w) {
		r.ErrPos, r.ErrCh = pos, EOI
		return r
	}
	if prefix {
		r.Prefix = true // a complete sentence and nothing may follow
		return r
	}
	r.Tree = root
	return r
}

// ---- derivation semantics: language sets over all strings up to maxLen ------

type Lang struct {
	strs  []string
	index map[string]int
	cat   [][]int16 // cat[i][j] = id of strs[i]+strs[j], -1 when too long
}

func newLang(sigma string, maxLen int) *Lang {
	l := &Lang{index: map[string]int{}}
	cur := []string{""}
	for n := 0; n <= maxLen; n++ {
		var nxt []string
		for _, s := range cur {
			l.index[s] = len(l.strs)
			l.strs = append(l.strs, s)
			for i := range sigma {
				nxt = append(nxt, s+sigma[i:i+1])
			}
		}
		cur = nxt
	}
	for _, a := range l.strs {
		row := make([]int16, len(l.strs))
		for j, b := range l.strs {
			if k, ok := l.index[a+b]; ok {
				row[j] = int16(k)
			} else {
				row[j] = -1
			}
		}
		l.cat = append(l.cat, row)
	}
	return l
}

type langSet []uint64

func (s langSet) has(i int) bool { return s[i>>6]>>(uint(i)&63)&1 == 1 }
func (s langSet) add(i int)      { s[i>>6] |= 1 << (uint(i) & 63) }

func (l *Lang) concat(a, b langSet) langSet {
	r := make(langSet, len(a))
	for i := range l.strs {
		if !a.has(i) {
			continue
		}
		for j := range l.strs {
			if b.has(j) && l.cat[i][j] >= 0 {
				r.add(int(l.cat[i][j]))
			}
		}
	}
	return r
}

// langs computes, for every nonterminal, the set of strings (up to the bound)
// it derives: least fixpoint of the production equations.
func (l *Lang) langs(g *Gram) []langSet {
	w := (len(l.strs) + 63) / 64
	sets := make([]langSet, len(g.Rules))
	for i := range sets {
		sets[i] = make(langSet, w)
	}
	for ch := true; ch; {
		ch = false
		for i, b := range g.Rules {
			for _, a := range b {
				cur := make(langSet, w)
				cur.add(0)
				for _, s := range a {
					if s.NT {
						cur = l.concat(cur, sets[s.N])
					} else {
						x := make(langSet, w)
						if k, ok := l.index[s.T]; ok {
							x.add(k)
						}
						cur = l.concat(cur, x)
					}
				}
				for k := range cur {
					n := sets[i][k] | cur[k]
					if n != sets[i][k] {
						sets[i][k] = n
						ch = true
					}
				}
			}
		}
	}
	return sets
}
