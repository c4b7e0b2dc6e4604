package main

// C18: hand-written parsing tables, against a reference interpreter.

import (
	"fmt"
	"sort"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/parser"
)

type rop struct {
	nt bool
	n  int
	t  string
}

func (o rop) String() string {
	if o.nt {
		return fmt.Sprintf("N%d", o.n)
	}
	return fmt.Sprintf("%q", o.t)
}
func (o rop) op() parser.ParserOp {
	if o.nt {
		return parser.OpNonTerminal(o.n)
	}
	return parser.OpTerminal(o.t)
}

type rtable map[int]map[byte][]rop

func (t rtable) real() Table {
	if t == nil {
		return nil
	}
	r := Table{}
	for n, row := range t {
		if row == nil {
			r[n] = nil
			continue
		}
		m := map[byte][]parser.ParserOp{}
		for b, ops := range row {
			var l []parser.ParserOp
			if ops != nil {
				l = []parser.ParserOp{}
			}
			for _, o := range ops {
				l = append(l, o.op())
			}
			m[b] = l
		}
		r[n] = m
	}
	return r
}

func (t rtable) String() string {
	if t == nil {
		return "nil table"
	}
	var p []string
	for n, row := range t {
		if row == nil {
			p = append(p, fmt.Sprintf("row %d: nil", n))
		}
		for b, ops := range row {
			p = append(p, fmt.Sprintf("[%d, %q] = %v", n, string([]byte{b}), ops))
		}
		if row != nil && len(row) == 0 {
			p = append(p, fmt.Sprintf("row %d: empty", n))
		}
	}
	sort.Strings(p)
	return strings.Join(p, "; ")
}

// interpret: the documented meaning of a table.  Column 0 is the entry for end
// of input.  diverges when a row is expanded inside itself with nothing consumed.
type interp struct {
	ok       bool
	diverges bool
	moves    int
	why      string
	tree     *RT
}

func interpret(t rtable, w string) (r interp) {
	if len(t) == 0 {
		r.why = "empty table"
		return
	}
	if _, ok := t[0]; !ok {
		r.why = "no start row"
		return
	}
	type pnode struct {
		*RT
		up *pnode
	}
	type item struct {
		op   rop
		into *pnode
		end  *RT // set the end of this node
	}
	top := &pnode{RT: &RT{Pos: -1}}
	st := []item{{op: rop{nt: true, n: 0}, into: top}}
	pos := 0
	la := func() byte {
		if pos < len(w) {
			return w[pos]
		}
		return 0
	}
	for len(st) > 0 {
		it := st[len(st)-1]
		st = st[:len(st)-1]
		if it.end != nil {
			it.end.End = pos
			continue
		}
		r.moves++
		if !it.op.nt {
			if !strings.HasPrefix(w[pos:], it.op.t) {
				r.why = "terminal mismatch"
				return
			}
			it.into.Kids = append(it.into.Kids, &RT{Typ: refLiteral, Pos: pos, End: pos + len(it.op.t)})
			pos += len(it.op.t)
			r.moves += len(it.op.t)
			continue
		}
		n := &pnode{&RT{Typ: it.op.n, Pos: pos, End: pos}, it.into}
		it.into.Kids = append(it.into.Kids, n.RT)
		for a := it.into; a != nil && a.Pos == pos; a = a.up {
			if a.Typ == it.op.n && it.op.n >= 0 {
				r.diverges = true // same row inside itself with nothing consumed
				return
			}
		}
		var ops []rop
		switch {
		case it.op.n == -2:
			switch {
			case strings.HasPrefix(w[pos:], "\n"):
				ops = []rop{{t: "\n"}}
			case strings.HasPrefix(w[pos:], "\r"):
				ops = []rop{{t: "\r"}, {t: "\n"}}
			default:
				r.why = "no line end"
				return
			}
		case it.op.n < 0:
			r.why = "unknown built-in"
			return
		default:
			row, ok := t[it.op.n]
			if !ok {
				r.why = "missing row"
				return
			}
			ops, ok = row[la()]
			if !ok {
				r.why = "missing entry"
				return
			}
			if len(ops) == 0 {
				n.Kids = []*RT{{Typ: refNothing, Pos: pos, End: pos}}
				continue
			}
		}
		st = append(st, item{end: n.RT})
		for i := len(ops) - 1; i >= 0; i-- {
			st = append(st, item{op: ops[i], into: n})
		}
	}
	if pos < len(w) {
		r.why = "trailing input"
		return
	}
	r.ok = true
	r.tree = top.Kids[0]
	return
}

func ropSeqs(ops []rop, max int) [][]rop {
	r := [][]rop{{}}
	cur := [][]rop{{}}
	for l := 0; l < max; l++ {
		var nxt [][]rop
		for _, a := range cur {
			for _, o := range ops {
				nxt = append(nxt, append(append([]rop{}, a...), o))
			}
		}
		r = append(r, nxt...)
		cur = nxt
	}
	return r
}

func allStrings(sigma string, max int) []string {
	r := []string{""}
	cur := []string{""}
	for l := 0; l < max; l++ {
		var nxt []string
		for _, a := range cur {
			for i := range sigma {
				nxt = append(nxt, a+sigma[i:i+1])
			}
		}
		r = append(r, nxt...)
		cur = nxt
	}
	return r
}

type cell struct {
	row int
	key byte
	opt [][]rop // nil entry first = absent
}

type tabFam struct {
	name, desc string
	cells      []cell
	inputs     []string
	base       rtable
}

func (f tabFam) n() uint64 {
	n := uint64(1)
	for _, c := range f.cells {
		n *= uint64(len(c.opt) + 1)
	}
	return n
}
func (f tabFam) at(i uint64) rtable {
	t := rtable{}
	for k, v := range f.base {
		t[k] = v
	}
	for _, c := range f.cells {
		k := i % uint64(len(c.opt)+1)
		i /= uint64(len(c.opt) + 1)
		if k == 0 {
			continue
		}
		if t[c.row] == nil {
			t[c.row] = map[byte][]rop{}
		}
		t[c.row][c.key] = c.opt[k-1]
	}
	return t
}

func tabFams(tier string) []tabFam {
	T := func(s string) rop { return rop{t: s} }
	N := func(n int) rop { return rop{nt: true, n: n} }
	full := []rop{T("a"), T("b"), T("ab"), N(0), N(1), N(-2), N(7), N(-3)}
	long := 2
	inLen := 3
	if tier == "thorough" {
		long, inLen = 3, 4
	}
	f := []tabFam{
		{"rows2", fmt.Sprintf("2 rows over columns a and end of input: start entries of length <=2 over terminals, rows 0, 1, the line end, a missing row and an unknown built-in; inputs over a, b, LF of length <=%d", inLen),
			[]cell{{0, 'a', ropSeqs(full, 2)}, {0, 0, ropSeqs([]rop{T("a"), N(0), N(1), N(7), N(-3)}, 1)}, {1, 'a', ropSeqs(full, 1)}, {1, 'b', ropSeqs([]rop{T("b"), N(0), N(-2)}, 1)}, {1, 0, ropSeqs([]rop{N(0), N(-2)}, 1)}},
			allStrings("ab\n", inLen), nil},
		{"lineend", "1 row over columns a, LF, CR, end of input with the built-in line end; all inputs over a, LF, CR of length <=5",
			[]cell{{0, 'a', ropSeqs([]rop{T("a"), N(-2), N(0)}, 3)}, {0, '\n', ropSeqs([]rop{N(-2), N(0), T("\n")}, long)}, {0, '\r', ropSeqs([]rop{N(-2), N(0), T("\r\n"), T("\r")}, 2)}, {0, 0, ropSeqs([]rop{N(-2)}, 1)}},
			allStrings("a\n\r", 5), nil},
		{"bytes", "1 row with entries for 0, 1, 127, 128, 255: terminals of these bytes, inputs over them of length <=3 (column 0 doubles as end of input)",
			[]cell{{0, 0, [][]rop{{}, {T("\x01")}}}, {0, 1, ropSeqs([]rop{T("\x01"), N(0)}, 2)}, {0, 127, ropSeqs([]rop{T("\x7f"), N(0)}, 2)}, {0, 128, ropSeqs([]rop{T("\x80"), T("\x80\xff"), N(0)}, 2)}, {0, 255, ropSeqs([]rop{T("\xff"), T("\xff\x00"), N(0)}, 2)}},
			allStrings("\x00\x01\x7f\x80\xff", 3), nil},
		{"sparse", "start row plus rows with large and negative indices; references to them",
			[]cell{{0, 'a', ropSeqs([]rop{T("a"), N(1000000), N(-1), N(-2), N(-3), N(2)}, 3)}, {1000000, 'a', ropSeqs([]rop{T("a"), N(2)}, 1)}, {1000000, 0, [][]rop{{}}}, {-3, 'a', [][]rop{{T("a")}}}, {-2, 'a', [][]rop{{T("a")}}}, {-1, 'a', [][]rop{{T("a")}}}, {2, 0, [][]rop{{}}}},
			[]string{"", "a", "aa", "aaa", "aaaa", "a\n", "\n", "a\r\n"}, nil},
		{"empty terminal", "2 rows over columns a, b and end of input with terminals of no bytes among the symbols (their leaf is not specified, only acceptance)",
			[]cell{{0, 'a', ropSeqs([]rop{T(""), T("a"), T("b"), N(1), N(-2)}, 3)}, {0, 0, ropSeqs([]rop{T(""), N(1)}, 2)}, {1, 'a', ropSeqs([]rop{T(""), T("a"), N(0)}, 2)}, {1, 0, [][]rop{{}, {T("")}}}, {1, 'b', [][]rop{{T("")}, {T("b"), T("")}}}},
			allStrings("ab\n", 3), nil},
		{"nostart", "tables without a start row, with and without other rows, and empty ones",
			[]cell{{1, 'a', ropSeqs([]rop{T("a"), N(1), N(0)}, 2)}, {-2, 'a', [][]rop{{T("a")}}}, {-1, 0, [][]rop{{}}}, {2, 0, [][]rop{{}}}},
			[]string{"", "a", "\n"}, nil},
	}
	return f
}

// longest: the bytes and symbols of the longest entry, which may all be pushed before the first one fails.
func longest(t rtable) int {
	m := 0
	for _, row := range t {
		for _, ops := range row {
			n := len(ops)
			for _, o := range ops {
				if !o.nt {
					n += len(o.t)
				}
			}
			m = max(m, n)
		}
	}
	return m
}

func tableStep(c *Ctx, t rtable, tbl Table, w string, names map[int]string, nn string) bool {
	r := interpret(t, w)
	if r.diverges {
		c.count("diverging_table_input_pairs_skipped", 1)
		return true
	}
	c.st.Traces++
	c.st.Transitions += int64(r.moves)
	pr := callParse(parser.NewLL1Parser(tbl, names), w, 200_000+1000*int64(r.moves+longest(t)))
	if b := pr.bad(); b != "" {
		c.violate(b, "table", t, "input", fmt.Sprintf("%q", w), "names", nn, "expected", fmt.Sprintf("accept=%v %s", r.ok, r.why))
		return false
	}
	if (pr.err == nil) != r.ok {
		c.violate(fmt.Sprintf("a table is not interpreted as written: want accept=%v (%s), got error %v", r.ok, r.why, pr.err), "table", t, "input", fmt.Sprintf("%q", w), "names", nn)
		return false
	}
	if !r.ok {
		c.out("rejected: " + r.why)
		if pr.node != nil || pr.names != nil {
			c.violate("an error comes together with a tree or names", "table", t, "input", fmt.Sprintf("%q", w))
			return false
		}
		return true
	}
	c.out("accepted")
	if d := diffTree(r.tree, pr.node, "root"); d != "" && !strings.Contains(t.String(), `""`) {
		c.violate("the tree does not follow the table: "+d, "table", t, "input", fmt.Sprintf("%q", w))
		return false
	}
	for k, v := range names {
		if k >= 0 && (pr.names == nil || (*pr.names)[k] != v) {
			c.violate("a name given with the table is missing from the returned names", "table", t, "input", fmt.Sprintf("%q", w), "names", nn)
			return false
		}
	}
	return true
}

func init() {
	register(&Property{ID: "C18", Title: "hand-written tables",
		Rule:   "states are hand-written tables enumerated completely cell by cell (absent, empty, every short symbol sequence), transitions the steps of the reference table interpreter on every listed input; each (table, input) that terminates is executed on the real parser with complete, missing and nil names",
		Assume: append([]string{"tables contain only terminals and nonterminals made with OpTerminal and OpNonTerminal", "a (table, input) pair does not terminate exactly when a row is expanded inside its own expansion with nothing consumed in between; such pairs are skipped"}, commonAssume[1:]...),
		Families: func(tier string) []Family {
			var r []Family
			for _, tf := range tabFams(tier) {
				tf := tf
				r = append(r, Family{Name: tf.name, Desc: tf.desc, N: tf.n(), Chunk: 32, Run: func(c *Ctx, i uint64) {
					t := tf.at(i)
					tbl := t.real()
					c.st.States++
					for _, w := range tf.inputs {
						full := map[int]string{0: "S", 1: "A", 7: "U", -3: "x"}
						if !tableStep(c, t, tbl, w, full, "complete") {
							return
						}
						if len(full) != 4 {
							c.count("names_changed", 1) // subject of C16
						}
						if i%3 == 0 && !tableStep(c, t, tbl, w, nil, "nil") {
							return
						}
						if i%3 == 1 && !tableStep(c, t, tbl, w, map[int]string{1: "A"}, "partial") {
							return
						}
						if i%3 == 2 && !tableStep(c, t, tbl, w, map[int]string{}, "empty") {
							return
						}
					}
					c.sample(func() string { return t.String() })
				}})
			}
			special := []rtable{nil, {}, {0: nil}, {0: {}}, {1: nil}, {1: {}}, {-1: nil}, {0: nil, 1: {'a': {{t: "a"}}}}, {0: {'a': nil}}, {0: {0: nil}}, {0: {'a': {{nt: true, n: 1}}}, 1: nil}, {0: {'a': {{nt: true, n: 1}}}, 1: {}}}
			r = append(r, Family{Name: "special", Desc: "nil and empty tables, nil and empty rows, nil entries x inputs x names", N: uint64(len(special)), Run: func(c *Ctx, i uint64) {
				c.st.States++
				for _, w := range allStrings("a\n\x00", 2) {
					for k, nm := range []map[int]string{nil, {}, {0: "S"}, {5: "x"}} {
						if !tableStep(c, special[i], special[i].real(), w, nm, fmt.Sprint(k)) {
							return
						}
					}
				}
			}})
			r = append(r, Family{Name: "columns", Desc: "S ::= <byte> S under every column byte 1..255 x every input byte", N: 256, Run: func(c *Ctx, i uint64) {
				b := string([]byte{byte(i)})
				t := rtable{0: {byte(i): {{t: b}, {nt: true, n: 1}}}, 1: {0: {}, byte(i): {{t: b}}}}
				tbl := t.real()
				c.st.States++
				for x := 0; x < 256; x++ {
					for _, w := range []string{string([]byte{byte(x)}), b + string([]byte{byte(x)}), b + b + string([]byte{byte(x)})} {
						if !tableStep(c, t, tbl, w, nil, "nil") {
							return
						}
					}
				}
			}})
			// row numbers
			nums := []int{}
			for k := 1; k <= 70; k++ {
				nums = append(nums, k)
			}
			for sh := uint(7); sh <= 62; sh++ {
				v := 1 << sh
				nums = append(nums, v-1, v, v+1, v+v/2)
			}
			nums = append(nums, dictSizes(70, 1<<62)...)
			nums = append(nums, 1<<63-1, 1<<63-2)
			near := []int{0, 1, -1, 2, 256, 65536, 1 << 32}
			r = append(r, Family{Name: "rownumbers", Desc: fmt.Sprintf("rows numbered by %d values (1..70, around every power of two up to the largest int), positive and negative, the row present, absent or replaced by one whose number differs by 0, 1, 2, 256, 65536 or 2^32", len(nums)), N: uint64(len(nums) * 2 * len(near) * 2), Chunk: 8, Run: func(c *Ctx, i uint64) {
				with := i%2 == 0
				i /= 2
				d := near[i%uint64(len(near))]
				i /= uint64(len(near))
				n := nums[i/2]
				if i%2 == 1 {
					n = -n
				}
				t := rtable{0: {'a': {{t: "a"}, {nt: true, n: n}, {t: "c"}}}}
				if with {
					t[n+d] = map[byte][]rop{'b': {{t: "b"}, {nt: true, n: n}}, 'c': {}, '\n': {{t: "\n"}}, '\r': {{t: "\r\n"}}}
				}
				if n+d == 0 {
					t[0]['a'] = []rop{{t: "a"}, {nt: true, n: n}, {t: "c"}}
				}
				c.st.States++
				tbl := t.real()
				for _, w := range []string{"", "a", "ac", "abc", "abbc", "ab", "a\nc", "a\r\nc", "a\rc", "acc", "ax"} {
					for k, nm := range []map[int]string{nil, {n: "n"}, {0: "S", n + 1: "m"}} {
						if !tableStep(c, t, tbl, w, nm, fmt.Sprint(k)) {
							return
						}
					}
				}
			}})
			dw := dictWords()
			r = append(r, Family{Name: "dictionary", Desc: fmt.Sprintf("%d words that occur in the sources under test (and keywords) as names of rows that are there, missing or built in, and as terminals", len(dw)), N: uint64(len(dw)), Chunk: 8, Run: func(c *Ctx, i uint64) {
				x := dw[i]
				c.st.States++
				t := rtable{0: {'a': {{t: "a"}, {nt: true, n: 1}, {nt: true, n: 2}, {nt: true, n: -2}}, 'b': {{t: "b"}, {nt: true, n: 7}}, 'c': {{t: "c"}, {nt: true, n: -3}}, 'd': {}}, 1: {'x': {{t: "x"}}, '\n': {}, '\r': {}}, 2: {'\n': {}, '\r': {}}}
				if x[0] != 0 {
					t[1][x[0]] = []rop{{t: x}}
					if x[0] != '\n' && x[0] != '\r' {
						t[2][x[0]] = []rop{{t: x}, {nt: true, n: 2}}
					}
				}
				tbl := t.real()
				for k, nm := range []map[int]string{nil, {7: x}, {0: x}, {0: x, 1: x, 2: x}, {-1: x, -2: x, -3: x}, {-3: x, 3: x, 7: x, 8: x}} {
					for _, w := range []string{"", "a\n", "ax\r\n", "a" + x + "\n", "a" + x + x + "\r\n", "a" + x, "b", "b\n", "b\r\n", "b" + x, "c", "c\n", "c\r\n", "c" + x, "d", "d\n", x, "a" + x[:len(x)-1] + "\n"} {
						if !tableStep(c, t, tbl, w, nm, fmt.Sprint(k)) {
							return
						}
					}
				}
			}})
			// lengths and depths
			lens := []int{}
			for k := 1; k <= 40; k++ {
				lens = append(lens, k)
			}
			top := 65537
			if tier == "thorough" {
				top = 300_000
			}
			for v := 64; v < top; v *= 2 {
				lens = append(lens, v-1, v, v+1)
			}
			lens = append(lens, dictSizes(40, 200_000)...)
			shapes := []func(n int) (rtable, string){
				func(n int) (rtable, string) { // one terminal of n bytes
					b := make([]byte, n)
					for k := range b {
						b[k] = byte('a' + (k*7+k/11)%25)
					}
					return rtable{0: {'a': {{t: string(b)}, {nt: true, n: 1}}}, 1: {0: {}, 'z': {{t: "z"}}}}, string(b)
				},
				func(n int) (rtable, string) { // one entry of n symbols
					var ops []rop
					w := ""
					var sb strings.Builder
					for k := 0; k < n; k++ {
						switch k % 4 {
						case 0, 2:
							ops = append(ops, rop{t: "ab"})
							sb.WriteString("ab")
						case 1:
							ops = append(ops, rop{nt: true, n: 5})
						case 3:
							ops = append(ops, rop{nt: true, n: -2})
							sb.WriteString("\r\n"[1-k/4%2:])
						}
					}
					w = sb.String()
					return rtable{0: {'a': ops}, 5: {'a': {}, '\n': {}, '\r': {}, 0: {}}}, w
				},
				func(n int) (rtable, string) { // n levels
					return rtable{0: {'(': {{t: "("}, {nt: true, n: 0}, {t: ")"}}, ')': {}, 0: {}}}, strings.Repeat("(", n) + strings.Repeat(")", n)
				},
				func(n int) (rtable, string) { // n line ends
					var sb strings.Builder
					for k := 0; k < n; k++ {
						sb.WriteString([]string{"\n", "\r\n"}[k%3&1])
					}
					return rtable{0: {'\n': {{nt: true, n: -2}, {nt: true, n: 0}}, '\r': {{nt: true, n: -2}, {nt: true, n: 0}}, 0: {}}}, sb.String()
				},
				func(n int) (rtable, string) { // a chain of n rows
					t := rtable{}
					for k := 0; k < n; k++ {
						t[k] = map[byte][]rop{'x': {{nt: true, n: k + 1}}}
					}
					t[n] = map[byte][]rop{'x': {{t: "x"}}}
					return t, "x"
				},
			}
			r = append(r, Family{Name: "lengths", Desc: fmt.Sprintf("a terminal, an entry, a nesting, a run of line ends and a chain of rows of %d lengths up to %d; the sentence, cut, extended and spoiled at its start, middle and end", len(lens), lens[len(lens)-1]), N: uint64(len(lens) * len(shapes)), Chunk: 1, Run: func(c *Ctx, i uint64) {
				n, sh := lens[i/uint64(len(shapes))], i%uint64(len(shapes))
				if sh == 4 && n > 5000 {
					return // quadratic in the reference
				}
				t, w := shapes[sh](n)
				tbl := t.real()
				c.st.States++
				ws := []string{w, w + "z", w + "\x00", w + "\n", w[:len(w)-1], w[1:]}
				for _, at := range []int{0, 1, len(w) / 3, len(w) / 2, len(w) - 2, len(w) - 1} {
					if at >= 0 && at < len(w) {
						ws = append(ws, w[:at]+"\xff"+w[at+1:], w[:at]+w[at+1:], w[:at]+"\x00"+w[at:])
					}
				}
				for _, x := range ws {
					if !tableStep(c, t, tbl, x, nil, "nil") {
						return
					}
				}
			}})
			// a full table: every column of every row filled
			r = append(r, Family{Name: "full", Desc: "rows 0..15 with an entry in all 256 columns, each leading to another row or ending; inputs of every byte and byte pair", N: 256, Chunk: 4, Run: func(c *Ctx, i uint64) {
				t := rtable{}
				for n := 0; n < 16; n++ {
					row := map[byte][]rop{}
					for b := 0; b < 256; b++ {
						switch (b*5 + n*3) % 7 {
						case 0:
							row[byte(b)] = []rop{}
						case 1:
							row[byte(b)] = []rop{{t: string([]byte{byte(b + 1)})}}
						default:
							row[byte(b)] = []rop{{t: string([]byte{byte(b)})}, {nt: true, n: (b + n) % 16}}
						}
					}
					t[n] = row
				}
				tbl := t.real()
				c.st.States++
				for x := 0; x < 256; x++ {
					if !tableStep(c, t, tbl, string([]byte{byte(i), byte(x)}), nil, "nil") {
						return
					}
					if !tableStep(c, t, tbl, string([]byte{byte(i), byte(x), byte(x + int(i)), byte(i * 3)}), nil, "nil") {
						return
					}
				}
			}})
			return r
		}})
}
