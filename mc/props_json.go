package main

// C19: the JSON example: its shipped grammar in-process, and the built program.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/TooManySugar/ll1parser/pkg/parser"
)

// jsonDev: the deviations of the shipped grammar this check knows how to
// allow for; each is reported as a finding of its own.
type jsonDev struct {
	hex3    bool // \u takes three hex digits
	emptyWS bool // white space in an empty array is refused
}

// ---- reference: an independent JSON scanner over the documented characters ----

type jsonRef struct {
	jsonDev
	s    string
	i    int
	keys []string // indented
	deep int
}

func (j *jsonRef) ws() {
	for j.i < len(j.s) {
		switch {
		case j.s[j.i] == ' ' || j.s[j.i] == '\n':
			j.i++
		case j.s[j.i] == '\r' && j.i+1 < len(j.s) && j.s[j.i+1] == '\n':
			j.i += 2
		default:
			return
		}
	}
}

func (j *jsonRef) eat(c byte) bool {
	if j.i < len(j.s) && j.s[j.i] == c {
		j.i++
		return true
	}
	return false
}

func (j *jsonRef) str() (string, bool) {
	if !j.eat('"') {
		return "", false
	}
	b := j.i
	for j.i < len(j.s) {
		c := j.s[j.i]
		j.i++
		switch {
		case c == '"':
			return j.s[b : j.i-1], true
		case c < 0x20 || c > 0x7e:
			return "", false
		case c == '\\':
			if j.i >= len(j.s) {
				return "", false
			}
			e := j.s[j.i]
			j.i++
			if e == 'u' {
				n := 4
				if j.hex3 {
					n = 3
				}
				for k := 0; k < n; k++ {
					if j.i >= len(j.s) || !strings.Contains("0123456789abcdefABCDEF", j.s[j.i:j.i+1]) {
						return "", false
					}
					j.i++
				}
			} else if strings.IndexByte(`"\/bfnrt`, e) < 0 {
				return "", false
			}
		}
	}
	return "", false
}

func (j *jsonRef) digits() int {
	n := 0
	for j.i < len(j.s) && isDigit(j.s[j.i]) {
		j.i++
		n++
	}
	return n
}

func (j *jsonRef) value() bool {
	if j.i >= len(j.s) {
		return false
	}
	switch c := j.s[j.i]; {
	case c == '{':
		j.i++
		j.deep++
		defer func() { j.deep-- }()
		j.ws()
		if j.eat('}') {
			return true
		}
		for {
			k, ok := j.str()
			if !ok {
				return false
			}
			j.keys = append(j.keys, strings.Repeat("  ", j.deep)+k)
			j.ws()
			if !j.eat(':') {
				return false
			}
			j.ws()
			if !j.value() {
				return false
			}
			j.ws()
			if j.eat('}') {
				return true
			}
			if !j.eat(',') {
				return false
			}
			j.ws()
		}
	case c == '[':
		j.i++
		j.deep++
		defer func() { j.deep-- }()
		b := j.i
		j.ws()
		if j.eat(']') {
			return !j.emptyWS || j.i == b+1
		}
		for {
			if !j.value() {
				return false
			}
			j.ws()
			if j.eat(']') {
				return true
			}
			if !j.eat(',') {
				return false
			}
			j.ws()
		}
	case c == '"':
		_, ok := j.str()
		return ok
	case c == '-' || isDigit(c):
		j.eat('-')
		if !j.eat('0') && j.digits() == 0 {
			return false
		}
		if j.eat('.') && j.digits() == 0 {
			return false
		}
		if j.eat('e') || j.eat('E') {
			if !j.eat('+') {
				j.eat('-')
			}
			return j.digits() > 0
		}
		return true
	default:
		for _, w := range []string{"true", "false", "null"} {
			if strings.HasPrefix(j.s[j.i:], w) {
				j.i += len(w)
				return true
			}
		}
		return false
	}
}

// readJSON: valid document and its keys, indented.
func readJSON(s string, d jsonDev) ([]string, bool) {
	j := &jsonRef{s: s, jsonDev: d}
	j.ws()
	if !j.value() {
		return nil, false
	}
	j.ws()
	return j.keys, j.i == len(s)
}

// inScope: printable ASCII, space, LF, CRLF
func inScope(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '\r' && i+1 < len(s) && s[i+1] == '\n' || c == '\n' {
			continue
		}
		if c < 0x20 || c > 0x7e {
			return false
		}
	}
	return true
}

type jsonChain struct {
	p   parser.LL1Parser
	bad string
	dev jsonDev
}

var theJSON *jsonChain

func getJSON(c *Ctx) *jsonChain {
	if theJSON == nil {
		fe := getFE(c)
		if fe == nil {
			return nil
		}
		ch := chain(fe, jsonBNFText())
		theJSON = &jsonChain{p: ch.p}
		if ch.p == nil {
			theJSON.bad = ch.stage + ": " + ch.bad + ch.err
		} else {
			acc := func(d string) bool {
				pr := callParse(ch.p, d, 10_000_000)
				return pr.err == nil && pr.bad() == ""
			}
			theJSON.dev.hex3 = acc(`"\u123"`) && acc(`"\u123z"`) && !acc(`"\u12"`) && !acc(`"\u12z"`)
			theJSON.dev.emptyWS = !acc("[ ]") && !acc("[\n]") && acc("[]") && acc("[ 0 ]")
		}
	}
	if theJSON.bad != "" {
		c.violate("the shipped JSON grammar gives no parser: " + theJSON.bad)
		return nil
	}
	if !c.seen["json"] {
		c.seen["json"] = true
		if theJSON.dev.hex3 {
			c.finding("json.bnf-escape-three-hex-digits", "the JSON example accepts \\u escapes with three hex digits", "document", `"\u123"`)
		}
		if theJSON.dev.emptyWS {
			c.finding("json.bnf-white-space-in-empty-array", "the JSON example refuses white space in an empty array", "document", "[ ]")
		}
	}
	return theJSON
}

func jsonCheck(c *Ctx, doc string) bool {
	if !inScope(doc) {
		c.count("out_of_scope_skipped", 1)
		return true
	}
	j := getJSON(c)
	if j == nil {
		return false
	}
	_, want := readJSON(doc, jsonDev{})
	if len(doc) < 9000 && want != json.Valid([]byte(doc)) {
		c.internal("the reference disagrees with encoding/json on %q", doc)
		return false
	}
	if _, dev := readJSON(doc, j.dev); dev != want {
		c.out("known deviation")
		want = dev
	}
	c.st.States++
	c.st.Transitions++
	c.st.Traces++
	pr := callParse(j.p, doc, int64(2_000_000+40_000*len(doc)))
	if b := pr.bad(); b != "" {
		c.violate(b, "document", clip(doc))
		return false
	}
	if want != (pr.err == nil) {
		if want {
			c.violate("a valid JSON document is refused: "+pr.err.Error(), "document", clip(doc))
		} else {
			c.violate("a text that is not JSON is accepted", "document", clip(doc))
		}
		return false
	}
	if want {
		c.out("valid, accepted")
	} else {
		c.out("invalid, refused")
	}
	return true
}

// ---- the built program ----------------------------------------------------------

type jsonProg struct {
	dir, bin string
	header   string
}

var theProg *jsonProg

func (p *jsonProg) run(c *Ctx, doc string) (stdout string, code int, ok bool) {
	must(os.WriteFile(filepath.Join(p.dir, "test.json"), []byte(doc), 0o644))
	cmd := exec.Command(p.bin)
	cmd.Dir = p.dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	must(cmd.Start())
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !t.Stop() {
		c.violate("the JSON example does not finish", "document", clip(doc))
		return "", 0, false
	}
	code = 0
	if err != nil {
		code = cmd.ProcessState.ExitCode()
		if code == 2 && strings.Contains(se.String(), "goroutine ") || code < 0 {
			c.violate("the JSON example crashes", "document", clip(doc), "stderr", clip(se.String()))
			return "", 0, false
		}
	}
	return so.String(), code, true
}

func getProg(c *Ctx) *jsonProg {
	if theProg == nil {
		cwd, _ := os.Getwd()
		p := &jsonProg{dir: filepath.Join(cwd, fmt.Sprintf("json%d", os.Getpid())), bin: os.Getenv("MC_JSON")}
		must(os.MkdirAll(p.dir, 0o755))
		must(os.WriteFile(filepath.Join(p.dir, "json.bnf"), []byte(jsonBNFText()), 0o644))
		out, code, ok := p.run(c, "0")
		if !ok {
			return nil
		}
		if code != 0 {
			c.violate("the JSON example refuses the document 0")
			return nil
		}
		p.header = out
		theProg = p
	}
	return theProg
}

func progCheck(c *Ctx, doc string) bool {
	if !inScope(doc) {
		c.count("out_of_scope_skipped", 1)
		return true
	}
	p := getProg(c)
	if p == nil {
		return false
	}
	j := getJSON(c)
	if j == nil {
		return false
	}
	keys, want := readJSON(doc, j.dev)
	out, code, ok := p.run(c, doc)
	if !ok {
		return false
	}
	c.st.States++
	c.st.Traces++
	c.st.Transitions += int64(len(keys))
	if want != (code == 0) {
		c.violate(fmt.Sprintf("exit status %d for a document that is valid JSON: %v", code, want), "document", clip(doc), "stdout", clip(out))
		return false
	}
	if !want {
		c.out("invalid, error exit")
		return true
	}
	exp := p.header
	for _, k := range keys {
		exp += k + "\n"
	}
	if out != exp {
		c.violate("the keys are not listed once, in order, indented by depth", "document", clip(doc), "expected", clip(exp), "printed", clip(out))
		return false
	}
	if len(keys) > 0 {
		c.out("keys listed")
	} else {
		c.out("no keys")
	}
	return true
}

// every JSON value with n nodes: containers and scalars over all shapes
type jshape struct {
	sh   []*shape
	n    int
	code uint64
}

func jsonValues(n int) (uint64, func(i uint64, style int) string) {
	shapes := forestsOf(n - 1)
	type lab struct{ cnt uint64 }
	scalars := []string{`0`, `"s"`, `true`, `[]`, `{}`, `"{\"k\":[1]}"`, `-1.5e+3`, `null`}
	const nl = 8
	counts := make([]uint64, len(shapes))
	tot := uint64(0)
	var cnt func(s []*shape) uint64
	cnt = func(s []*shape) uint64 {
		if len(s) == 0 {
			return nl
		}
		r := uint64(2)
		for _, k := range s {
			r *= cnt(k.kids)
		}
		return r
	}
	if n > 4 {
		scalars = []string{`0`, `"s"`, `{}`}
	}
	if n > 5 {
		scalars = []string{`0`}
	}
	m := uint64(len(scalars))
	cnt = func(s []*shape) uint64 {
		if len(s) == 0 {
			return m
		}
		r := uint64(2)
		for _, k := range s {
			r *= cnt(k.kids)
		}
		return r
	}
	for i, s := range shapes {
		counts[i] = cnt(s)
		tot += counts[i]
	}
	keys := []string{`a`, ``, `b c`, `\"`, `k1`, `\u00e9\n`, `{`, `a`, `,:"`[:2], `  x`, `\\`}
	return tot, func(i uint64, style int) string {
		k := 0
		for i >= counts[k] {
			i -= counts[k]
			k++
		}
		sp := [][4]string{{"", "", "", ""}, {" ", "\n", "  ", "\r\n"}, {"\r\n ", "", "\n\n", " "}}[style%3]
		nk := style / 3
		var rec func(kids []*shape) string
		rec = func(kids []*shape) string {
			if len(kids) == 0 {
				s := scalars[i%m]
				i /= m
				if sp[0] != "" && (s == "[]" || s == "{}") {
					s = s[:1] + sp[1] + s[1:]
				}
				return s
			}
			obj := i%2 == 0
			i /= 2
			var parts []string
			for _, k := range kids {
				x := ""
				if obj {
					x = `"` + keys[nk%len(keys)] + `"` + sp[0] + ":" + sp[1]
					nk++
				}
				parts = append(parts, x+rec(k.kids))
			}
			o, cl := "[", "]"
			if obj {
				o, cl = "{", "}"
			}
			return o + sp[2] + strings.Join(parts, sp[3]+","+sp[0]) + sp[1] + cl
		}
		return sp[3] + rec(shapes[k]) + sp[1]
	}
}

var jsonCover = []struct{ pre, post string }{
	{"", ""}, {"", " 0"}, {" ", ""}, {"\n", "1"}, {"[", "]"}, {"[1", "]"}, {"[1,", "]"}, {"[1, ", "2]"}, {"[ ", "]"}, {"[\"a\" ", "]"}, {"{", "}"}, {"{ ", "\"a\":1}"}, {"{\"a\"", ":1}"}, {"{\"a\" ", ":1}"},
	{"{\"a\":", "1}"}, {"{\"a\": ", "}"}, {"{\"a\":1", "}"}, {"{\"a\":1 ", "}"}, {"{\"a\":1,", "\"b\":2}"}, {"{\"a\":[", "]}"}, {"{\"a\":1, ", "}"}, {"\"", "\""}, {"\"a", "\""}, {"\"\\", "\""}, {"\"\\u", "000\""}, {"\"\\u0", "A0\""}, {"\"\\uF0", "f\""}, {"\"\\u00a", "\""},
	{"\"\\u1234", "\""}, {"{\"", "\":0}"}, {"{\"\\", "\":0}"}, {"-", "1"}, {"0", ""}, {"0.", "1"}, {"1", "2"}, {"1.5", ""}, {"10", ".0"}, {"1e", "1"}, {"1E+", "0"}, {"1e-1", ""}, {"-0.0e", "9"}, {"t", "ue"}, {"tr", "e"}, {"tru", ""}, {"true", ""}, {"f", "lse"}, {"fals", ""}, {"n", "ll"}, {"nul", ""}, {"nu", "l"}, {"fa", "se"},
	{"[true", "]"}, {"[[", "]]"}, {"[[]", "]"}, {"[{}", "]"}, {"{\"a\":{}", "}"}, {"{\"a\":\"b\"", "}"}, {"0 ", ""}, {"\"\"", ""}, {"[]", ""}, {"{}", "\n"}, {"[0\r", "\n]"}, {"[1\r\n", "]"}}

func init() {
	printable := "\n\r"
	for x := byte(0x20); x < 0x7f; x++ {
		printable += string([]byte{x})
	}
	register(&Property{ID: "C19", Title: "JSON example",
		Rule:   "states are documents: every word of JSON tokens, numbers and strings up to a length (dead prefixes cut by the reference), every byte (pair) in every context of a cover, every JSON value up to a number of nodes, sizes; transitions are tokens or bytes. Every document is parsed by the real chain with the shipped json.bnf and compared with an own scanner (itself compared with encoding/json); the built example program is run on the value and mutation families, exit status and printed keys compared",
		Assume: []string{"documents of printable ASCII, space, LF and CRLF only", "duplicate keys are listed as often as they occur", "lines printed before the keys are those printed for the document 0"},
		Families: func(tier string) []Family {
			thorough := tier == "thorough"
			var fams []Family
			q := func(t, d int) int {
				if thorough {
					return t
				}
				return d
			}
			toks := []string{"{", "}", "[", "]", ",", ":", `"a"`, `""`, "0", "-1", "true", "null", " ", "\r\n"}
			for l := 1; l <= q(7, 6); l++ {
				l := l
				fams = append(fams, Family{Name: fmt.Sprintf("tokens%d", l), Desc: fmt.Sprintf("every sequence of %d tokens out of %d, cut at the first token that makes the text dead", l, len(toks)), N: product64(len(toks), l), Chunk: 256, Run: func(c *Ctx, i uint64) {
					var parts []string
					for k := 0; k < l; k++ {
						parts = append(parts, toks[i%uint64(len(toks))])
						i /= uint64(len(toks))
					}
					if l > 2 && jsonDead(parts[:l-1]) {
						c.count("dead_before_last_token", 1)
						return
					}
					jsonCheck(c, strings.Join(parts, ""))
				}})
			}
			sigN := "-019.eE+"
			for l := 1; l <= q(7, 6); l++ {
				l := l
				fams = append(fams, Family{Name: fmt.Sprintf("numbers%d", l), Desc: fmt.Sprintf("every word of %d bytes over %q, alone and in an array", l, sigN), N: product64(len(sigN), l), Chunk: 64, Run: func(c *Ctx, i uint64) {
					w := word(sigN, i, l)
					if jsonCheck(c, w) && l < 6 {
						jsonCheck(c, "["+w+", "+w+"]")
					}
				}})
			}
			sigS := "\\\"u0aFgn/ '"
			for l := 0; l <= q(6, 5); l++ {
				l := l
				fams = append(fams, Family{Name: fmt.Sprintf("strings%d", l), Desc: fmt.Sprintf("every word of %d bytes over %q between quotes, as value and as key", l, sigS), N: product64(len(sigS), l), Chunk: 64, Run: func(c *Ctx, i uint64) {
					w := `"` + word(sigS, i, l) + `"`
					if jsonCheck(c, w) && l < 5 {
						jsonCheck(c, "{"+w+":"+w+"}")
					}
				}})
			}
			np := uint64(len(printable))
			fams = append(fams, Family{Name: "bytes", Desc: fmt.Sprintf("%d contexts x every byte in scope, and every pair of them, followed by nothing or by the context's rest", len(jsonCover)), N: uint64(len(jsonCover)) * np * (np + 1), Chunk: 97, Run: func(c *Ctx, i uint64) {
				x := jsonCover[i/(np*(np+1))]
				i %= np * (np + 1)
				w := printable[i%np : i%np+1]
				if k := i / np; k > 0 {
					w += printable[k-1 : k]
				}
				if jsonCheck(c, x.pre+w+x.post) && len(w) == 1 {
					jsonCheck(c, x.pre+w)
				}
			}})
			hexs := printable
			fams = append(fams, Family{Name: "unicode escapes", Desc: "\\u with every byte at every one of the four places, and one digit too few or too many", N: uint64(4 * len(hexs)), Run: func(c *Ctx, i uint64) {
				p := int(i % 4)
				h := []byte("1aF9")
				h[p] = hexs[i/4]
				for _, d := range []string{`"\u` + string(h) + `"`, `"\u` + string(h[:p+1]) + `"`, `"\u` + string(h) + `0"`, `{"\u` + string(h) + `":"\u` + string(h) + `\u0000"}`} {
					if !jsonCheck(c, d) {
						return
					}
				}
			}})
			for n := 1; n <= q(6, 5); n++ {
				n := n
				tot, at := jsonValues(n)
				fams = append(fams, Family{Name: fmt.Sprintf("values%d", n), Desc: fmt.Sprintf("every JSON value of %d nodes, in 6 layouts and key choices", n), N: tot * 6, Chunk: 32, Run: func(c *Ctx, i uint64) {
					d := at(i/6, int(i%6)*5)
					c.sample(func() string { return fmt.Sprintf("%q", d) })
					jsonCheck(c, d)
				}})
			}
			var sz []int
			for _, n := range litSizes(thorough) {
				if n <= 5000 { // larger ones below, halved to what fits
					sz = append(sz, n)
				}
			}
			big := []func(n int) string{
				func(n int) string { return strings.Repeat("[", n) + strings.Repeat("]", n) },
				func(n int) string { return strings.Repeat(`{"k":`, n) + "0" + strings.Repeat("}", n) },
				func(n int) string { return "[0" + strings.Repeat(",1", n) + "]" },
				func(n int) string { return `{"a":0` + strings.Repeat(`, "b":1`, n) + "}" },
				func(n int) string { return `"` + strings.Repeat(`a\n`, n) + `"` },
				func(n int) string { return "-1" + strings.Repeat("0", n) + "." + strings.Repeat("3", n+1) },
				func(n int) string { return strings.Repeat(" ", n) + "[" + strings.Repeat("\r\n", n) + "]" + strings.Repeat("\n", n) },
				func(n int) string { return strings.Repeat("[", n+1) + strings.Repeat("]", n) },
				func(n int) string { return strings.Repeat(`[{"k": [`, n) + strings.Repeat("] } ]", n) },
			}
			fams = append(fams, Family{Name: "sizes", Desc: fmt.Sprintf("%d shapes (depth, length, strings, numbers, white space) at %d sizes up to %d", len(big), len(sz), sz[len(sz)-1]), N: uint64(len(big) * len(sz)), Run: func(c *Ctx, i uint64) {
				jsonCheck(c, big[i%uint64(len(big))](sz[i/uint64(len(big))]))
			}})
			huge := []int{8191, 8192, 8193, 16383, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131071, 131073}
			huge = append(huge, dictSizes(4097, 150_000)...)
			fams = append(fams, Family{Name: "huge", Desc: fmt.Sprintf("the same shapes at %d sizes up to %d (halved to at most 150000 bytes), whole, with one byte left out and with one byte too many at both ends and in the middle", len(huge), huge[len(huge)-1]), N: uint64(len(big) * len(huge)), Chunk: 1, Run: func(c *Ctx, i uint64) {
				n := huge[i/uint64(len(big))]
				d := big[i%uint64(len(big))](n)
				for len(d) > 150_000 {
					n = n/2 + 1
					d = big[i%uint64(len(big))](n)
				}
				m := len(d) / 2
				for _, x := range []string{d, d[1:], d[:len(d)-1], d[:m] + d[m+1:], d[:m] + "]" + d[m:], d + "]", "]" + d} {
					if !jsonCheck(c, x) {
						return
					}
				}
			}})

			// the program
			for n := 1; n <= q(6, 5); n++ {
				n := n
				styles := uint64(q(6, 4))
				tot, at := jsonValues(n)
				fams = append(fams, Family{Name: fmt.Sprintf("program values%d", n), Desc: fmt.Sprintf("the built example on every JSON value of %d nodes in %d layouts and key choices", n, styles), N: tot * styles, Chunk: 8, Run: func(c *Ctx, i uint64) {
					progCheck(c, at(i/styles, int(i%styles)*4))
				}})
			}
			docs := []string{`{"a": [1, {"b": null}], "c d": "x\u00e9"}`, "[ {\"k\" : {}},\r\n {} , -1.5E+2, \"\\\"\" ]\n", `{"":{"":{"":[]}}}`}
			off := []int{}
			tot := 0
			for _, d := range docs {
				off = append(off, tot)
				tot += len(d) + 1
			}
			muts := []string{"", `"`, ",", ":", "{", "}", "[", "]", "\\", " ", "\n", "0", "a", "\r\n"}
			fams = append(fams, Family{Name: "program edits", Desc: fmt.Sprintf("the built example on %d documents with every deletion, truncation, and insertion of each of %d pieces at every position", len(docs), len(muts)-1), N: uint64(tot), Run: func(c *Ctx, i uint64) {
				k := len(docs) - 1
				for off[k] > int(i) {
					k--
				}
				d, p := docs[k], int(i)-off[k]
				for _, m := range muts {
					if m != "" && !progCheck(c, d[:p]+m+d[p:]) {
						return
					}
				}
				if p < len(d) && !progCheck(c, d[:p]+d[p+1:]) {
					return
				}
				progCheck(c, d[:p])
			}})
			fams = append(fams, Family{Name: "program bytes", Desc: "the built example with every byte in scope in every context of the cover", N: uint64(len(jsonCover)) * np, Chunk: 8, Run: func(c *Ctx, i uint64) {
				x := jsonCover[i%uint64(len(jsonCover))]
				if !thorough && i/uint64(len(jsonCover))%3 != i%3 {
					return
				}
				b := printable[i/uint64(len(jsonCover)):][:1]
				progCheck(c, x.pre+b+x.post)
			}})
			psz := []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600, 1025}
			phuge := append([]int{2049, 4097, 16385, 33000, 66000}, dictSizes(130, 150_000)...)
			dl := []string{}
			for _, w := range dictLiterals() {
				if !strings.ContainsAny(w, "\t\n\r") {
					dl = append(dl, w)
				}
			}
			fams = append(fams, Family{Name: "dictionary", Desc: fmt.Sprintf("%d words that occur in the sources under test (and keywords) as keys, as strings and as bare words", len(dl)), N: uint64(len(dl)), Chunk: 8, Run: func(c *Ctx, i uint64) {
				w := dl[i]
				s := "\"" + strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace(w) + "\""
				_ = progCheck(c, "{"+s+":{"+s+":"+s+"},\"k\":["+s+",{"+s+" : 1}]}") &&
					jsonCheck(c, w) && jsonCheck(c, "["+w+"]") && jsonCheck(c, "{\"a\":"+w+"}") && jsonCheck(c, "{"+w+":1}") && jsonCheck(c, "\""+w+"\"") && progCheck(c, s)
			}})
			fams = append(fams, Family{Name: "program huge", Desc: fmt.Sprintf("the built example on the same shapes at %d sizes up to %d (nested keys: up to 2049)", len(phuge), phuge[len(phuge)-1]), N: uint64(len(big) * len(phuge)), Chunk: 1, Run: func(c *Ctx, i uint64) {
				k, n := i%uint64(len(big)), phuge[i/uint64(len(big))]
				if (k == 1 || k == 8) && n > 2049 {
					n = 2049 - n%7
				}
				d := big[k](n)
				for len(d) > 300_000 {
					n = n/2 + 1
					d = big[k](n)
				}
				if progCheck(c, d) {
					progCheck(c, d[:len(d)-1])
				}
			}})
			fams = append(fams, Family{Name: "program sizes", Desc: fmt.Sprintf("the built example on %d size shapes at %d sizes", len(big), len(psz)), N: uint64(len(big) * len(psz)), Run: func(c *Ctx, i uint64) {
				progCheck(c, big[i%uint64(len(big))](psz[i/uint64(len(big))]))
			}})
			shipped, _ := os.ReadFile("/repo/examples/json/test.json")
			fams = append(fams, Family{Name: "program shipped", Desc: "the built example on the shipped document, with LF and CRLF line ends, and in-process", N: 1, Run: func(c *Ctx, i uint64) {
				lf := strings.ReplaceAll(string(shipped), "\r\n", "\n")
				for _, d := range []string{string(shipped), lf, strings.ReplaceAll(lf, "\n", "\r\n"), lf + "x"} {
					if !jsonCheck(c, d) || !progCheck(c, d) {
						return
					}
				}
			}})
			return fams
		}})
}

// jsonDead: no document starts with these tokens.
func jsonDead(toks []string) bool {
	s := strings.Join(toks, "")
	t := jsonTheory()
	return !t.run(s, true).Prefix
}

var theJSONTheory *Theory

func jsonTheory() *Theory {
	if theJSONTheory == nil {
		theJSONTheory = analyse(jsonGram())
	}
	return theJSONTheory
}
