package main

// An independent reader of the BNF notation: an explicit automaton written
// from the documentation, and an independent printer.

import (
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
)

type bstate int

const (
	bFirst  bstate = iota // start of the first line: a rule must come
	bLine                 // start of a later line (or after spaces on it)
	bHead0                // after '<' of a rule head
	bHead                 // inside the head name
	bAfter                // after the head's '>'
	bDef1                 // after ':'
	bDef2                 // after '::'
	bAlt                  // an alternative must start
	bName0                // after '<' of a symbol
	bName                 // inside a symbol name
	bTerm                 // after a symbol
	bDq                   // inside "..."
	bDqEsc                // after a backslash inside "..."
	bSq                   // inside '...'
	bSqEsc                // after a backslash inside '...'
	bCR                   // after CR
	bDead
)

// what completes a text in each state
var bClose = map[bstate]string{bFirst: "<k>::=k"[:6] + "''", bLine: "", bHead0: "k>::=''", bHead: ">::=''", bAfter: "::=''", bDef1: ":=''", bDef2: "=''",
	bAlt: "''", bName0: "k>", bName: ">", bTerm: "", bDq: "\"", bDqEsc: "n\"", bSq: "'", bSqEsc: "t'", bCR: "\n"}

type bnfReader struct {
	st   bstate
	pos  int // bytes consumed before dying
	g    bnf.Grammar
	name []byte
	lit  []byte
}

func isLetter(c byte) bool { return c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' }
func isDigit(c byte) bool  { return c >= '0' && c <= '9' }

func (r *bnfReader) alts() *[]bnf.Sequence { return &r.g.Rules[len(r.g.Rules)-1].Tail.Sequences }
func (r *bnfReader) symbol(s bnf.Symbol) {
	a := *r.alts()
	a[len(a)-1].Symbols = append(a[len(a)-1].Symbols, s)
}
func (r *bnfReader) newAlt() { *r.alts() = append(*r.alts(), bnf.Sequence{}) }
func (r *bnfReader) literal() {
	if len(r.lit) == 0 {
		r.symbol(bnf.SymbolNothing{})
	} else {
		r.symbol(bnf.SymbolTerminal{Name: string(r.lit)})
	}
	r.lit = nil
}

func (r *bnfReader) step(c byte) {
	die := func() { r.st = bDead }
	startTerm := func() bool {
		switch c {
		case '<':
			r.st, r.name = bName0, nil
		case '"':
			r.st, r.lit = bDq, nil
		case '\'':
			r.st, r.lit = bSq, nil
		default:
			return false
		}
		return true
	}
	switch r.st {
	case bFirst, bLine:
		switch {
		case c == ' ':
		case c == '<':
			r.st, r.name = bHead0, nil
		case c == '\n' && r.st == bLine:
		case c == '\r' && r.st == bLine:
			r.st = bCR
		default:
			die()
		}
	case bHead0, bName0:
		if !isLetter(c) {
			die()
			return
		}
		r.name = append(r.name, c)
		r.st++
	case bHead:
		switch {
		case isLetter(c) || isDigit(c) || c == '-':
			r.name = append(r.name, c)
		case c == '>':
			r.g.Rules = append(r.g.Rules, bnf.Rule{Head: bnf.SymbolNonTerminal{Name: string(r.name)}})
			r.st = bAfter
		default:
			die()
		}
	case bName:
		switch {
		case isLetter(c) || isDigit(c) || c == '-':
			r.name = append(r.name, c)
		case c == '>':
			r.symbol(bnf.SymbolNonTerminal{Name: string(r.name)})
			r.st = bTerm
		default:
			die()
		}
	case bAfter:
		switch c {
		case ' ':
		case ':':
			r.st = bDef1
		default:
			die()
		}
	case bDef1:
		if c != ':' {
			die()
			return
		}
		r.st = bDef2
	case bDef2:
		if c != '=' {
			die()
			return
		}
		r.st = bAlt
		r.newAlt()
	case bAlt:
		if c != ' ' && !startTerm() {
			die()
		}
	case bTerm:
		switch {
		case c == ' ':
		case c == '|':
			r.newAlt()
			r.st = bAlt
		case c == '\n':
			r.st = bLine
		case c == '\r':
			r.st = bCR
		case startTerm():
		default:
			die()
		}
	case bCR:
		if c != '\n' {
			die()
			return
		}
		r.st = bLine
	case bDq, bSq:
		q, o := byte('"'), byte('\'')
		if r.st == bSq {
			q, o = o, q
		}
		switch {
		case c == q:
			r.literal()
			r.st = bTerm
		case c == '\\':
			r.st++
		case c == o || isLetter(c) || isDigit(c) || strings.IndexByte("| !#$%&()*+,-./:;>=<?@[]^_`{}~", c) >= 0:
			r.lit = append(r.lit, c)
		default:
			die()
		}
	case bDqEsc, bSqEsc:
		i := strings.IndexByte("tnr\"\\", c)
		if i < 0 {
			die()
			return
		}
		r.lit = append(r.lit, "\t\n\r\"\\"[i])
		r.st--
	}
	if r.st != bDead {
		r.pos++
	}
}

func readBNF(text string) *bnfReader {
	r := &bnfReader{}
	for i := 0; i < len(text) && r.st != bDead; i++ {
		r.step(text[i])
	}
	return r
}

func (r *bnfReader) accepts() bool { return r.st == bLine || r.st == bTerm }
func (r *bnfReader) viable() bool  { return r.st != bDead }

// ---- printer ------------------------------------------------------------------

// writings: every way the notation can write a literal.
func writings(content string) []string {
	var out []string
	for _, q := range []byte{'"', '\''} {
		cur := []string{string([]byte{q})}
		for i := 0; i < len(content); i++ {
			var opts []string
			switch c := content[i]; c {
			case '\t':
				opts = []string{`\t`}
			case '\n':
				opts = []string{`\n`}
			case '\r':
				opts = []string{`\r`}
			case '\\':
				opts = []string{`\\`}
			case '"':
				opts = []string{`\"`}
				if q == '\'' {
					opts = append(opts, `"`)
				}
			case '\'':
				if q == '"' {
					opts = []string{`'`}
				}
			default:
				opts = []string{string([]byte{c})}
			}
			var nxt []string
			for _, a := range cur {
				for _, o := range opts {
					nxt = append(nxt, a+o)
				}
			}
			cur = nxt
		}
		for _, a := range cur {
			out = append(out, a+string([]byte{q}))
		}
	}
	return out
}

// expressible literal content?
func expressible(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 0x20 && c < 0x7f || c == '\t' || c == '\n' || c == '\r') {
			return false
		}
	}
	return true
}

// writeGram: the grammar as BNF text; style selects among equivalent writings
// of literals, spacing and line ends, so that all styles occur.
func writeGram(g bnf.Grammar, style uint64) string {
	next := func(n uint64) uint64 {
		r := style % n
		style = style*6364136223846793005 + 1442695040888963407
		style ^= style >> 29
		return r
	}
	var sb strings.Builder
	eol := []string{"\n", "\r\n"}[next(2)]
	sp := func(min int) {
		n := int(next(3))
		if n < min {
			n = min
		}
		if style%5 == 0 {
			n = min
		}
		sb.WriteString("  "[:n])
	}
	for i, r := range g.Rules {
		if i > 0 {
			sb.WriteString(eol)
			if next(5) == 0 {
				sb.WriteString(eol)
			}
		}
		sp(0)
		sb.WriteString("<" + r.Head.Name + ">")
		sp(0)
		sb.WriteString("::=")
		for j, a := range r.Tail.Sequences {
			if j > 0 {
				sp(0)
				sb.WriteString("|")
			}
			for _, s := range a.Symbols {
				sp(0)
				switch v := s.(type) {
				case bnf.SymbolNonTerminal:
					sb.WriteString("<" + v.Name + ">")
				case bnf.SymbolTerminal:
					w := writings(v.Name)
					sb.WriteString(w[next(uint64(len(w)))])
				default:
					sb.WriteString([]string{`""`, `''`}[next(2)])
				}
			}
		}
		sp(0)
	}
	if next(3) == 0 {
		sb.WriteString(eol)
	}
	return sb.String()
}
