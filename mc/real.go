package main

// Reference transcriptions of the two grammars the repository documents.

func chars(s string) Body {
	var b Body
	for i := range s {
		b = append(b, alt(s[i:i+1]))
	}
	return b
}

const letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
const bnfSymbols = "| !#$%&()*+,-./:;>=<?@[]^_`{}~"

// bnfGram: the documented BNF notation (header comment of pkg/bnf/selfgrammar.go).
func bnfGram() *Gram {
	names := []string{"syntax", "more-lines", "line", "opt-content", "content", "expression", "expression-tail", "list", "list-tail",
		"term", "literal", "text1", "text2", "character1", "character2", "character", "escape-sequence", "escaped-char", "rule-name",
		"rule-name-tail", "rule-char", "letter", "digit", "symbol", "opt-whitespace", "EOL"}
	ix := map[string]int{}
	for i, n := range names {
		ix[n] = i
	}
	nt := func(n string) int {
		i, ok := ix[n]
		if !ok {
			panic(n)
		}
		return i
	}
	ws := nt("opt-whitespace")
	g := &Gram{Names: names, Rules: []Body{
		body(alt(ws, nt("content"), nt("more-lines"))),
		body(a0, alt(nt("EOL"), nt("line"), nt("more-lines"))),
		body(alt(ws, nt("opt-content"))),
		body(alt(nt("content")), a0),
		body(alt("<", nt("rule-name"), ">", ws, "::=", ws, nt("expression"))),
		body(alt(nt("list"), nt("expression-tail"))),
		body(a0, alt("|", ws, nt("list"), nt("expression-tail"))),
		body(alt(nt("term"), ws, nt("list-tail"))),
		body(a0, alt(nt("term"), ws, nt("list-tail"))),
		body(alt(nt("literal")), alt("<", nt("rule-name"), ">")),
		body(alt(`"`, nt("text1"), `"`), alt("'", nt("text2"), "'")),
		body(a0, alt(nt("character1"), nt("text1"))),
		body(a0, alt(nt("character2"), nt("text2"))),
		body(alt("'"), alt(nt("character"))),
		body(alt(`"`), alt(nt("character"))),
		body(alt(nt("letter")), alt(nt("digit")), alt(nt("symbol")), alt(nt("escape-sequence"))),
		body(alt(`\`, nt("escaped-char"))),
		chars("tnr\"\\"),
		body(alt(nt("letter"), nt("rule-name-tail"))),
		body(a0, alt(nt("rule-char"), nt("rule-name-tail"))),
		body(alt(nt("letter")), alt(nt("digit")), alt("-")),
		chars(letters),
		chars("0123456789"),
		chars(bnfSymbols),
		body(alt(" ", ws), a0),
		body(alt("\n"), alt("\r\n")),
	}}
	return g
}

// jsonGram: a JSON grammar over printable ASCII (own transcription).
func jsonGram() *Gram {
	names := []string{"json", "ws", "value", "object", "members", "more-members", "member", "array", "elements", "more-elements", "string", "text", "char",
		"escape", "hex", "number", "minus", "int", "digits", "frac", "exp", "sign", "digit"}
	ix := map[string]int{}
	for i, n := range names {
		ix[n] = i
	}
	n := func(s string) int { return ix[s] }
	hex := append(chars("ABCDEFabcdef"), alt(n("digit")))
	esc := append(chars("\"\\/bfnrt"), alt("u", n("hex"), n("hex"), n("hex"), n("hex")))
	ch := append(chars(" !#$%&'()*+,-./:;<=>?@[]^_`{|}~"), alt(n("digit")), alt(`\`, n("escape")))
	ch = append(ch, chars(letters)...)
	return &Gram{Names: names, Rules: []Body{
		body(alt(n("ws"), n("value"), n("ws"))),
		body(a0, alt(" ", n("ws")), alt("\n", n("ws")), alt("\r\n", n("ws"))),
		body(alt(n("object")), alt(n("array")), alt(n("string")), alt(n("number")), alt("true"), alt("false"), alt("null")),
		body(alt("{", n("ws"), n("members"), "}")),
		body(a0, alt(n("member"), n("more-members"))),
		body(a0, alt(",", n("ws"), n("member"), n("more-members"))),
		body(alt(n("string"), n("ws"), ":", n("ws"), n("value"), n("ws"))),
		body(alt("[", n("ws"), n("elements"), "]")),
		body(a0, alt(n("value"), n("ws"), n("more-elements"))),
		body(a0, alt(",", n("ws"), n("value"), n("ws"), n("more-elements"))),
		body(alt(`"`, n("text"), `"`)),
		body(a0, alt(n("char"), n("text"))),
		ch, esc, hex,
		body(alt(n("minus"), n("int"), n("frac"), n("exp"))),
		body(a0, alt("-")),
		append(body(alt("0")), func() Body {
			var b Body
			for _, d := range "123456789" {
				b = append(b, alt(string(d), n("digits")))
			}
			return b
		}()...),
		body(a0, alt(n("digit"), n("digits"))),
		body(a0, alt(".", n("digit"), n("digits"))),
		body(a0, alt("e", n("sign"), n("digit"), n("digits")), alt("E", n("sign"), n("digit"), n("digits"))),
		body(a0, alt("+"), alt("-")),
		chars("0123456789"),
	}}
}

func realGrammars() []*Gram { return []*Gram{bnfGram(), jsonGram()} }
