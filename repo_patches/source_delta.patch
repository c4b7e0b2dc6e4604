From 2dfcdbc7093c3f2dca6a4fddbe6611f080999499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 01/12] fix: a zero byte in the input is not the end of input

The scanner reports 0 at the end of input, so a NUL byte in the input ended
the parse successfully with the rest of the input ignored, and a NUL in a
terminal matched past the end of the input.
---
 pkg/parser/parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index f462f08..61ce625 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -210,6 +210,10 @@ func (s *ll1parserScanner) peek() byte {
 	return s.src[s.offset]
 }
 
+func (s *ll1parserScanner) atEnd() bool {
+	return s.offset >= len(s.src)
+}
+
 func (s *ll1parserScanner) next() {
 	s.offset++
 }
@@ -350,7 +354,7 @@ func (p *realParser) processFunction(f function_t) {
 }
 
 func (p *realParser) processEOS() (cst.Node, *map[int]string, error) {
-	if p.scanner.peek() != byte(0) {
+	if !p.scanner.atEnd() {
 		// fmt.Println("expected end of input got: ", in.Peek())
 		// Parsing error Unexpected EOF
 		return nil, nil, fmt.Errorf("expected end of input got %s",
@@ -372,7 +376,7 @@ func (p *realParser) processEOS() (cst.Node, *map[int]string, error) {
 }
 
 func (p *realParser) processChar(c opChar_t) error {
-	if c.Value() != p.scanner.peek() {
+	if p.scanner.atEnd() || c.Value() != p.scanner.peek() {
 		// Parsing error
 		return fmt.Errorf("expected char %s, got %s",
 		                  charCode(c.Value()),
-- 
2.43.0


From 9692bc4876af59dd367a344bc4852b62eee35206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 02/12] fix: do not write to the caller's naming map while
 parsing

Parse added the built-in names to the map given to NewLL1Parser and returned
a pointer to that same map: the caller's map changed, modifying a result
changed the parser, concurrent parses were a data race (fatal concurrent map
writes), and a nil map made every successful parse panic.
---
 pkg/parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 61ce625..2d773e8 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -368,7 +368,11 @@ func (p *realParser) processEOS() (cst.Node, *map[int]string, error) {
 		return nil, nil, fmt.Errorf("prod stack empty")
 	}
 
-	ret_names := p.names
+	// copy: p.names is shared with the caller and with other parses
+	ret_names := make(map[int]string, len(p.names) + 2)
+	for k, v := range p.names {
+		ret_names[k] = v
+	}
 	ret_names[builtinTerminal] = "_literal"
 	ret_names[builtinNothing]  = "_nothing"
 
-- 
2.43.0


From 320fb5e03acb06362ac0c6dc7fd394dbfa55dcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 03/12] fix: refuse grammars whose alternatives share a
 beginning

A second alternative starting with the same byte (or starting with a byte
that can follow an earlier optional alternative) was appended to the existing
table cell, giving a table for the concatenation of both alternatives, or for
left recursive rules a parser that never stops.
---
 pkg/bnf/tablegen/tablegen.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index 049b9ce..d0cf842 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -346,6 +346,12 @@ func (tg *tableGenerator,
 		}
 
 		for _, term := range seqFirsts.Bytes() {
+			if _, ok := res[byte(term)]; ok {
+				return res,
+					fmt.Errorf("grammar lead to multiple parser op " +
+							"sets per table cell")
+			}
+
 			for _, symbol := range sequence.Symbols {
 				switch v := symbol.(type) {
 				case bnf.SymbolTerminal:
-- 
2.43.0


From d5a74337a74640194e87948714fa33f8696a7045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 04/12] fix: compute follows over the whole rest of a sequence

Only the next symbol was considered: for <A> ::= <B> <C> "d" with optional
<C>, "d" was missing from the follows of <B> and whatever follows <A> was
added instead, so sentences were rejected and LL(1) grammars refused.
---
 pkg/bnf/tablegen/tablegen.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index d0cf842..779d3ed 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -229,14 +229,16 @@ func (tg *tableGenerator,
 		}
 
 		// rule 2
-		// get firsts for next symbol in sequance (can be itself)
-		nextFirsts, err := tg.symbolFirsts(&(*sequence).Symbols[i+1])
+		// get firsts for the rest of sequance after the symbol
+		// (next symbol can be itself)
+		rest := bnf.Sequence{Symbols: (*sequence).Symbols[i+1:]}
+		nextFirsts, err := tg.sequenceFirsts(&rest)
 		if err != nil {
 			return err
 		}
 
 		// rule 4
-		// if next symbol (q) 's firsts contain empty string (Є)
+		// if rest of sequence (q) 's firsts contain empty string (Є)
 		// add to target rule's follows it's firsts w/o empty
 		// and follow set for sequence's rule (A)
 		//
-- 
2.43.0


From 180607551271c25348a2f40a0e2ca683ced4445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 05/12] fix: report malformed grammars instead of panicking or
 ignoring rules

A grammar without rules, an empty terminal, an empty string after a terminal
and a symbol of unknown type made FromGrammar panic; undefined nonterminals
behind a rule deriving nothing, rules defined twice (the first was ignored)
and terminals starting with the end of input byte were accepted.
---
 pkg/bnf/tablegen/tablegen.go | 62 ++++++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index 779d3ed..4f94076 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -34,6 +34,63 @@ func terminalFirsts(t bnf.SymbolTerminal) bs.ByteSet {
 	return bs.New(t.Name[0])
 }
 
+// checkGrammar
+// Reports first thing in grammar which makes it unusable for table generation
+func checkGrammar(g bnf.Grammar) error {
+	if len(g.Rules) == 0 {
+		return errors.New("grammar has no rules")
+	}
+
+	heads := map[string]bool{}
+	for _, name := range collectRuleHeads(g) {
+		if heads[name] {
+			return fmt.Errorf("multiple rules defined for non terminal <%s>",
+				name)
+		}
+		heads[name] = true
+	}
+
+	for _, rule := range g.Rules {
+		for _, sequence := range rule.Tail.Sequences {
+			if len(sequence.Symbols) == 0 {
+				return fmt.Errorf("empty sequence in rule <%s>",
+					rule.Head.Name)
+			}
+			for _, symbol := range sequence.Symbols {
+				switch v := symbol.(type) {
+				case bnf.SymbolTerminal:
+					if len(v.Name) == 0 {
+						return fmt.Errorf(
+							"terminal with empty string check grammar")
+					}
+					if v.Name[0] == EOS {
+						return fmt.Errorf(
+							"terminal can't start with byte %d: "+
+								"reserved for end of input", EOS)
+					}
+
+				case bnf.SymbolNothing:
+					if len(sequence.Symbols) > 1 {
+						return errors.New(
+							"empty string is not a single sequence symbol")
+					}
+
+				case bnf.SymbolNonTerminal:
+					if !heads[v.Name] {
+						return fmt.Errorf(
+							"no rules defined for non terminal <%s>", v.Name)
+					}
+
+				default:
+					return fmt.Errorf("symbol of unknown type: %T", v)
+				}
+			}
+		}
+	}
+
+	return nil
+}
+
 type tableGenerator struct {
 	g         bnf.Grammar
 	ruleCount int
@@ -422,6 +479,11 @@ func FromGrammar(g bnf.Grammar) (table *map[int]map[byte][]parser.ParserOp,
 	rowNames *map[int]string,
 	err error) {
 
+	err = checkGrammar(g)
+	if err != nil {
+		return nil, nil, err
+	}
+
 	ruleHeads := collectRuleHeads(g)
 
 	var tablegen tableGenerator
-- 
2.43.0


From ca33c2f25cc5422cde818f4972c9bace319383fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 06/12] fix: do not print to standard output when refusing a
 grammar

---
 pkg/bnf/tablegen/tablegen.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index 4f94076..4600abd 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -392,8 +392,7 @@ func (tg *tableGenerator,
 			seqFollows := tg.follows[ruleIndex]
 
 			for _, followTerm := range seqFollows.Bytes() {
-				if v, ok := res[byte(followTerm)]; ok {
-					fmt.Println(v)
+				if _, ok := res[byte(followTerm)]; ok {
 					return res,
 						fmt.Errorf("grammar lead to multiple parser op " +
 							"sets per table cell")
-- 
2.43.0


From 059b75b80a39d2d212f47849d63d8d512bd0f118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 07/12] fix: take the escape sequence node type from the
 bindings

It was fixed to 16, its number in the library's own grammar: with bindings
for any other numbering escapes were not decoded, or unrelated nodes were
taken for escapes.
---
 pkg/bnf/fromcst/fromcst.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/bnf/fromcst/fromcst.go b/pkg/bnf/fromcst/fromcst.go
index bb03b31..45fb333 100644
--- a/pkg/bnf/fromcst/fromcst.go
+++ b/pkg/bnf/fromcst/fromcst.go
@@ -88,6 +88,10 @@ type BNFCSTtoASTBindings struct {
 
 	SymbolNonTerminalType int
 
+	// Node of this type inside of terminal contains EscapeCharacterType, full
+	// text of such node is replaced with corresponding value
+	EscapeSequenceType int
+
 	// Content of this type (single character striung) will be used to replace
 	// with corresponding value from EscapeMapping
 	EscapeCharacterType int
@@ -164,7 +168,8 @@ func (b BNFCSTtoASTBindings) parseTerminalName(symbol cst.Node, str string) (str
 	err := lrTraverse(
 		symbol,
 		func(int) bool { return false },
-		func(n int) bool { return n == 16 || n == parser.BuiltinTerminal },
+		func(n int) bool { return n == b.EscapeSequenceType ||
+		                         n == parser.BuiltinTerminal },
 		fOnNode)
 
 	return sb.String(), err
@@ -333,6 +338,7 @@ func SelfCSTtoASTBindings() BNFCSTtoASTBindings {
 		SequencesSymbolType:     9,
 		SymbolTerminalTypes:     []int{11, 12},
 		SymbolNonTerminalType:   18,
+		EscapeSequenceType:      16,
 		EscapeCharacterType:     17,
 		EscapeMapping: map[string]string{
 			`t`: "\t",
-- 
2.43.0


From b93b6c7ce45811fb52d2d174637cfea8076c6c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 08/12] fix: do not reorder the caller's list of ignored node
 types

ToAST sorted the slice of the bindings in place, which also is a data race
when bindings are shared between goroutines.
---
 pkg/bnf/fromcst/fromcst.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/bnf/fromcst/fromcst.go b/pkg/bnf/fromcst/fromcst.go
index 45fb333..57c9429 100644
--- a/pkg/bnf/fromcst/fromcst.go
+++ b/pkg/bnf/fromcst/fromcst.go
@@ -306,6 +306,8 @@ func (b BNFCSTtoASTBindings) parseRule(rule cst.Node, str string) (*bnf.Rule, er
 
 func (b BNFCSTtoASTBindings) ToAST(root cst.Node, str string) (*bnf.Grammar, error) {
 
+	// copy: not to reorder caller's slice
+	b.IgnoreNodeTypes = append([]int{}, b.IgnoreNodeTypes...)
 	sort.Sort(sort.IntSlice(b.IgnoreNodeTypes))
 
 	var res bnf.Grammar
-- 
2.43.0


From 7da37112abf2b22855d53eb1a7e7ea27a62e9acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 09/12] fix: JSON example: unicode escapes have four digits

---
 examples/json/json.bnf | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/json/json.bnf b/examples/json/json.bnf
index 88d4237..e7fd76f 100644
--- a/examples/json/json.bnf
+++ b/examples/json/json.bnf
@@ -13,7 +13,7 @@
 <text> ::= "" | <character> <text>
 <character> ::= <digit> | <letter> | <escape-sequence> | <symbol>
 <escape-sequence> ::= '\\' <escape>
-<escape> ::= '"' | '\\' | '/' | 'b' | 'f' | 'n' | 'r' | 't' | 'u' <hex> <hex> <hex>
+<escape> ::= '"' | '\\' | '/' | 'b' | 'f' | 'n' | 'r' | 't' | 'u' <hex> <hex> <hex> <hex>
 <hex> ::= <digit> | "A" | "B" | "C" | "D" | "E" | "F" | "a" | "b" | "c" | "d" | "e" | "f"
 <number> ::= <integer> <fraction> <exponent>
 <integer> ::= <opt-minus> <unsigned-integer>
-- 
2.43.0


From f869d82143051f2fffe4a077630bff6bed8ce3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 10/12] fix: JSON example: accept whitespace in an empty array

---
 examples/json/json.bnf | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/json/json.bnf b/examples/json/json.bnf
index e7fd76f..cab5252 100644
--- a/examples/json/json.bnf
+++ b/examples/json/json.bnf
@@ -1,6 +1,6 @@
 <json> ::= <element>
 <element> ::= <opt-whitespaced-value>
-<opt-value-list> ::=  "" | <opt-whitespaced-value> <opt-value-list-tail>
+<opt-value-list> ::=  "" | <value> <opt-whitespace> <opt-value-list-tail>
 <opt-value-list-tail> ::= "" | "," <opt-whitespaced-value> <opt-value-list-tail>
 <opt-key-value-list> ::= "" | <key-value> <opt-whitespace> <opt-key-value-list-tail>
 <opt-key-value-list-tail> ::= "" | "," <opt-whitespace> <key-value> <opt-whitespace> <opt-key-value-list-tail>
@@ -8,7 +8,7 @@
 <opt-whitespaced-value> ::= <opt-whitespace> <value> <opt-whitespace>
 <value> ::= <object> | <array> | <string> | <number> | "true" | "false" | "null"
 <object> ::= "{" <opt-whitespace> <opt-key-value-list> "}"
-<array> ::= "[" <opt-value-list> "]"
+<array> ::= "[" <opt-whitespace> <opt-value-list> "]"
 <string> ::= '"' <text> '"'
 <text> ::= "" | <character> <text>
 <character> ::= <digit> | <letter> | <escape-sequence> | <symbol>
-- 
2.43.0


From ebbe8ff3b897e8b636a91314035116fa6078860d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 11/12] Revert "fix: JSON example: accept whitespace in an
 empty array"

This reverts commit f869d82143051f2fffe4a077630bff6bed8ce3ca.
---
 examples/json/json.bnf | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/json/json.bnf b/examples/json/json.bnf
index cab5252..e7fd76f 100644
--- a/examples/json/json.bnf
+++ b/examples/json/json.bnf
@@ -1,6 +1,6 @@
 <json> ::= <element>
 <element> ::= <opt-whitespaced-value>
-<opt-value-list> ::=  "" | <value> <opt-whitespace> <opt-value-list-tail>
+<opt-value-list> ::=  "" | <opt-whitespaced-value> <opt-value-list-tail>
 <opt-value-list-tail> ::= "" | "," <opt-whitespaced-value> <opt-value-list-tail>
 <opt-key-value-list> ::= "" | <key-value> <opt-whitespace> <opt-key-value-list-tail>
 <opt-key-value-list-tail> ::= "" | "," <opt-whitespace> <key-value> <opt-whitespace> <opt-key-value-list-tail>
@@ -8,7 +8,7 @@
 <opt-whitespaced-value> ::= <opt-whitespace> <value> <opt-whitespace>
 <value> ::= <object> | <array> | <string> | <number> | "true" | "false" | "null"
 <object> ::= "{" <opt-whitespace> <opt-key-value-list> "}"
-<array> ::= "[" <opt-whitespace> <opt-value-list> "]"
+<array> ::= "[" <opt-value-list> "]"
 <string> ::= '"' <text> '"'
 <text> ::= "" | <character> <text>
 <character> ::= <digit> | <letter> | <escape-sequence> | <symbol>
-- 
2.43.0


From 4c9ebb57dc345dd7817604b429f45af2b3b5b3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 12/12] Revert "fix: JSON example: unicode escapes have four
 digits"

This reverts commit 7da37112abf2b22855d53eb1a7e7ea27a62e9acb.
---
 examples/json/json.bnf | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/json/json.bnf b/examples/json/json.bnf
index e7fd76f..88d4237 100644
--- a/examples/json/json.bnf
+++ b/examples/json/json.bnf
@@ -13,7 +13,7 @@
 <text> ::= "" | <character> <text>
 <character> ::= <digit> | <letter> | <escape-sequence> | <symbol>
 <escape-sequence> ::= '\\' <escape>
-<escape> ::= '"' | '\\' | '/' | 'b' | 'f' | 'n' | 'r' | 't' | 'u' <hex> <hex> <hex> <hex>
+<escape> ::= '"' | '\\' | '/' | 'b' | 'f' | 'n' | 'r' | 't' | 'u' <hex> <hex> <hex>
 <hex> ::= <digit> | "A" | "B" | "C" | "D" | "E" | "F" | "a" | "b" | "c" | "d" | "e" | "f"
 <number> ::= <integer> <fraction> <exponent>
 <integer> ::= <opt-minus> <unsigned-integer>
-- 
2.43.0

