#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
TG="pkg/bnf/tablegen/tablegen.go"; PA="pkg/parser/parser.go"; FC="pkg/bnf/fromcst/fromcst.go"
AST="pkg/bnf/ast.go"; SG="pkg/bnf/selfgrammar.go"; CST="pkg/cst/cst.go"; BS="pkg/bnf/tablegen/byteset/byteset.go"
JB="examples/json/json.bnf"; JM="examples/json/main.go"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","A generated parser accepts exactly the language of its grammar",
 "For every well-formed LL(1) grammar for which a parsing table is generated, a parser built from that table accepts an input byte string if and only if the grammar derives exactly that whole string from its first rule. This holds for every byte value in terminals and inputs (a zero byte inside the input is an ordinary byte that never counts as end of input), for optional parts in any combination and position, and at any grammar or input size; no input makes the parser panic.",
 ["inputs","programs"],"every LL(1) grammar and every input byte string",
 "The tests parse some ten sentences of four fixed grammars; nullable chains, bytes >= 0x80, NUL bytes, multi-rule FOLLOW interactions and longer inputs are never exercised.",
 [TG,PA,BS],
 [("FIRST fixpoint",TG+":findFirsts/sequenceFirsts"),("FOLLOW fixpoint",TG+":findFollows/ruleFollowsInSequence"),("table rows",TG+":makeTableRow"),("table-driven machine",PA+":realParser.parse/processTableNonTerminal/processChar/processEOS")],
 [("firsts/follows","FIRST and FOLLOW byte sets per rule, 0 = end of input",TG),("opStack","pending grammar symbols",PA)],
 ["tablegen.FromGrammar","LL1Parser.Parse: error or not"])

p("C02","The parse tree is the derivation of the input",
 "When parsing succeeds, the returned tree is the unique leftmost derivation of the input by the grammar: the root is the first rule covering the whole input; every nonterminal node carries its rule's index and its children are the symbols of one alternative in order, tiling the node's byte span without gap or overlap; every terminal is a single leaf spanning exactly its own text. A nonterminal that derives the empty string is a node with an empty span at the current position and exactly one child, the 'nothing' leaf.",
 ["inputs","programs"],"every LL(1) grammar and every sentence of it, including empty and deeply nested derivations",
 "Trees are compared for a handful of very small inputs; nothing covers spans of empty nodes, multi-byte terminals in the middle, or deep and wide trees in general.",
 [PA,CST,TG],
 [("reduction records pushed under each expansion",PA+":processTableNonTerminal/opFunction"),("tree assembly",PA+":processFunction"),("terminal leaf",PA+":processTerminal/processChar")],
 [("prodStack","finished subtrees waiting for their parent",PA)],
 ["LL1Parser.Parse: cst.Node Type/Pos/End/Childs"])

p("C03","Every grammar that is not LL(1) is refused",
 "If two alternatives of one rule of a grammar can both be chosen on the same next byte (or at end of input) according to the grammar's FIRST and FOLLOW sets, table generation returns an error and no table. This covers clashes between two beginnings, between a beginning and what may follow an optional part, and between two optional alternatives, regardless of the order in which rules and alternatives are written, and hence every productive left-recursive grammar.",
 ["programs"],"every well-formed grammar with a lookahead conflict, under every order of rules and alternatives",
 "One test (which fails at the base commit) tries one left-recursive grammar; no test samples other conflict kinds or orders.",
 [TG],
 [("cell occupancy check",TG+":makeTableRow"),("FOLLOW of optional alternatives",TG+":findFollows")],
 None,["tablegen.FromGrammar error"])

p("C04","Every LL(1) grammar gets a table",
 "For every well-formed grammar in which no rule has two alternatives selectable on the same lookahead, table generation succeeds. In particular optional symbols next to each other, repeated symbols, unused rules, rules used before they are written, recursion that is not left recursion and rules that derive nothing else do not cause a refusal.",
 ["programs"],"every well-formed grammar without a lookahead conflict",
 "Tests build tables for four fixed grammars; an over-approximated FOLLOW set or an over-eager check shows only on other grammars.",
 [TG],
 [("FIRST/FOLLOW exactness",TG+":ruleFollowsInSequence"),("error returns",TG+":makeTableRow")],
 None,["tablegen.FromGrammar error"])

p("C05","Malformed grammars are refused with an error, never a panic or a table",
 "Table generation returns an error and no table, and does not panic, whenever a grammar has no rules, has two rules with the same name, mentions a nonterminal that has no rule (anywhere, even in a position that can never be reached), contains an alternative with no symbols, an empty-string symbol inside a longer alternative, an empty terminal, a terminal starting with the zero byte that stands for end of input, or a symbol of a kind the grammar representation does not define.",
 ["programs"],"every grammar over the symbol kinds of the grammar representation, well-formed or not",
 "No test passes a malformed grammar; several shapes panicked or were silently accepted at the base commit.",
 [TG,AST],
 [("undefined nonterminal / empty symbol errors",TG+":sequenceFirsts/symbolFirsts/makeTableRow"),("upfront validation",TG+":FromGrammar")],
 None,["tablegen.FromGrammar result"])

p("C06","Table and names are the textbook LL(1) table and the rule names",
 "The generated table has one row per rule, and a row has an entry for a lookahead byte exactly when some alternative of the rule is predicted on it: for a byte the alternative can start with, the entry lists that alternative's symbols in order (nonterminals by rule index); for a byte (or end of input) that can follow an alternative deriving the empty string, the entry is empty. The naming map maps each rule index to that rule's name and nothing else, and every successful parse reports that map extended only by the two built-in names for literals and for nothing.",
 ["programs"],"every LL(1) grammar",
 "Reference tables exist for four grammars only.",
 [TG,PA],
 [("row construction",TG+":makeTableRow"),("row names",TG+":FromGrammar/enumerate"),("names returned by a parse",PA+":processEOS")],
 None,["tablegen.FromGrammar table and names","LL1Parser.Parse naming map"])

p("C07","Table generation and parsing always finish, parsing in linear work",
 "Table generation terminates for every grammar. Parsing with any generated table terminates for every input, accepted or not, and the amount of work is bounded by a constant (for the grammar) times the input length; no input makes the parser loop or grow its stack without consuming input.",
 ["inputs","programs"],"every grammar for table generation; every generated table and every input for parsing",
 "Tests run a few short inputs; a loop without progress (e.g. via hidden left recursion) or superlinear work appears only on particular grammars or long inputs.",
 [TG,PA],
 [("fixpoint loops",TG+":findFirsts/findFollows"),("conflict refusal rules out left recursion",TG+":makeTableRow"),("machine loop",PA+":parse")],
 None,["number of statements executed by FromGrammar and Parse"],None)

p("C08","A rejected input is reported at the first byte that cannot continue",
 "When an input is not a sentence, parsing returns no tree, no naming map and an error that shows the first byte of the input that cannot continue any sentence of the grammar (or the end-of-input marker when the input is a proper prefix of a sentence), together with what was expected there: the terminal's byte, the rule name being expanded, or end of input. This holds for grammars in which every rule can derive some string.",
 ["inputs","programs"],"every LL(1) grammar with only productive rules and every non-sentence",
 "Four error messages of one two-rule grammar are tested.",
 [PA,TG],
 [("lookahead miss",PA+":processTableNonTerminal"),("byte mismatch",PA+":processChar"),("trailing input",PA+":processEOS")],
 None,["LL1Parser.Parse error value"])

p("C09","BNF text is read exactly as the documented notation says",
 "A text is accepted by the library's own BNF grammar if and only if it follows the documented notation: rules '<name> ::= alternatives' one per line, '|' between alternatives, quoted literals in either quote style with the documented escapes, names of letters, digits and hyphens starting with a letter, spaces and blank lines where documented, LF or CRLF line ends. The grammar object built from an accepted text has exactly the rules, alternatives and symbols written, in order, with escapes decoded and an empty literal meaning the empty string.",
 ["inputs"],"every text, every byte at every syntactic position",
 "Tests parse one two-line text without looking at the result; escapes, quote styles, blank lines, CRLF and rejected texts are untested.",
 [SG,FC,PA,TG],
 [("self grammar",SG+":SelfGrammar"),("CST to AST conversion",FC+":ToAST/parseRule/parseSymbol/parseTerminalName/parseEscape"),("self bindings",FC+":SelfCSTtoASTBindings")],
 None,["Parse with the self grammar","ToAST result"])

p("C10","Printing a grammar and reading it back gives the same grammar",
 "For every grammar whose names and literals are expressible in the BNF notation (names of letters, digits, hyphens starting with a letter; literals of printable ASCII, tab, LF, CR), its printed form is valid BNF text denoting that grammar, and reading it back yields an equal grammar: same rules, alternatives, symbols and literal contents. This includes literals mixing quotes, backslashes and control characters, and the BNF grammar of the notation itself, which reproduces itself and its table.",
 ["inputs","programs"],"every expressible grammar",
 "No test prints a grammar; one example program round-trips one grammar.",
 [AST,FC,SG,"examples/parseownsyntax/main.go"],
 [("literal quoting and escaping",AST+":SymbolTerminal.String"),("rule and grammar printing",AST+":Rule.String/Grammar.String"),("escape decoding",FC+":parseEscape/EscapeMapping")],
 None,["bnf.Grammar.String","ToAST"])

p("C11","Layout of BNF text does not change the grammar",
 "Optional spaces between tokens, spaces at line starts and ends, blank or space-only lines after the first rule, LF versus CRLF line ends, a trailing line end, and the choice of quote style or of escaping where both denote the same literal never change the grammar object obtained from a BNF text.",
 ["inputs"],"every grammar text and every combination of permitted layout choices",
 "One test text uses a couple of spacings and its result is not inspected.",
 [SG,FC],
 [("optional whitespace and EOL rules",SG),("ignored node types and outermost-match search",FC+":lrTraverse")],
 None,["ToAST result"])

p("C12","Tree-to-grammar conversion follows its bindings, not fixed numbers",
 "Converting a parse tree of BNF-like text into a grammar depends only on the node types named in the supplied bindings: renumbering the notation's rules and the bindings consistently, wrapping nodes in other node types, listing ignored types in any order or adding ignored subtrees outside literal text never changes the result. Rules, alternatives and symbols appear in document order and the first matching head and tail of a rule are used; a rule without head or tail, a symbol that is neither literal nor name, or an unknown escape gives an error instead of a grammar.",
 ["configurations","inputs"],"every consistent renumbering and every bounded edit of a tree",
 "No test converts a tree at all; the one example uses the default numbering only.",
 [FC,CST],
 [("outermost search with ignored types",FC+":lrTraverse/flexVisitor"),("bindings",FC+":BNFCSTtoASTBindings"),("escape node type",FC+":parseTerminalName")],
 None,["ToAST result"])

p("C13","Tree walking visits each node once, in order, and honours pruning",
 "Walking a tree calls the visitor exactly once for every node that is not below a pruned node, parents before children and children left to right; the children of a node are visited with the visitor returned for that node, and a nil visitor prunes exactly that node's subtree. A node reports exactly the type, start, end and children it was created with.",
 ["inputs"],"every tree shape and every choice of pruned nodes and returned visitors",
 "One fixed tree is printed by one visitor that never prunes.",
 [CST],[("Walk",CST+":Walk"),("node accessors",CST+":NewNode")],None,["cst.Walk callbacks"])

p("C14","Byte sets behave as mathematical sets of all 256 byte values",
 "After any sequence of additions and removals a byte set contains exactly the bytes last added and not removed; membership, size, the increasing listing, the hexadecimal rendering, union, equality, subset and superset agree with that set for every byte value. Copies are independent and queries change nothing.",
 ["histories","inputs"],"every operation sequence and every byte value",
 "There are no byte-set tests; grammars in tests use only ASCII bytes so half of the representation is never touched.",
 [BS],[("bit words",BS+":Add/Remove/Contains"),("bit index lookup",BS+":log2pow2n/realBytesF"),("word-wise algebra",BS+":Union/Equal/IsSubSet")],
 [("data","four 64-bit words",BS)],["ByteSet methods"])

p("C15","Only the delivered bytes matter, and reader failures surface",
 "The outcome of a parse depends only on the bytes the source delivers: a string, a byte slice, a buffer and a reader delivering the same bytes in any split of short, empty or final reads give the same tree, names and error. If a reader fails before end of input, parsing returns that failure and no tree even when the bytes so far form a sentence; nil and unsupported sources give an error; the caller's bytes are not modified and a buffer is not consumed.",
 ["fault_sequences","inputs"],"every split of the input into reads, every failure point, every source kind and length",
 "Every test passes a string.",
 [PA],[("source normalisation",PA+":readSource"),("Parse prologue",PA+":Parse")],None,["LL1Parser.Parse with io.Reader"])

p("C16","Calls are independent of history and have no side effects",
 "The result of building a table, building a parser, parsing, converting a tree or printing a grammar depends only on its arguments: no earlier calls (successful or failed, on the same or other parsers), no later changes to previously returned results, and no reuse of input buffers affects it. None of these calls modifies the grammar, table, names, bindings, tree or bytes it is given, and none writes to standard output or standard error.",
 ["histories"],"every sequence of library calls and of modifications of returned values",
 "Each test makes one short call sequence and inspects only final results.",
 [PA,TG,FC,SG,CST],
 [("per-parse state",PA+":Parse/realParser"),("names handed out",PA+":processEOS"),("per-run generator",TG+":FromGrammar"),("bindings handling",FC+":ToAST"),("fresh self grammar",SG+":SelfGrammar")],
 [("names","naming map shared between caller, parser and results",PA)],
 ["results of all exported functions, arguments after the call, stdout/stderr"])

p("C17","Concurrent use gives the same results as sequential use, without data races",
 "Any number of goroutines may use the same parser, the same table, names, grammar, bindings and parse tree at the same time (parsing, building tables, converting, walking, printing, reading returned results); under every interleaving each call returns what it would return alone, nothing panics or deadlocks, and no two calls make conflicting unsynchronised accesses.",
 ["schedules"],"every interleaving of concurrent library calls on shared values",
 "All tests are single-threaded.",
 [PA,TG,FC,CST,SG],
 [("value receivers and per-call state",PA+":ll1parser_t.Parse/realParser"),("names handed out",PA+":processEOS"),("bindings handling",FC+":ToAST"),("immutable lookup table",BS+":lookupTable")],
 [("names","naming map reachable from all parses",PA)],
 ["results of concurrent calls"],None)

p("C18","Hand-written tables are interpreted as written",
 "A parser built from any hand-written table that terminates expands each nonterminal by the entry for the next byte, matches terminals byte by byte, treats the built-in line-end nonterminal as LF or CRLF, and accepts only when the whole input is consumed. A missing row, a missing entry, an unknown built-in, an empty table or a table without the start row is an error, never a panic; names missing from the naming map (even a nil map) do not prevent parsing.",
 ["configurations","inputs"],"every small hand-written table and every input",
 "One hand-written table and one input are tested; the built-in line end and all error paths are not.",
 [PA],[("nonterminal dispatch",PA+":processNonTerminal/processTableNonTerminal"),("built-in line end",PA+":processBuiltinNonTerminal"),("start checks",PA+":Parse")],None,["LL1Parser.Parse"])

p("C19","The JSON example reads JSON and lists its keys",
 "With the shipped JSON grammar, the JSON example accepts a document of printable ASCII characters and space/line-end whitespace (space, LF, CRLF) if and only if it is valid JSON. For an accepted document it prints every object key as written exactly once, in document order, indented by two spaces for every enclosing object or array; a document that is not accepted makes it end with an error.",
 ["inputs"],"every JSON and non-JSON text over printable ASCII, space, LF and CRLF",
 "The example has no tests and ships one document.",
 [JB,JM,PA,TG,FC],[("JSON grammar",JB),("key visitor",JM+":keyPrintingVisitor")],None,["example output and exit status"])

p("C20","A parser made from BNF text recognises the language the text denotes",
 "Taking a grammar as BNF text through reading, conversion, table generation and parsing gives a parser that accepts exactly the strings the written grammar derives, with trees whose nodes are numbered and named by the order of the written rules; if the written grammar is not LL(1), mentions an unwritten rule, writes a rule twice or puts an empty literal next to other symbols, the chain ends with an error before parsing. This holds for every way of writing the literals the notation allows.",
 ["inputs","programs"],"every grammar text and every input of the resulting parser",
 "No test runs the whole chain; the examples run it for one grammar and one document.",
 [SG,FC,TG,PA],
 [("self grammar",SG),("conversion",FC+":ToAST"),("table generation",TG+":FromGrammar"),("parsing",PA+":parse")],None,["end-to-end acceptance and tree"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    n=len(re.findall(r"\.(\s|$)",x["statement"]))
    assert n<=3,(x["id"],n); assert len(x["title"])<=80,x["id"]
print(len(P))
