#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={
"C01":("exhaustive exploration of the reference pushdown machine's state space per grammar, every explored input replayed on the real parser","Every grammar of the families and every input of the explored space (all viable prefixes and their dead extensions up to the bounds) is executed on the real table generator and parser. Trusts the reference machine, which is cross-checked against derivation semantics on every run."),
"C02":("exhaustive exploration of the reference machine's accepting runs, real trees compared with the derivation","Every accepted input of the explored space; node types, spans and children compared completely."),
"C03":("exhaustive enumeration of grammars, textbook conflict predicate against real table generation","Every conflicting grammar of the families, under all rule orders and alternative orders for the handmade ones."),
"C04":("exhaustive enumeration of grammars, textbook conflict predicate against real table generation","Every conflict-free grammar of the families must get a table."),
"C05":("exhaustive enumeration of well-formed and malformed grammar objects on the real generator","All small grammar objects over every symbol kind, including foreign and nil symbols."),
"C06":("exhaustive enumeration of grammars, textbook table compared cell by cell with the real one","Complete comparison of rows, cells and names for every LL(1) grammar of the families."),
"C07":("exhaustive exploration with a statement counter in the real code as step measure","The library is built with a counter before every statement (overlay); table generation must end within a budget, parsing within a linear bound, for every explored grammar and input, including long ones."),
"C08":("exhaustive exploration of the reference machine's error states, real error compared","Every rejected input of the explored space: position byte and expectation in the real error."),
"C09":("explicit-state automaton of the notation, state cover times all short words replayed on the real reader","Every state of an independent reader automaton with all bytes and all short words over the delimiters; result grammar compared."),
"C10":("exhaustive enumeration of small grammar objects, print and read back on the real code","All literal contents up to a length over the special characters, all byte pairs, all small shapes; printed text also read by an independent reader."),
"C11":("exhaustive enumeration of all layout choices of base texts on the real reader","Every combination of the permitted spacings, line ends and literal writings of the base texts."),
"C12":("exhaustive enumeration of small trees, tree edits and renumberings against a recursive specification","All forests up to a number of nodes in every context under three numberings, all single and double edits of real trees, renumberings of the whole notation."),
"C13":("exhaustive enumeration of tree shapes, pruning sets and visitor policies on the real Walk","All shapes up to a number of nodes with all subsets of pruned nodes."),
"C14":("explicit-state exploration of byte sets under all operations, every query compared in every state","All subsets of boundary bytes, all one and two element sets and complements, pairwise algebra."),
"C15":("fault enumeration over reader scripts: every split, empty read and failure point on the real Parse","All delivery scripts of short payloads and size thresholds; failure at every read."),
"C16":("exhaustive exploration of call histories over shared objects on the real code","All operation sequences up to a depth, each call compared with the reference result, all arguments and standard streams checked afterwards."),
"C17":("controlled-scheduler exploration of all interleavings up to a preemption bound, plus a happens-before race detector over all serial orders","Statement-level sequentially consistent interleavings of the real code; the race detector (Go -race) decides unsynchronised accesses on the unmodified library."),
"C18":("exhaustive enumeration of hand-written tables against a reference table interpreter","All small tables cell by cell and all short inputs, complete, missing and nil names."),
"C19":("exhaustive enumeration of JSON texts on the shipped grammar and on the built example program","All token sequences, numbers, strings, byte contexts and values up to the bounds against an independent scanner cross-checked with encoding/json; the built program's exit status and output compared."),
"C20":("exhaustive enumeration of grammar texts taken through the whole chain, inputs explored over the reference machine","The grammar families written in several styles and every writing of short literals; acceptance, tree and names compared."),
}
checks=[{"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough","evidence_file":f"evidence/{p}.json","technique":"model checking: "+t,"level":"model_checking","level_note":n+" Nothing is claimed beyond the stated bounds."} for p,(t,n) in sorted(T.items())]
m={"version":1,"setup_cmd":"./check.sh setup","checks":checks,"not_applicable":[],
"notes":"No hooks are committed in /repo: check.sh instruments a copy of the library sources (one counter call per statement, cooperative locks for C17) and builds it with 'go build -overlay'. Known findings: known_findings.json."}
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1); open(os.path.join(V,"MANIFEST.json"),"a").write("\n")
