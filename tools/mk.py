#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DOM = "every grammar whose entry symbol has one production and stands on no right-hand side, without empty productions"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note))
def m(name, where): return {"name": name, "where": where}
FEW = "The tests build tables for six fixed grammars and run a handful of valid inputs through them; "

prop("C01", "Canonical LR(1) parsers accept exactly the grammar's language",
 "For a grammar whose canonical LR(1) table has no conflict, a parse of a sequence of terminals succeeds if and only if the grammar derives that sequence, and otherwise ends with an unexpected-token error (where the grammar uses the end marker as a terminal, too: or one for an input that ends, or goes on, at a marker). With conflicts in the table, a parse may stop with a conflict error but still never accepts a sequence outside the language and never calls a sentence unexpected.",
 ["inputs", "programs"], DOM + ", every order on its symbols, every finite sequence of its terminals",
 FEW + "no invalid input is ever parsed and no grammar was chosen to separate right from wrong lookaheads.",
 ["src/clr.rs", "src/tabler.rs", "src/dfa.rs", "src/parser.rs"],
 [m("closure with lookaheads", "src/clr.rs Clr::closure"), m("goto and kernels", "src/clr.rs Clr::goto, proc_closures"), m("actions", "src/clr.rs Clr::decision, proc_actions"), m("automaton", "src/dfa.rs Dfa::travel, shift, reduce")],
 ["Parser::parse, Parser::validate"],
 "property-based testing, differential against an Earley recogniser",
 "Searched: generated and enumerated grammars and words; the oracle is an Earley recogniser which shares nothing with LR tables.")
prop("C02", "LALR(1) parsers accept exactly the grammar's language",
 "For a grammar whose LALR(1) table has no conflict, a parse of a sequence of terminals succeeds if and only if the grammar derives that sequence, and otherwise ends with an unexpected-token error (where the grammar uses the end marker as a terminal, too: or one for an input that ends, or goes on, at a marker). With conflicts in the table, a parse may stop with a conflict error but still never accepts a sequence outside the language and never calls a sentence unexpected.",
 ["inputs", "programs"], DOM + ", every order on its symbols, every finite sequence of its terminals",
 FEW + "merging states loses or leaks lookaheads only on grammars with particular loops, which those six do not have.",
 ["src/lalr.rs", "src/tabler.rs", "src/dfa.rs", "src/parser.rs"],
 [m("merging of kernels and propagation", "src/lalr.rs Lalr::proc_closures, update_state"), m("actions", "src/lalr.rs Lalr::decision, proc_actions"), m("merging of items", "src/parser.rs Parser::merged"), m("automaton", "src/dfa.rs Dfa::travel, shift, reduce")],
 ["Parser::parse, Parser::validate"],
 "property-based testing, differential against an Earley recogniser",
 "Searched: generated and enumerated grammars and words; the oracle is an Earley recogniser which shares nothing with LR tables.")
prop("C03", "SLR parsers accept exactly the grammar's language",
 "For a grammar whose SLR table has no conflict, a parse of a sequence of terminals succeeds if and only if the grammar derives that sequence, and otherwise ends with an unexpected-token error (where the grammar uses the end marker as a terminal, too: or one for an input that ends, or goes on, at a marker). With conflicts in the table, a parse may stop with a conflict error but still never accepts a sequence outside the language and never calls a sentence unexpected.",
 ["inputs", "programs"], DOM + ", every order on its symbols, every finite sequence of its terminals",
 FEW + "wrong FOLLOW sets or closures show only on grammars and words outside them.",
 ["src/slr.rs", "src/tabler.rs", "src/dfa.rs", "src/parser.rs"],
 [m("closure and goto", "src/slr.rs Slr::closure, goto, proc_closures"), m("actions from FOLLOW", "src/slr.rs Slr::decision, proc_actions"), m("automaton", "src/dfa.rs Dfa::travel, shift, reduce")],
 ["Parser::parse, Parser::validate"],
 "property-based testing, differential against an Earley recogniser",
 "Searched: generated and enumerated grammars and words; the oracle is an Earley recogniser which shares nothing with LR tables.")
prop("C04", "Tables and reported conflicts are those of the textbook construction",
 "For every grammar, the SLR, LALR(1) and canonical LR(1) action tables contain, state by state, exactly the shifts, gotos, reductions and acceptance which the textbook construction gives, with a conflict exactly where that gives several actions, naming all of them. The number of reported conflicts and of states is the textbook one for SLR and LALR(1), canonical LR(1) reports conflicts exactly when the grammar is not LR(1), and a grammar without conflicts in a weaker construction has none in a stronger one.",
 ["programs", "inputs"], DOM + ", every order on its symbols",
 FEW + "they count conflicts of six grammars and look at no table entry.",
 ["src/slr.rs", "src/lalr.rs", "src/clr.rs", "src/tabler.rs", "src/pos.rs"],
 [m("action rows", "src/{slr,lalr,clr}.rs proc_actions, decision"), m("conflict listing", "src/tabler.rs Tabler::conflicts"), m("states", "src/{slr,lalr,clr}.rs proc_closures, goto; src/lalr.rs update_state")],
 ["Parser::tables, Tabler::conflicts"],
 "property-based testing, differential against reference LR constructions (synchronous walk of both automata)",
 "Searched: generated and enumerated grammars; compared with separately written SLR, LALR (canonical sets merged by core) and LR(1) constructions.")
prop("C05", "FIRST sets are exact",
 "For every grammar, the FIRST set computed for each rule is exactly the set of terminals with which something derivable from that rule can begin, and FIRST of a set of symbols is the union over its members. The computation ends for every grammar, however its rules depend on each other.",
 ["programs", "inputs"], DOM + " (unreachable and unproductive rules included), every order on its symbols",
 "The tests compare the FIRST tables of six grammars, none of which has mutually dependent rules.",
 ["src/tabler.rs", "src/lib.rs"],
 [m("first symbols", "src/tabler.rs Tabler::gen_first"), m("fixed point", "src/tabler.rs Tabler::proc_first, first_step; src/lib.rs transitive"), m("union", "src/tabler.rs Tabler::first_of")],
 ["Tabler::first, Tabler::first_of"],
 "property-based testing, differential against a bitset fixed point",
 "Searched: generated and enumerated grammars under generated symbol orders.")
prop("C06", "FOLLOW sets are exact",
 "For every grammar, the FOLLOW set computed for each rule is exactly the set of terminals that can come right after that rule in something derivable from the entry, the end marker included where it can end. The computation ends for every grammar, however its rules depend on each other.",
 ["programs", "inputs"], DOM + " and without unreachable rules, every order on its symbols",
 "The tests compare the FOLLOW tables of six grammars, none of which has rules that end in each other.",
 ["src/tabler.rs", "src/lib.rs"],
 [m("direct followers", "src/tabler.rs Tabler::gen_follow"), m("fixed point", "src/tabler.rs Tabler::proc_follow, follow_step; src/lib.rs transitive")],
 ["Tabler::follow"],
 "property-based testing, differential against a bitset fixed point",
 "Searched: generated and enumerated grammars under generated symbol orders.")
prop("C07", "Reductors see exactly the rightmost derivation, backwards",
 "When a parse without conflicts succeeds, the user's reductors have been called once per node of the word's derivation tree, children before parents and left to right, each for the very production applied and with exactly the symbols and values of that production's right-hand side in order. The values left at the end are those of the entry production's symbols, and the parse call returns that value.",
 ["inputs", "programs"], DOM + " and free of conflicts in the construction used, every sentence",
 FEW + "their reductors return nothing, so no value, argument or order is ever looked at.",
 ["src/dfa.rs", "src/parser.rs", "src/grammar.rs"],
 [m("reduction", "src/dfa.rs Dfa::reduce"), m("shift", "src/dfa.rs Dfa::shift"), m("index of a production in its rule", "src/grammar.rs Rule::new"), m("result", "src/parser.rs Parser::parse")],
 ["reductor calls, Dfa::items, Parser::parse"],
 "property-based testing with recording reductors, validity of the derivation as oracle",
 "Searched: generated grammars and sentences, all three constructions; the tree is checked against grammar and word, not against another parser.")
prop("C08", "Errors name the first token that cannot be right",
 "When a parser without conflicts rejects a sequence of terminals, it blames the first token (or the end of input) with which no sentence can continue, having consumed exactly the tokens before it and read no further than that token. (Where the grammar uses the end marker as a terminal, an end of input in place of a marker and a marker in place of the end are told apart from other wrong tokens.) The blamed symbol is never listed as expected, and a canonical LR(1) parser lists as expected terminals exactly those with which some sentence can continue, without any reduction made on sight of the wrong token. The printed message names the blamed symbol, every expected one and no other.",
 ["inputs", "programs"], DOM + " and free of conflicts in the construction used, every sequence of terminals outside the language",
 "No test parses an invalid input of a conflict-free grammar.",
 ["src/dfa.rs", "src/clr.rs", "src/lalr.rs", "src/slr.rs"],
 [m("error", "src/dfa.rs Dfa::travel"), m("one token of lookahead", "src/dfa.rs Dfa::trace"), m("lookaheads", "src/clr.rs Clr::decision")],
 ["Error::UnexpectedToken, Dfa::items, Dfa::buffer"],
 "property-based testing, differential against Earley prefix sets, instrumented token source",
 "Searched: generated grammars and edited sentences; expected sets are compared for canonical LR(1) only, where they are determined.")
prop("C09", "Merging equal table rows changes no parse",
 "Merging the equal rows of a parser's action table, once or repeatedly, keeps every outcome: the same inputs are accepted with the same values, the same tokens are blamed with the same expectations, and conflicts appear in the same situations. The table never grows, and every state it mentions exists.",
 ["programs", "inputs"], DOM + ", all three constructions, every sequence of terminals",
 "No test ever merges rows.",
 ["src/tabler.rs", "src/parser.rs"],
 [m("merging", "src/tabler.rs Tabler::reduced_actions"), m("renumbering", "src/tabler.rs Tabler::update_entry"), m("entry point", "src/parser.rs Parser::reduce_equals")],
 ["Parser::reduce_equals, then any parse"],
 "property-based testing, metamorphic (before/after) plus bisimulation of the two tables",
 "Searched: generated grammars, two thirds of them made to have equal rows.")
prop("C10", "A reused parser automaton behaves like a fresh one",
 "Whatever inputs an automaton has been given before (accepted, rejected, containing unknown symbols, or abandoned half-way), parsing the next input with it gives the same result as a fresh automaton would, through its parse call as through a reset, a new buffer and a start.",
 ["histories", "inputs"], DOM + ", all three constructions, every history of inputs",
 "No test uses an automaton twice, nor its parse call at all.",
 ["src/dfa.rs"],
 [m("reset", "src/dfa.rs Dfa::reset"), m("parse", "src/dfa.rs Dfa::parse")],
 ["Dfa::parse, Dfa::reset, Dfa::start"],
 "stateful property-based testing over input histories, model: a fresh automaton",
 "Searched: histories of two to seven inputs.")
prop("C11", "Any token sequence is parsed or rejected cleanly",
 "Given any finite sequence of symbols, including symbols the grammar does not know, its non-terminals and its end marker, parsing ends without a panic and succeeds only for a sequence of terminals of the language. In a table without conflicts the error blames the first symbol that cannot stand where it does.",
 ["inputs", "programs"], DOM + "; without conflicts or without a cycle of single-symbol productions; every finite sequence of symbols",
 "The tests only feed terminals of the grammar, and almost only sentences.",
 ["src/dfa.rs"],
 [m("lookup of the action", "src/dfa.rs Dfa::trace, Dfa::travel"), m("acceptance", "src/dfa.rs Dfa::accept")],
 ["Parser::parse"],
 "property-based testing (fuzzed symbol sequences) with a deterministic fuel bound",
 "Searched; that a parse ends is decided by a bound on symbol comparisons, over a hundred times what any case needs.")
prop("C12", "Table construction always ends",
 "For every grammar the three table constructions end without a panic and give one action row per state, whatever the order of the symbols, whether or not the grammar is ambiguous or cyclic, and with unreachable, unproductive or duplicate productions in it.",
 ["programs", "inputs"], DOM + ", every order on its symbols",
 FEW + "none of them is cyclic, ambiguous in an interesting way or has useless rules.",
 ["src/tabler.rs", "src/slr.rs", "src/lalr.rs", "src/clr.rs", "src/lib.rs"],
 [m("fixed points", "src/lib.rs transitive"), m("propagation", "src/lalr.rs Lalr::proc_closures"), m("states", "src/{slr,clr}.rs proc_closures")],
 ["Parser::new"],
 "property-based testing with a deterministic fuel bound",
 "Searched: generated and enumerated grammars; that a construction ends is decided by a bound on symbol comparisons.")
prop("C13", "Names and orders do not matter",
 "Renaming the symbols of a grammar (and so changing their order), reordering the productions of its rules, or using another type for its symbols changes neither the FIRST and FOLLOW sets, the number of conflicts (whether there are any, for canonical LR(1)), nor the outcome and the derivation tree of any parse, up to that renaming.",
 ["programs", "inputs", "configurations"], DOM + ", every permutation of its symbols and productions, every sequence of terminals",
 "Every test grammar exists in one spelling and one order.",
 ["src/tabler.rs", "src/slr.rs", "src/lalr.rs", "src/clr.rs", "src/dfa.rs", "src/grammar.rs"],
 [m("ordered maps and sets of symbols and items", "src/lib.rs Map, Set, State"), m("choice of the merged kernel", "src/lalr.rs Lalr::update_state")],
 ["Parser::new, Parser::parse"],
 "metamorphic property-based testing",
 "Searched: generated grammars with generated permutations, and the same grammar over String symbols.")
prop("C14", "Every step of a parse keeps the stack consistent",
 "Before every step of a parse, the stack has one more state than symbols, its states are those the table leads to along its symbols, and its symbols stand for exactly the input consumed so far, which is also how it prints; a step either shifts one token or makes one reduction, on a reset automaton as on a new one. Observing or copying the automaton at any step changes nothing: the observed parse and the copy both end as an unobserved one.",
 ["histories", "inputs", "programs"], DOM + ", all three constructions, every sequence of terminals, every step",
 "No test looks at an automaton while it runs.",
 ["src/dfa.rs"],
 [m("steps", "src/dfa.rs Dfa::trace, travel"), m("stack operations", "src/dfa.rs Dfa::shift, goto, reduce"), m("printing", "src/dfa.rs Dfa::stack_fmt")],
 ["Dfa::trace, Dfa::states, Dfa::items, Dfa::top, Dfa::stack_fmt"],
 "property-based testing, invariant over the history of every parse",
 "Searched: generated grammars and words, conflicts included.")
prop("C15", "A grammar's symbols are classified exactly",
 "A grammar built from rules lists as terminals exactly the end marker and the symbols that occur in productions without being rules, as symbols exactly rules and terminals, keeps every rule with its productions in the order given and numbered by that order, and starts from the entry production with the end marker as lookahead.",
 ["programs", "inputs"], DOM + ", every order on its symbols",
 "The tests never look at a grammar's symbols.",
 ["src/grammar.rs"],
 [m("classification", "src/grammar.rs Grammar::new, is_terminal"), m("numbering", "src/grammar.rs Rule::new")],
 ["Grammar::terminals, symbols, is_terminal, rules, basis"],
 "property-based testing against the definition",
 "Searched: generated and enumerated grammars.")
prop("C16", "Item sets and kernel lookups follow the definition",
 "For every grammar the states hold exactly the items which the definition of the construction gives (LR(0) items for SLR, with their lookaheads for LALR(1) and canonical LR(1)), and looking up the kernel reached from a state over a symbol gives the state which the table goes to on that symbol.",
 ["programs", "inputs"], DOM + ", every order on its symbols",
 "No test looks at an item set or looks up a kernel.",
 ["src/slr.rs", "src/lalr.rs", "src/clr.rs", "src/parser.rs", "src/pos.rs", "src/tabler.rs"],
 [m("closures", "src/{slr,lalr,clr}.rs closure, prop_closure"), m("kernels", "src/parser.rs Parser::state_from_kernel, final_kernel; src/tabler.rs Tabler::sym_filter"), m("lookahead union", "src/parser.rs Parser::merged")],
 ["Tabler::states, Parser::state_from_kernel"],
 "property-based testing, differential against reference item sets",
 "Searched: generated and enumerated grammars.")

prop("C17", "Every way to set up and drive a parse has the same outcome",
 "A parse started from a parser, from an automaton assembled by hand out of a parser's tables, from a parser given its tables ready-made, from tokens or from plain symbols, in one go, step by step or action by action, has one and the same outcome: the same acceptance and values, or the same error with the same token blamed.",
 ["inputs", "configurations"], DOM + ", all three constructions, every sequence of terminals",
 "The tests use one entry point, never compare two, and look at no value.",
 ["src/dfa.rs", "src/parser.rs", "src/lib.rs"],
 [m("entry points", "src/parser.rs Parser::new, with_table, dfa, simple_dfa, parse, validate"), m("assembly", "src/dfa.rs Dfa::new, start, parse, trace"), m("tokens of plain symbols", "src/lib.rs to_tokens; src/dfa.rs transparent")],
 ["Parser::parse, Parser::validate, Parser::dfa, Dfa::new, Dfa::parse, Dfa::start"],
 "property-based testing, differential between the entry points",
 "Searched: generated grammars and words, conflicts included.")
prop("C18", "Operations on items and item sets follow their definitions",
 "For any item of a grammar (a production with a dot and lookaheads) the symbol at the dot, the next dot, the lookaheads after it and equality are what the definition says, and its printed form has the dot where it is; for any set of items, splitting by the symbol at the dot loses and repeats no item, merging by core unites exactly the lookaheads of equal cores, and propagating a closure adds exactly the items reachable from it.",
 ["inputs", "programs"], DOM + ", every item and every set of items, also those no construction reaches",
 "No test builds an item or a set of items.",
 ["src/pos.rs", "src/tabler.rs", "src/parser.rs"],
 [m("items", "src/pos.rs Position"), m("merging", "src/parser.rs Parser::merged"), m("splitting and closing", "src/tabler.rs Tabler::sym_filter; src/parser.rs prop_closure")],
 ["Position methods, Parser::merged, Tabler::sym_filter, prop_closure"],
 "property-based testing against the definitions, on arbitrary item sets",
 "Searched: generated items and item sets over generated grammars.")
prop("C19", "The demonstration program's parse follows its printed table",
 "Given any line of brackets, the demonstration program accepts it exactly if it is a sentence of its grammar of nested brackets and otherwise reports the first symbol that cannot stand where it does. The steps it prints are those its printed action table prescribes, and the printed FIRST and FOLLOW sets are those of its grammar.",
 ["inputs", "histories"], "every sequence of lines of brackets",
 "No test runs the program.",
 ["src/main.rs", "src/tabler.rs", "src/dfa.rs", "src/lalr.rs"],
 [m("grammar and loop", "src/main.rs main"), m("printing", "src/tabler.rs proc_actions printing; src/dfa.rs stack_fmt")],
 ["standard output of the lrp program"],
 "property-based testing of the built program, oracle: the bracket language and the program's own printed table",
 "Searched: generated and enumerated lines of brackets; the program is run on batches of lines.")

prop("C20", "Grammars written in programs are the grammars meant",
 "A grammar written down in a program with the library's grammar macro, with literals (strings, characters, integers, bytes) or identifiers (enum variants, constants, local variables) of any one type as its symbols and its rules in any order, has exactly the rules written, each with its productions in the order written and numbered so; the program compiles, and its parsers accept exactly the words of that grammar.",
 ["programs", "inputs", "configurations"], DOM + ", every type of symbols and every way to write them, every order of its rules",
 "The tests write six grammars, all with string literals; the identifier form of the macro is never expanded, no other symbol type is ever used and no production's number is looked at.",
 ["src/lib.rs", "src/grammar.rs", "src/parser.rs"],
 [m("grammar macro", "src/lib.rs grammar_map!"), m("rules", "src/grammar.rs Rule::new, Grammar::new"), m("parsers of any symbol type", "src/parser.rs Parser; src/{slr,lalr,clr}.rs")],
 ["grammar_map!, Grammar::rules, Tabler::conflicts, Parser::validate, in programs built and run"],
 "property-based testing: generated programs are built and run, oracle: the generated grammar, reference tables and an Earley recogniser",
 "Searched: generated grammars and words, written down as programs with eight sorts of symbols.")
prop("C21", "Spans, tokens and fixed points mean what they say",
 "A span, however it is made, selects from any source that can be indexed by ranges exactly the elements from its start up to but not including its end, and nothing it has no right to: a span outside its source, reversed, or through the middle of a character is refused like such an index. Plain symbols become tokens one by one, in order and only when asked for. The transitive closure of a function from a seed is the first value it maps to itself.",
 ["inputs"], "every text, every pair of places, every finite function",
 "One documentation example takes one span out of one array; nothing else is tested.",
 ["src/lib.rs"],
 [m("spans", "src/lib.rs Span::new, from_source, From"), m("tokens", "src/lib.rs Token, Meta, to_tokens"), m("fixed point", "src/lib.rs transitive")],
 ["Span, Meta, Token, to_tokens, transitive"],
 "property-based testing against the definitions",
 "Searched: generated texts, places and functions; all small pairs of places in six texts.")

prop("C22", "A table with conflicts is followed up to the first of them",
 "For every grammar, with or without conflicts, and every sequence of its terminals, a parse makes exactly the shifts and reductions its textbook table gives, in order, as long as the table gives just one action. Where it gives several, the parse ends with a conflict error whose actions, and whose message, are all of these and no others, before any of them is done; where it gives none, it ends blaming the token there and expecting exactly the terminals that have an action in that state. At the end the stack holds the symbols and values made so far and the input what was not consumed.",
 ["inputs"], "every grammar without empty productions, every finite sequence of its terminals",
 "No test parses with a table that has conflicts.",
 ["src/dfa.rs", "src/tabler.rs", "src/slr.rs", "src/lalr.rs", "src/clr.rs"],
 [m("stopping at conflicts", "src/dfa.rs Dfa::travel"), m("messages", "src/dfa.rs Error fmt"), m("conflicts", "src/slr.rs, src/lalr.rs, src/clr.rs proc_actions")],
 ["Dfa::start, Dfa::items, Dfa::buffer; Error::Conflict; calls of reductors"],
 "property-based testing against reference automata that are followed step by step",
 "Searched: generated grammars and words; parses that never end (rule cycles) are left out.")

prop("C23", "Grammars that cannot be handled are refused",
 "A grammar with an empty production in any of its rules, without a rule for its entry, or with an entry of no production or (where debug assertions are on) of several, is refused by a panic at the latest while the tables of any construction are built: it never yields a parser, and never keeps a construction from ending.",
 ["inputs"], "every grammar with one of these faults, wherever it is",
 "The tested grammars are all well-formed.",
 ["src/grammar.rs", "src/tabler.rs"],
 [m("entry", "src/grammar.rs Grammar::new"), m("empty productions", "src/tabler.rs Tabler::gen_first")],
 ["Grammar::new, Slr::new, Lalr::new, Clr::new"],
 "property-based testing: faults injected into generated grammars",
 "Searched: generated grammars with one generated fault.")

exec(open(os.path.join(ROOT, "tools", "mkw.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "mkw.py")) else None

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None}},
            ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["title"]
man = {"version": 1, "setup_cmd": "./setup.sh",
  "checks": [{"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
    "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
  "not_applicable": [],
  "notes": "No hooks: everything is observed through the public API. known-findings.txt lists the defects found and fixed; DESIGN.md describes generators, oracles, bounds and planted bugs."}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
