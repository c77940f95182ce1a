WD = "every source text of the wop language"
WB = "every wop program without empty productions, in which no production binds a name twice, aliases stand before their uses and a rule's name is spelled one way"

prop("W01", "Sources are cut into exactly the tokens of the language",
 "For every source text, the lexer yields the tokens of the language, longest match first, with their exact byte ranges, in order, and skips exactly blanks and comments: nothing is dropped, joined or split. Text which is no token yields error tokens that begin where it begins, and lexing never panics and always ends.",
 ["inputs"], "every text",
 "The tests lex one list of string literals and one grammar; no comment, code block, path or broken text is compared with its ranges.",
 ["wop/src/lib.rs"],
 [m("token definitions", "wop/src/lib.rs Sym"), m("token stream", "wop/src/lib.rs lexer")],
 ["wop::lexer"],
 "property-based testing, differential against a hand-written lexer; small texts enumerated",
 "Searched: generated texts and all short texts; the oracle is a separate character-level lexer. One known finding (keywords before a non-ASCII symbol).")
prop("W02", "A program's syntax tree is exactly its source's structure",
 "For every correct program, parsing gives its declarations in order and, for each, exactly its parts: paths, aliases and their targets, rule names, types, productions, items, groups, code blocks, and for each item whether it is optional, its bound name and whether it is cloned. Every part carries the exact byte range of its source text.",
 ["inputs"], "every correct wop program, any layout and any nesting",
 "No test looks at a syntax tree; wop is tested on its own grammar's tokens only.",
 ["wop/src/wop.grammar", "wop/src/out.rs", "wop/src/lib.rs"],
 [m("grammar and reductors", "wop/src/wop.grammar, generated into wop/src/out.rs"), m("parser", "wop/src/lib.rs build_parser")],
 ["wop::build_parser, Dfa::start, Dfa::items"],
 "property-based testing, differential against a recursive-descent parser",
 "Searched: generated programs; node by node comparison including byte ranges.")
prop("W03", "Exactly the programs of the language are accepted",
 "A source is accepted if and only if its tokens form a program of the wop language. Otherwise the parser stops at the first token (or the end) with which no program can continue, never later, earlier or by a panic.",
 ["inputs"], WD + ", correct or not",
 "No test parses an incorrect source.",
 ["wop/src/wop.grammar", "wop/src/out.rs", "wop/src/lib.rs"],
 [m("grammar", "wop/src/wop.grammar, generated into wop/src/out.rs"), m("parser", "wop/src/lib.rs build_parser")],
 ["wop::build_parser, Dfa::start, Dfa::buffer"],
 "property-based testing (mutated programs, enumerated token sequences), differential against a recursive-descent parser",
 "Searched: generated and enumerated token sequences. One known finding (keywords before a non-ASCII symbol).")
prop("W04", "Productions expand into exactly their alternatives",
 "For every correct program, the builder gives each rule exactly the plain productions its alternatives stand for: one for every choice of a group's variant and of the presence of every optional item, with aliases replaced by what they stand for, under the code block and type written for it. The order of a rule's productions is not part of this; imports keep their order.",
 ["programs", "inputs"], WB,
 "No test runs the builder.",
 ["wop/src/builder.rs"],
 [m("expansion", "wop/src/builder.rs Builder::get_production, get_from_single_production"), m("aliases", "wop/src/builder.rs token_decl, get_definition"), m("imports", "wop/src/builder.rs use_decl")],
 ["Builder::process, Builder::rules, Builder::imports"],
 "property-based testing, differential against a reference expansion",
 "Searched: generated programs with nested groups and optional items; productions compared as multisets.")
prop("W05", "Bound names stand for exactly the symbols they were written on",
 "In every plain production a name is bound to the very position of the item it was written on, or to the exact range of positions its group takes there, and cloned if so asked. A name whose item is optional or in a group is an option everywhere in that alternative: present where its item is, absent where it is not, and of one kind (item or range) in all productions.",
 ["programs", "inputs"], WB,
 "No test runs the builder.",
 ["wop/src/builder.rs"],
 [m("positions", "wop/src/builder.rs ProductionBuild::push_alias"), m("names of groups", "wop/src/builder.rs Builder::set_sub_aliases, get_from_single_production")],
 ["Builder::process, ProductionBuild::aliases"],
 "property-based testing, differential against a reference binding",
 "Searched: generated programs with nested groups and optional items.")
prop("W06", "Faulty programs are refused, correct ones are built",
 "A program that declares a rule or an alias twice, leaves a production without a code block or puts a code block inside a group is refused by the builder, wherever the fault stands; every other correct program is built without a panic. Building from a text and building from its syntax tree give the same rules.",
 ["programs", "inputs"], WB + ", with up to two faults",
 "No test runs the builder.",
 ["wop/src/builder.rs"],
 [m("duplicates", "wop/src/builder.rs rule_decl, token_decl"), m("code blocks", "wop/src/builder.rs rule_decl, get_from_single_production"), m("from text", "wop/src/builder.rs Builder::from_str")],
 ["Builder::process, Builder::from_str"],
 "property-based testing with injected faults",
 "Searched: generated programs with and without injected faults.")
prop("W07", "Generated code parses what the grammar describes and binds what it names",
 "For every correct program whose plain productions form an LALR(1) grammar, the generated code compiles, and the parser it makes with this library accepts every sentence derived from the rules. Each code block runs once for each use of its production, with every name standing for exactly the tokens it was written on (absent ones none), and the value returned covers from its first to its last token.",
 ["programs", "inputs"], WB + ", with rule names that are plain or path identifiers and code blocks that compile; every sentence",
 "No test generates code, compiles it or runs it.",
 ["wop/src/builder.rs", "wop/src/main.rs", "src/slr.rs", "src/dfa.rs", "src/parser.rs", "src/grammar.rs"],
 [m("grammar code", "wop/src/builder.rs Builder::dump_grammar, write_rule"), m("reductor code", "wop/src/builder.rs Builder::dump_reductor, write_rule_reduction, ItemAlias::write"), m("command line", "wop/src/main.rs main"), m("execution", "src/dfa.rs Dfa::reduce")],
 ["Builder::dump_grammar, Builder::dump_reductor, the out.rs of the wop tool, and running them"],
 "property-based testing end to end: generated grammars are compiled and run on generated sentences, the derivation is the oracle",
 "Searched: a few hundred generated grammars a run (each costs a compilation), half through the command line tool.")
prop("W08", "wop regenerated from its own grammar is the wop that is shipped",
 "The parser generated from wop's own grammar by the tool and by the library compiles, and on every source it gives the result of the parser that is shipped: the same syntax tree, or the same error with the same input left.",
 ["inputs"], WD + ", correct or not",
 "No test regenerates the parser.",
 ["wop/src/wop.grammar", "wop/src/out.rs", "wop/src/builder.rs", "wop/src/main.rs"],
 [m("grammar", "wop/src/wop.grammar"), m("shipped code", "wop/src/out.rs"), m("generation", "wop/src/builder.rs dump_grammar, dump_reductor; wop/src/main.rs")],
 ["wop::build_parser; a parser made of the regenerated code"],
 "property-based testing, differential between the shipped and the regenerated parser",
 "Searched: generated sources given to both parsers.")

prop("W09", "The command-line generator succeeds exactly on correct programs",
 "Given a grammar file, the command-line tool exits successfully if and only if the file holds a correct program which the builder does not refuse, and then the file it writes holds all that the library generates for that program and nothing of an earlier run. On any other text, and on a file that is not text in UTF-8, it fails.",
 ["inputs"], WD + ", correct or not",
 "No test runs the tool.",
 ["wop/src/main.rs", "wop/src/builder.rs"],
 [m("reading, refusing, writing", "wop/src/main.rs main"), m("building", "wop/src/builder.rs Builder::process")],
 ["exit status of the wop tool, the out.rs it writes"],
 "property-based testing of the built tool, differential against a recursive-descent parser and the library",
 "Searched: generated programs, mutated programs and injected faults; rustfmt may be missing, so words rather than layout are compared.")

prop("W10", "The command-line generator shows the program as it is written",
 "Given a grammar file holding a program, the command-line tool lists exactly its tokens, in order, each with its text, kind and byte range, and then shows the program's tree: every declaration, production, item, option, clone mark, name and code block of the source, with its text and nested as in the source. Given any other text it lists the tokens up to and including the first with which no program goes on, and says that it cannot be parsed.",
 ["inputs"], WD + ", correct or not",
 "No test runs the tool.",
 ["wop/src/main.rs", "wop/src/lib.rs", "wop/src/out.rs"],
 [m("listing tokens", "wop/src/main.rs main"), m("showing the tree", "wop/src/main.rs print_nested")],
 ["standard output of the wop tool"],
 "property-based testing of the built tool, differential against a reference lexer and recursive-descent parser",
 "Searched: generated programs, mutated programs and texts; colours and the lines showing the parser's stack are not judged.")

prop("W11", "Generated code says exactly what was built",
 "For every correct program whose names, literals and code blocks are Rust, the code generated for the grammar and for the reductors is Rust. It has the program's imports; it gives each rule exactly the plain productions the program stands for, each once, and under the same rule and number a function of its own, which takes symbols of the entry type the builder was made with, returns the rule's type, binds each name of the program to exactly the item or range of items it stands for in that production (or to none, when it is absent), by reference or cloned as written, and then runs exactly the code block written for that production.",
 ["inputs"], WD + ", correct, whose names, literals and code are Rust",
 "No test generates code.",
 ["wop/src/builder.rs"],
 [m("functions", "wop/src/builder.rs dump_reductor"), m("names", "wop/src/builder.rs ItemAlias::write, ProductionBuild::push_alias"), m("rules", "wop/src/builder.rs dump_grammar")],
 ["Builder::dump_grammar, Builder::dump_reductor"],
 "property-based testing, the generated code read as Rust and its bindings evaluated against a reference expansion",
 "Searched: generated programs; code of a form the evaluation does not understand is not judged here (W07 runs generated code).")
