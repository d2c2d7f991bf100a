#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

EV = ["ticc-eval/src/treewalk.rs", "ticc-eval/src/lambda.rs", "ticc-eval/src/bytecode.rs", "ticc-eval/src/compile.rs"]
p("C01", "Programs evaluate to what the language semantics prescribe",
  "Every well-typed program without holes that compiles without errors evaluates, without optimization, on each portable runner (treewalk, lambda, bytecode) to exactly the values the source language prescribes: strict left-to-right evaluation, lexical scoping with shadowing, first-class curried functions, constructors and match, bottom-up structural recursion for fold functions, and parametric polymorphism. The printed exports appear in definition order, one `name = value` line each.",
  ["programs", "configurations"], "all well-typed programs x {treewalk, lambda, bytecode}",
  "The run-pass programs fix a few dozen programs; nothing states what an arbitrary combination of closures, folds, matches and shadowing must produce.",
  ["ticc/src/codegen/gen_core.rs", "ticc/src/interpreter.rs"] + EV,
  [("core generation", "ticc/src/codegen/gen_core.rs"), ("runners", "ticc-eval/src"), ("export printing", "ticc/src/interpreter.rs:write_value")],
  ["CompilationUnit::interpret"])
p("C02", "Optimization never changes what a program computes",
  "For every program that compiles without errors, if evaluating it without optimization yields values then evaluating it with optimization yields the same exported values, on every runner. If it traps with optimization then it also traps without it, and optimization never crashes the compiler.",
  ["programs", "configurations"], "all accepted programs (including ones with holes) x runners x {optimized, unoptimized}",
  "Tests run a fixed set of programs optimized and unoptimized; inlining, match merging and saturation interact in ways no fixed set covers.",
  ["ticc/src/codegen/opt.rs", "ticc/src/codegen/opt/inline.rs", "ticc/src/codegen/opt/inline_simple.rs", "ticc/src/codegen/opt/merge_match.rs", "ticc/src/codegen/opt/move_match.rs", "ticc/src/codegen/opt/saturate.rs", "ticc/src/codegen/opt/dce.rs", "ticc/src/codegen/opt/reduce_apply.rs", "ticc/src/codegen/opt/reduce_pi.rs"],
  [("optimization pipeline", "ticc/src/codegen/opt.rs"), ("intermediate verification", "ticc-core/src/verify.rs")],
  ["CompilationUnit::interpret with Options{optimize}"])
p("C03", "All runners are interchangeable",
  "For every program that compiles without errors, at either optimization level, the treewalk, lambda and bytecode runners produce byte-identical export listings or trap with the identical message. The same holds for running `main : string -> string` on any input bytes, including bytes that are not valid UTF-8, and of evaluating any valid program of the intermediate representation, whether or not the front end could have generated it.",
  ["programs", "inputs", "configurations"], "all accepted programs and all valid IR programs x all byte-string inputs x runner pairs x optimization levels",
  "Tests compare each runner against hand-written outputs of a few programs with ASCII input.",
  EV + ["ticc/src/interpreter.rs"],
  [("three independent evaluators", "ticc-eval/src"), ("main entry", "ticc/src/interpreter.rs:do_eval_main")],
  ["CompilationUnit::interpret", "CompilationUnit::interpret_main"])
p("C04", "Accepted programs cannot go wrong",
  "If a source program is accepted without error diagnostics, then the core program generated from it is valid, stays valid after every optimization pass, and evaluation ends with values or with a trap from a hole the program really contains, never with an internal error. This must hold for any text the front end accepts, including near misses of well-typed programs and programs whose definitions carry no type annotations.",
  ["programs"], "all source texts accepted by the front end (well-typed programs and semantic mutations of them that are still accepted)",
  "Unsound acceptance only shows on programs nobody wrote a test for; tests hold known-good or known-bad programs.",
  ["ticc/src/compiler/typeck.rs", "ticc/src/compiler/kindck.rs", "ticc/src/compiler/matchck.rs", "ticc/src/compiler/resolve.rs", "ticc/src/codegen/gen_core.rs", "ticc-core/src/verify.rs"],
  [("type inference", "ticc/src/compiler/typeck.rs"), ("kind, number and match checks", "ticc/src/compiler"), ("core verifier", "ticc-core/src/verify.rs")],
  ["CompilationUnit::diagnostics", "CompilationUnit::interpret"])
p("C05", "Well-typed programs are accepted",
  "A program that obeys the language's scoping, typing, kinding and exhaustiveness rules is accepted with no error diagnostics, whichever of its value annotations are present, as long as every polymorphic definition keeps its annotation. Type inference is not sensitive to where inferable annotations are written.",
  ["programs"], "all well-typed programs x subsets of omitted annotations on monomorphic definitions",
  "compile-pass has five programs; false rejections depend on inference order and annotation placement.",
  ["ticc/src/compiler/typeck.rs", "ticc/src/compiler/resolve.rs", "ticc/src/compiler/parser"],
  [("unification", "ticc/src/compiler/typeck.rs"), ("scope construction", "ticc/src/compiler/resolve.rs")],
  ["CompilationUnit::diagnostics"])
p("C06", "Every ill-formed program is rejected where it is wrong",
  "A program that uses an undefined value, type, constructor or module, misapplies a type's arity, duplicates a constructor within a type, writes a malformed or too large number, gives a pattern the wrong number of fields, or contains a type mismatch or infinite type gets at least one error diagnostic. For scoping, arity, number and duplicate-constructor errors a diagnostic sits exactly on the offending token, and the rest of the program gets no error that the fault does not cause.",
  ["programs"], "all single-fault mutations of well-typed programs",
  "compile-fail lists about twenty hand-made faults, each in one context.",
  ["ticc/src/compiler/resolve.rs", "ticc/src/compiler/typeck.rs", "ticc/src/compiler/kindck.rs", "ticc/src/compiler/numck.rs", "ticc/src/api/errors.rs"],
  [("error reporting in each pass", "ticc/src/compiler"), ("diagnostic formatting", "ticc/src/api/errors.rs")],
  ["CompilationUnit::diagnostics"])
p("C07", "Operators group by the documented precedence, left to right",
  "An expression means the same as its fully parenthesized form under this grouping: application binds tightest, then `* / %`, then `+ -`, then comparisons, then `|>`, all left associative, with let, match, if and lambda extending as far right as possible. Redundant parentheses never change a program's value, types or diagnostics.",
  ["programs"], "all operator expressions and all placements of redundant parentheses",
  "Unit tests sample a handful of operator pairs.",
  ["ticc/src/compiler/parser/expr.rs"],
  [("binding powers", "ticc/src/compiler/parser/expr.rs:binding_power")],
  ["CompilationUnit::interpret", "CompilationUnit::diagnostics"])
p("C08", "The front end survives any text",
  "For every Unicode text, however malformed, diagnostics, tokens, go-to-definition, references, hover and completion at every byte offset return without crashing, and never loop (nesting depth is limited only by the host stack). Every span they return lies inside the text, on character boundaries and with start not after end.",
  ["inputs", "histories"], "all texts (random, token soup, truncated or mutated programs) x all query offsets",
  "Tests feed well-formed or once-broken files; the parser's error recovery has unbounded input space.",
  ["ticc/src/compiler/parser.rs", "ticc/src/compiler/parser", "ticc/src/compiler/lexer.rs", "ticc/src/compiler", "ticc/src/api", "ticc-syntax/src"],
  [("error recovery", "ticc/src/compiler/parser.rs"), ("lazy item compilation", "ticc/src/lib.rs:compile_up_to")],
  ["all CompilationUnit queries"])
p("C09", "Token listing is complete, ordered and correctly classified",
  "For every text the token listing is strictly ordered and non-overlapping and, in source with no lexical errors, covers exactly the keywords, names, operators, punctuation, literals, holes and comments of the text, each with its own extent. In a program whose names resolve, every name is classified as the kind of thing it denotes: value, constructor, type, or type variable.",
  ["inputs", "programs"], "all texts for ordering, all lexically valid texts for completeness, all well-typed programs for classification",
  "There are no direct tests of the token listing beyond editors' use.",
  ["ticc/src/api/tokens.rs", "ticc/src/compiler/lexer.rs", "ticc/src/compiler/parser.rs", "ticc-syntax/src/lib.rs", "ticc-syntax/src/cursor.rs"],
  [("lossless syntax tree", "ticc-syntax/src"), ("classification", "ticc/src/api/tokens.rs")],
  ["CompilationUnit::tokens"])
p("C10", "Go-to-definition and find-references agree with scoping",
  "At any position on the name of a value, constructor, type or type variable (a module alias before a dot is not one of them), go-to-definition returns exactly the binding that lexical scoping assigns to it, and find-references returns exactly the set of other occurrences bound to the same definition, each once. Asking at the definition or at any reference gives the same answer, and positions on no name give no answer.",
  ["programs"], "all programs with arbitrary shadowing x all positions",
  "Tests check a dozen marked positions.",
  ["ticc/src/api/navigation.rs", "ticc/src/api.rs", "ticc/src/compiler/resolve.rs"],
  [("resolution records", "ticc/src/compiler/resolve.rs"), ("lookup", "ticc/src/api.rs")],
  ["CompilationUnit::find_definition", "CompilationUnit::find_references"])
p("C11", "Query answers do not depend on query history",
  "A compilation unit is compiled lazily, yet the answer to any query (diagnostics, tokens, definition, references, hover, completion, evaluation) is the same whatever sequence of other queries was asked before it, and the same as on a fresh unit of the same text.",
  ["histories", "inputs"], "all query sequences x all texts, valid or not",
  "Each test asks one query of one fresh unit.",
  ["ticc/src/lib.rs", "ticc/src/compiler.rs", "ticc/src/api"],
  [("incremental compile_up_to", "ticc/src/lib.rs")],
  ["all CompilationUnit queries"],
  [("items", "the prefix of the source compiled so far", "ticc/src/lib.rs:CompilationUnit")])
p("C12", "Layout, comments and local names carry no meaning",
  "Inserting or removing spaces, line breaks (LF or CRLF) and comments between tokens changes neither acceptance, nor diagnostics up to shifted positions, nor results. Consistently renaming bound names, type variables, non-exported definitions and module aliases without capture changes nothing but the names shown.",
  ["programs"], "all programs x all relayouts x all capture-free renamings",
  "Tests use one layout per program.",
  ["ticc/src/compiler/lexer.rs", "ticc/src/compiler/parser.rs", "ticc/src/compiler/resolve.rs", "ticc/src/compiler.rs"],
  [("trivia handling", "ticc/src/compiler/parser.rs"), ("scoping", "ticc/src/compiler/resolve.rs")],
  ["CompilationUnit::diagnostics", "CompilationUnit::interpret"])
p("C13", "Hover shows the right type",
  "Hovering a name in a well-typed program shows its type: the declared type for definitions and constructors at every occurrence, the inferred type for unannotated bindings, and the kind for types; hovering inside any other expression shows that innermost expression's own type. The reported range is exactly the name or expression it describes.",
  ["programs"], "all well-typed programs x all positions",
  "A few hover cases exist, all on tiny sources.",
  ["ticc/src/api/info.rs", "ticc/src/api.rs", "ticc/src/compiler/typeck.rs"],
  [("type recording", "ticc/src/compiler/typeck.rs"), ("type printer", "ticc/src/api.rs")],
  ["CompilationUnit::info"])
p("C14", "Completion offers exactly the names in scope",
  "At any position where a value, type or constructor name is being written, completion offers exactly the names of that sort visible there under lexical scoping plus module aliases, sorted and without duplicates; after a module qualifier it offers only what that module exports. Names defined later or in other scopes are never offered.",
  ["programs"], "all programs x all name positions",
  "Tests check about twenty marked positions.",
  ["ticc/src/api/completion.rs", "ticc/src/compiler/resolve.rs", "ticc/src/compiler.rs"],
  [("scope capture during resolution", "ticc/src/api/completion.rs")],
  ["CompilationUnit::completions"])
p("C15", "Splitting a program into modules preserves it",
  "A program split into modules along import edges (whole-module aliases, exposed lists, or both, in any import graph without cycles, including diamonds) is accepted and evaluates exactly as the equivalent single-module program on every runner. Only exported names are visible through an import, constructors only when exported with their type, and a missing export, a missing module or an import cycle is an error at the import or use.",
  ["programs", "configurations"], "all acyclic module graphs and cut points of well-typed programs, and single visibility faults in them",
  "About ten multi-file tests exist.",
  ["ticc/src/import.rs", "ticc/src/compiler/resolve.rs", "ticc/src/codegen/gen_core.rs", "ticc/src/lib.rs"],
  [("export collection", "ticc/src/import.rs"), ("module emission", "ticc/src/codegen/gen_core.rs:emit_module")],
  ["CompilationUnit::diagnostics", "CompilationUnit::interpret"])
p("C16", "The standard library computes what it says",
  "Every exported function of std/list, std/option, std/result, std/string, std/int and std/array agrees with its mathematical specification on all inputs in its domain, on every runner and optimization level. Array get/set/new/truncate/toList/fromList behave as a fixed-length sequence with out-of-range reads yielding None and out-of-range writes ignored.",
  ["inputs", "configurations"], "all arguments of every std function (lists, strings, 64-bit ints, sequences of array operations)",
  "run-pass tests call each function on one or two inputs.",
  ["ticc/src/std/list.tic", "ticc/src/std/option.tic", "ticc/src/std/result.tic", "ticc/src/std/string.tic", "ticc/src/std/int.tic", "ticc/src/std/array.tic", "ticc/src/builtin.rs"],
  [("library source", "ticc/src/std")], ["CompilationUnit::interpret"])
p("C17", "Integer and string primitives are exact at every boundary",
  "Integers are unsigned 64-bit: addition, subtraction and multiplication wrap, division by zero gives 0, remainder by zero gives the dividend, and comparisons are unsigned. Strings are byte strings: length counts bytes, an out-of-range character is 0, substrings are clamped to the string, character codes are taken modulo 256, and integers print in decimal; constants folded or not, all runners give the same result.",
  ["inputs", "configurations"], "all operand values incl. 0, 2^64-1, offsets past the end, non-ASCII bytes; operands as literals or run-time values",
  "Tests use small ASCII inputs and small numbers.",
  EV + ["ticc-core/src/ir.rs", "ticc/src/codegen/gen_core.rs"],
  [("per-runner primitive implementations", "ticc-eval/src")], ["CompilationUnit::interpret"])
p("C18", "Memory management never changes a program's result",
  "A program's result on the bytecode runner does not depend on how much it allocates or when the heap is collected, compacted or grown: programs that build large strings, wide constructors, closures with many captured variables and long-lived mixed with short-lived data give the same result as the other runners. No allocation below 4 GiB makes evaluation fail while host memory lasts.",
  ["programs", "histories"], "all allocation histories a program can produce (sizes, lifetimes, sharing)",
  "The heavy programs allocate a lot but only in the shapes those programs have, and each has one expected output.",
  ["ticc-eval/src/heap.rs", "ticc-eval/src/bytecode.rs", "ticc-eval/src/tagged.rs", "ticc-eval/src/compile.rs"],
  [("mark/compact collector", "ticc-eval/src/heap.rs"), ("roots", "ticc-eval/src/bytecode.rs")],
  ["CompilationUnit::interpret"],
  [("heap words and object headers", "bump-allocated objects and their pointer masks", "ticc-eval/src/heap.rs")])
p("C19", "The language server always reflects the current documents",
  "After any sequence of opening, changing, closing and reopening documents that import each other (whatever characters their paths have and however the client encodes them), the diagnostics last published for each open document are exactly those of a fresh session given the current texts (for a document that is not open, the file on disk), and closing a document clears its diagnostics. No sequence of valid notifications and requests on open documents stops the server.",
  ["histories"], "all edit histories over sets of documents with changing import graphs",
  "One test performs one dependency update; it does not even run on this platform.",
  ["ticc-lsp/src/main.rs", "ticc-lsp/src/handlers.rs", "ticc-lsp/src/diagnostics.rs"],
  [("version-based staleness", "ticc-lsp/src/main.rs:Compilation::refresh"), ("import tracking", "ticc-lsp/src/main.rs:CompilationModuleResolver")],
  ["textDocument/publishDiagnostics over stdio"],
  [("file versions", "monotonic per-file version", "ticc-lsp/src/main.rs:FileSet"), ("dependencies", "versions a compilation was built from", "ticc-lsp/src/main.rs:Compilation")])
p("C20", "Editor positions and compiler positions correspond exactly",
  "Every position or range the language server sends or receives is in zero-based lines and UTF-16 code units, for any text with multi-byte characters and either line ending: diagnostics, definitions, references, hovers, completions and semantic tokens equal the compiler's own answers translated to that encoding. Positions past the end of a line or of the file are clamped, and one inside a surrogate pair denotes that character.",
  ["inputs"], "all texts incl. astral characters and CRLF x all editor positions",
  "Position tests use ASCII text only.",
  ["ticc-lsp/src/utils.rs", "ticc-lsp/src/semantic_tokens.rs", "ticc-lsp/src/handlers.rs", "ticc-lsp/src/hover.rs", "ticc-lsp/src/go_to_definition.rs", "ticc-lsp/src/find_references.rs", "ticc-lsp/src/completions.rs", "ticc-lsp/src/diagnostics.rs"],
  [("location translation", "ticc-lsp/src/utils.rs"), ("relative token encoding", "ticc-lsp/src/semantic_tokens.rs")],
  ["LSP responses over stdio"])
p("C21", "Match checking is exact",
  "A match over a value of a declared type is accepted exactly when its cases name each constructor of that type once: a missing constructor, a repeated one, or a scrutinee that is not of a declared type is an error, and nothing else is. This holds for generic types, for fold parameters, for nested matches and for types and constructors imported from other modules.",
  ["programs"], "all type declarations x all case lists (subsets, permutations, repetitions) x contexts",
  "Two compile-fail files test a few case lists.",
  ["ticc/src/compiler/matchck.rs", "ticc/src/compiler/typeck.rs"],
  [("constructor bookkeeping", "ticc/src/compiler/matchck.rs")], ["CompilationUnit::diagnostics"])
p("C22", "Unused warnings are exact",
  "A warning is given for precisely those definitions, parameters, pattern variables and imported values that are not exported, are referenced nowhere, and whose name does not start with an underscore; using a constructor counts as using its type. Each warning sits on the definition's name, and warnings never affect acceptance.",
  ["programs"], "all programs x all use patterns",
  "Diagnostics tests contain a few unused names.",
  ["ticc/src/lint/unused.rs", "ticc/src/lint.rs", "ticc/src/api/errors.rs"],
  [("use counting", "ticc/src/lint/unused.rs")], ["CompilationUnit::diagnostics"])
p("C23", "Compilation and evaluation are deterministic",
  "Compiling and running the same sources with the same options gives byte-identical diagnostics, tokens, emitted IR and output every time, in any process, regardless of what was compiled before in the same process.",
  ["programs", "configurations"], "all programs, valid or not, x processes x preceding compilations",
  "Each test compiles once; hash-map iteration order and global counters vary between runs.",
  ["ticc/src/lib.rs", "ticc/src/codegen", "ticc/src/codegen/opt", "ticc-core/src/pretty.rs", "ticc/src/import.rs"],
  [("ordered traversals over hashed maps", "ticc/src/codegen")], ["diagnostics, tokens, emit_ir, interpret"])
p("C24", "Emitted IR denotes the program",
  "The textual intermediate representation emitted for an accepted program, read back under its own evident grammar (operators, precedence, binding, calls, matches, literals), denotes a program whose exports evaluate to the same values as running the source program at the same optimization level. Printing any valid program of the intermediate representation gives text that reads back as that program.",
  ["programs", "configurations"], "all accepted programs x optimization levels; all valid IR programs",
  "No test looks at the emitted text.",
  ["ticc-core/src/pretty.rs", "formatter/src/lib.rs", "ticc/src/codegen.rs"],
  [("pretty printer", "ticc-core/src/pretty.rs"), ("token spacing", "formatter/src/lib.rs")], ["CompilationUnit::emit_ir"])
p("C25", "The command line tool reports faithfully",
  "The command line compiler exits non-zero and prints a diagnostic exactly when the program or any module it imports has an error, in any directory layout and import spelling, including import cycles; otherwise it exits zero. Evaluation, running with an input file or standard input, and IR emission deliver exactly the library's results to the chosen output, for every runner and optimization setting: a file gets the exact bytes, standard output gets text results with a line break after them, and a trap or a `main` that is missing or not of type `string -> string` is reported as an error message. A program, imported module or input that cannot be read, or an output that cannot be written, is reported with the name of that file and a non-zero exit code.",
  ["inputs", "configurations"], "all file layouts, import graphs, option combinations and input bytes",
  "No test runs the command line tool.",
  ["ticc/src/main.rs"],
  [("file module resolver", "ticc/src/main.rs:ChildResolver"), ("exit paths", "ticc/src/main.rs:main")], ["process exit status, stdout, output files"])
p("C26", "A mistake stays in its item",
  "When one top-level item of a well-formed program is damaged (items that start with `let` start at the start of a line) in a way that leaves its brackets and keyword blocks closed, items before it keep exactly their tokens, definitions and types, and items after it that do not depend on it get no error. The damaged item itself gets an error.",
  ["inputs", "programs"], "all well-formed programs x damaged items x damage kinds",
  "A few recovery cases are tested.",
  ["ticc/src/compiler/parser.rs", "ticc/src/compiler/parser/item.rs", "ticc/src/lib.rs"],
  [("item-level recovery", "ticc/src/compiler/parser.rs:error_recover_item")], ["CompilationUnit::diagnostics"])
p("C27", "The IR verifier accepts exactly the valid programs",
  "The verifier of the intermediate representation accepts every program of it that is well scoped and well typed. It rejects a program with a defect other than a match that lacks a branch: a variable, type or type variable used outside its scope, an operand, argument, branch, definition or export of another type than its place requires, a wrong number of arguments, parameters or bound variables, a name introduced twice, a constructor or branch the type does not have.",
  ["programs"], "all valid programs of the intermediate representation, and such programs with one defect anywhere in them",
  "The verifier guards every compilation, but tests only run it on what the code generator and the optimizer happen to produce, which is valid; nothing tests that it would notice.",
  ["ticc-core/src/verify.rs", "ticc-core/src/ir.rs", "ticc-core/src/lib.rs"],
  [("verifier", "ticc-core/src/verify.rs")], ["ticc_core::assert_valid", "ticc_core::assert_valid_with_values"])
p("C28", "The language server answers every request",
  "In any session of well-formed messages, the language server gives exactly one response to each request, with the request's id: a result for the methods it supports, also for positions outside of the document and for documents that are not open, not files, or cannot be compiled; an error for a method it does not support. It answers nothing to notifications and responses, says nothing else but diagnostics, and ends when told to.",
  ["histories", "inputs"], "all sessions of documents opened, changed and closed with any texts and URIs, requests of supported and unsupported methods, notifications, stray responses",
  "Tests drive the handlers of one document directly, never the message loop.",
  ["ticc-lsp/src/main.rs", "ticc-lsp/src/handlers.rs", "ticc-lsp/src/utils.rs"],
  [("message loop", "ticc-lsp/src/main.rs"), ("handlers", "ticc-lsp/src/handlers.rs")], ["messages of the ticc-lsp process"])
p("C29", "Syntax trees keep exactly what was put into them",
  "A syntax tree built from any sequence of nodes, tokens and trivia over any text, starting at any position, gives back exactly those elements: with their kinds and ids, in order, each with the span it took up and its text. The full extent of a node covers all of its parts; its span starts at its first and ends at its last part that is not trivia, and is empty at the node's start if there is none. Walks over the descendants visit every element once, parents before children, in text order, and stop where told to.",
  ["inputs"], "all trees of nodes, tokens and trivia x all texts and start positions",
  "The crate has no tests of its own; the compiler only builds the trees its parser builds.",
  ["ticc-syntax/src/lib.rs", "ticc-syntax/src/cursor.rs", "ticc-syntax/src/pos.rs"],
  [("builder", "ticc-syntax/src/lib.rs:SyntaxBuilder"), ("cursors", "ticc-syntax/src/cursor.rs")], ["ticc_syntax::SyntaxBuilder", "ticc_syntax::cursor::SyntaxNode"])
p("C30", "The token formatter loses nothing and spaces as asked",
  "Formatting any sequence of tokens, line breaks and nested nodes puts out every token, in order. Between two tokens is one line break if one was asked for (an optional one counts in a node that is large or contains a large one), else nothing if either sticks to the other, else one space. A line is indented four spaces for each level; the level is that of the innermost open indenting node which already has a token of its own; an indenting node is one level deeper than the one around it if that one has broken a line of its own before, otherwise at the same level. There is no white space at the ends of lines and no empty line.",
  ["histories"], "all sequences of formatting requests",
  "The crate has no tests; it is only used to print IR.",
  ["formatter/src/lib.rs"],
  [("node tree", "formatter/src/lib.rs:FormatBuilder"), ("spacing and indentation", "formatter/src/lib.rs:RawBuilder")], ["formatter::FormatBuilder"])
p("C31", "Program tests are found completely and judged exactly",
  "From a directory of test programs, get_tests makes exactly these tests, ordered by name with run-heavy last: each compile-fail program unoptimized; each compile-pass program unoptimized and optimized; each run-pass program on every runner unoptimized and optimized; each input of a run-heavy program on every runner, optimized. A test succeeds exactly when: the errors of the main module are those its ERROR lines mark, one each, with the span between the outer carets in the line above (a single caret may stand for an empty span) and a message containing the given text; and the printed lines are the EXPECT lines in order, or the output for the input is the text of the output file (CRLF read as LF). Otherwise the outcome lists exactly the unmarked errors, the marked ones that are missing and those with another message, or both outputs. A missing output file is created with the actual output where that is allowed. A marker that is malformed, missing, or in a program or module that cannot have one, a test directory without a main module or with an unexpected entry, an output without an input, or a missing output that may not be created, is a panic rather than a test.",
  ["inputs"], "all directories of test programs, all programs and expectations in them",
  "It is what says that the other tests pass; nothing tests it. A judge that overlooks a difference hides defects of every other part.",
  ["ticc-tests/src/lib.rs", "ticc-tests/src/util.rs"],
  [("expected errors and outputs", "ticc-tests/src/lib.rs:ModuleSource"), ("comparison", "ticc-tests/src/lib.rs:Test::compile, Test::run"), ("discovery", "ticc-tests/src/lib.rs:get_tests")], ["ticc_tests::get_tests", "ticc_tests::Test::run"])
p("C32", "Error messages say what is wrong and where",
  "In a program whose definitions have written types, the errors are exactly the mistakes, each at its place and with its facts. An expression of another type than its place has is reported at that expression as `expected T, got U`: T the type of the place (an annotation, a parameter, bool of a condition, int of an operand, the result around a branch), U the type of the expression; parts with mistakes of their own still have their type. Types are written as in sources, names without modules, parentheses only where they are needed, type variables by name. A match that is not exhaustive is reported at the match and names the constructors left out in the order they are declared (one, two, or the first and how many more); a repeated branch at the branch; a pattern with a wrong number of variables at the pattern, with both numbers; a match on something without constructors at that, with its type. Also told at the name concerned: undefined variables, types, constructors and modules, names a module does not export, values used as types and the reverse, constructors declared twice, wrong numbers of type arguments with both numbers, invalid and too large numbers, modules that cannot be found.",
  ["inputs"], "all programs with annotated definitions and any number of mistakes of these kinds",
  "Tests hold one program for each message; which types and names appear in it, and that nothing else is reported, depends on the whole program.",
  ["ticc/src/compiler/typeck.rs", "ticc/src/compiler/matchck.rs", "ticc/src/compiler/resolve.rs", "ticc/src/compiler/kindck.rs", "ticc/src/compiler/numck.rs", "ticc/src/api.rs", "ticc/src/api/errors.rs"],
  [("type errors", "ticc/src/compiler/typeck.rs:TypeChecker::unify, check_expr"), ("match errors", "ticc/src/compiler/matchck.rs"), ("printing", "ticc/src/api.rs:TypePrinter; ticc/src/api/errors.rs:format_message")], ["ticc::CompilationUnit::diagnostics"])
p("C33", "Loops run in constant memory on the bytecode runner",
  "On the bytecode runner a loop needs no more memory for many rounds than for few, if what goes from one round to the next is bounded: `iterate` of std/int and std/intrinsics over any step function and state, optimized or not, and in the intermediate language every recursive function that calls itself by its name in tail position - under conditions, matches, lets, local functions and type abstractions - with as many arguments as parameters. Heap and stack together stay as they are, whatever the rounds make and drop: numbers, strings, objects, closures over the state. The result of a short loop is that of the other runners, and N rounds give what N - k rounds after k rounds give.",
  ["histories"], "all step functions and states of bounded size x numbers of rounds",
  "A leak or a stack that grows changes no result until memory runs out; tests run few rounds and look at results alone.",
  ["ticc-eval/src/bytecode.rs", "ticc-eval/src/compile.rs", "ticc-eval/src/heap.rs", "ticc/src/std/int.tic"],
  [("tail calls", "ticc-eval/src/compile.rs:FunctionCompiler::compile_expr"), ("collection", "ticc-eval/src/heap.rs:Heap::collect_inner"), ("stack", "ticc-eval/src/bytecode.rs:Runtime::run")], ["ticc_eval::bytecode::eval", "ticc::CompilationUnit::interpret"])
p("C34", "Syntax errors are at the first wrong token and say what could be there",
  "A text follows the grammar of the language exactly if no syntax error is reported. Otherwise the first one is at the first token that no well-formed text with the same beginning could have there, or just behind the last token if the text ends too early. It says what could be there: every token it names could, of every class it names (definition, type, expression, operator) some token could, and every token that could is named or belongs to a class that is named, once; then the token that is there instead, unless the text ends. Characters that are no token are called bad tokens.",
  ["inputs"], "all sequences of tokens, among them all programs with any small change, in any layout",
  "Tests hold a handful of syntax errors and look at a part of the message; what can follow depends on everything before it.",
  ["ticc/src/compiler/parser.rs", "ticc/src/compiler/parser/expr.rs", "ticc/src/compiler/parser/item.rs", "ticc/src/compiler/parser/type_.rs", "ticc-syntax/src/lib.rs"],
  [("grammar", "ticc/src/compiler/parser/item.rs; expr.rs; type_.rs"), ("messages", "ticc/src/compiler/parser.rs:Parser::emit_error")], ["ticc::CompilationUnit::diagnostics"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
