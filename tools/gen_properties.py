#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place where the properties are worded)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=False):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

S = "src/"
prop("C01", "Parsers accept exactly the PEG language of the grammar they were built from",
 "For every grammar built from the parser combinators and every finite token input, parsing without recovery succeeds exactly when the grammar, read as a parsing expression grammar (ordered choice, greedy repetition, no hidden lookahead), matches a prefix of the input. When it succeeds, the parse tree and the number of tokens consumed are exactly those of that PEG derivation.",
 ["inputs", "programs"], "all grammars over the combinators (primitives, sequencing, choice, optional, repetition, mapping, recursion, user-written parsers) x all token sequences",
 "The existing tests try each combinator alone on three-token arrays; nested grammars, recursion, ordered-choice shadowing and backtracking across several levels are an unbounded product that only one JSON and one EBNF grammar sample.",
 [S+"combinator.rs", S+"algorithm.rs", S+"primitive.rs", S+"recursive.rs", S+"parser.rs"],
 [("sequencing", S+"algorithm.rs: concatenate! / concatenate()"), ("ordered choice", S+"algorithm.rs: alternate! / alternate()"), ("repetition", S+"algorithm.rs: repeat()"), ("recursion", S+"recursive.rs")],
 observe=["the value returned by the parse entry points", "the tokens left over in the stream"])
prop("C02", "A failed attempt consumes nothing and later reads see the original tokens",
 "Whenever any parser inside a grammar fails, with recovery on or off, the input cursor is exactly where that parser started, and every later read sees the same token sequence, indices and locations it would have seen had the attempt never happened. A parser that succeeds or recovers leaves the cursor at or after where it started.",
 ["inputs", "programs"], "every node of every grammar, at every invocation made while parsing every input, with recovery enabled and disabled",
 "Tests only look at the cursor after a top-level parse of a three-token input; the buffer rotation behind backtracking only happens on longer inputs and deeper attempts.",
 [S+"stream.rs", S+"combinator.rs", S+"algorithm.rs", S+"recovery.rs", S+"primitive.rs"],
 [("save/restore", S+"stream.rs: save(), restore(), attempt()"), ("restore on failure", S+"algorithm.rs, "+S+"combinator.rs: TryMap, ToRecover"), ("user-level validation that fails or recovers", S+"combinator.rs: TryMap")],
 state=[("cursor", "index of the next token", S+"stream.rs: index, index_in_buffer")],
 observe=["stream index, token, span seen by an instrumented parser wrapped around every grammar node"])
prop("C03", "A failed parse reports the right token, expectations and location",
 "When a parse fails, the reported failure position is that of the alternative that got furthest (the earliest-listed one on a tie), and the reported errors are that alternative's own. If that is a single \"expected X, found Y\" error, its expected set is its own together with those of all other failed alternatives' expected-found errors at the same location, and the found token and location are those of the offending token; otherwise the errors are passed on unchanged.",
 ["inputs", "programs"], "all grammars (including ones whose parsers raise custom or multiple errors) x all inputs they do not match",
 "Tests match on the variant only or on a single flat alternative; merging across nested choices, ties, equal and unequal locations, and alternatives with custom errors are combinatorial.",
 [S+"algorithm.rs", S+"error.rs", S+"primitive.rs", S+"combinator.rs"],
 [("furthest-failure ordering and expected-set merging", S+"algorithm.rs: alternate! / alternate()"), ("expected-found construction", S+"primitive.rs"), ("merge", S+"error.rs: merge_expected_found()")],
 observe=["failure index and error list of a failed parse"])
prop("C04", "Recovery never changes valid parses and never hides an error",
 "Adding recovery strategies to a grammar, or enabling recovery, changes nothing for input the grammar matches: same tree, same consumption, plain success. Conversely a parse is reported as plain success only if parsing without recovery also succeeds; whenever any error was recovered from or a validation step reported one, the result is marked recovered or failed, carries those errors in order, and the error-only entry point returns an error.",
 ["inputs", "programs"], "all grammars with recovery strategies and recovering validation at any subset of nodes x all inputs, valid and invalid",
 "Tests attach one strategy to one token parser; losing errors needs a recovered child under another combinator (repetition, mapping, choice), a combination no test has.",
 [S+"parser.rs", S+"combinator.rs", S+"algorithm.rs", S+"recovery.rs"],
 [("recovered-error propagation", S+"parser.rs: Result::try_map; "+S+"algorithm.rs: concatenate, repeat, alternate"), ("recovery gate", S+"combinator.rs: ToRecover")],
 observe=["result variant, tree, error list and leftover tokens of parses with and without recovery"])
prop("C05", "Recovery strategies perform exactly the documented sequence of steps",
 "When a parser with a recovery strategy fails, the strategy's steps run in order from the parser's start position with the documented effect of each (restart, seek, skip, find, scan, branch, loop, retry or alternative parse, error-list edits), the first step that yields a tree ends recovery at the position it reached, and the final error list is the original errors as edited by the steps. If no step yields a tree, the parse fails at the original failure position with the edited errors and the cursor back at the start.",
 ["inputs", "programs"], "all strategies composed of the provided steps, nested in all grammars x all inputs",
 "Tests run each step once on a fixed three-token input; step sequences, nested strategies, re-entrant recovery in retried parsers and interaction with the moving failure position are never exercised.",
 [S+"recovery.rs", S+"combinator.rs", S+"scanner.rs"],
 [("strategy steps", S+"recovery.rs: impl Recover for each step"), ("driver", S+"combinator.rs: ToRecover::parse_internal")],
 state=[("failed_at", "position where the most recently run parser failed", S+"recovery.rs: Recover::recover argument")],
 observe=["tree, error list, failure index and leftover tokens of a parse with recovery enabled"])
prop("C06", "Repetition honours its minimum, maximum, separator, leading and trailing rules",
 "Repeating an item with or without a separator greedily matches as many items as the bounds allow, fails without consuming anything if fewer than the minimum match, and never returns more than the maximum. A separator is consumed only between two items, except one optional leading separator if leading separators are allowed (even with no items) and one optional trailing separator if trailing separators are allowed and at least one item matched; the output has one entry per item in order.",
 ["inputs", "configurations"], "all (minimum, maximum, separator, leading, trailing) configurations with minimum <= maximum x all item/separator/other token sequences, short and long",
 "Tests check a handful of configurations on inputs of at most a few tokens; the product of bounds, flags and input shapes (double separators, separator at the end, exactly at the maximum) is unbounded.",
 [S+"algorithm.rs", S+"combinator.rs"],
 [("repetition loop", S+"algorithm.rs: repeat()"), ("configuration", S+"combinator.rs: SeparatedBy")],
 observe=["item list, result variant and leftover tokens"])
prop("C07", "Streaming parses equal repeated parses of the leftover input",
 "Each result produced by a streaming parse equals what parsing the not-yet-consumed rest of the input from the current location would produce, so that the whole sequence of results is that of repeated parses, and the stream ends exactly when the input is exhausted. Converting the stream to its tail at any point yields exactly the unconsumed tokens in order, and then keeps yielding nothing.",
 ["inputs", "programs", "histories"], "all parsers x all inputs x all numbers of streaming steps taken before taking the tail",
 "Tests take one or two streaming steps on three tokens; buffer reuse between steps and the interplay of failed, recovered and successful steps need long inputs and histories.",
 [S+"parser.rs", S+"stream.rs"],
 [("streaming iterator", S+"parser.rs: Stream::next, Stream::tail, Tail::next")],
 state=[("input", "backtracking stream carried from step to step", S+"parser.rs: Stream::input")],
 observe=["items of the streaming iterator", "items of the tail iterator"])
prop("C08", "Reading is lazy, memory is bounded by the backtracking window, no poll after end",
 "Parsing pulls no token from the source beyond the furthest one it needed to look at, and never asks the source for more after it reported its end. A streaming parse of arbitrarily many items retains a number of tokens that is bounded by the largest backtracking window in use, not by the amount of input already consumed.",
 ["inputs", "programs", "histories"], "all parsers x all inputs, up to hundreds of thousands of tokens for the retention bound",
 "Nothing in the test suite observes the source iterator or how many tokens are alive, and its inputs are too short for the buffer ever to be trimmed.",
 [S+"stream.rs", S+"parser.rs"],
 [("buffer trimming", S+"stream.rs: make_next_available()"), ("backtrack markers", S+"stream.rs: save(), SavedState")],
 state=[("buffer", "tokens that may still be needed", S+"stream.rs: buffer"), ("markers", "live saved positions", S+"stream.rs: backtrack_markers")],
 observe=["calls made to the source iterator", "number of live (undropped) tokens"])
prop("C09", "The token stream is a faithful cursor over its source for every call history",
 "For every sequence of reads, advances, saves, restores, look-ahead saves, nested attempts and dropped saved positions, the token stream behaves like a cursor over the complete token list: reads return the token at the cursor (or end of input), advancing succeeds unless at the end, any live saved position can be restored to or queried for its token, index and location, and none of these operations disturbs another.",
 ["histories", "inputs"], "all histories of stream operations allowed by their documented preconditions x all inputs x all interleavings of saving and dropping saved positions",
 "The stream has no tests of its own; its buffer trimming, end-of-input sentinel and weak marker reuse depend on the history and on internal capacity.",
 [S+"stream.rs"],
 [("cursor operations", S+"stream.rs: token, advance, advance_to, save, save_at, restore, attempt"), ("trimming", S+"stream.rs: make_next_available")],
 state=[("buffer/index_in_buffer/index", "window onto the source", S+"stream.rs"), ("source_at_eof", "end sentinel is buffered", S+"stream.rs")],
 observe=["return value of every stream operation compared with a list-and-index model"])
prop("C10", "Reported spans and locations are exactly those of the tokens concerned",
 "Every location or span handed to user code or attached to an error is that of the tokens it describes: token index, and for the rich tracker also the 1-based row and column and 0-based byte offset obtained by summing the text of all preceding tokens from the start location, with the configured filename. Spans of matched input run from the start of the first to the end of the last matched token and are empty when nothing was matched; this holds after any amount of backtracking, recovery and streaming.",
 ["inputs", "programs"], "all grammars with span-consuming steps at any node x all inputs x all token texts (multi-byte, multi-line, empty) x all start locations",
 "Only index spans of one-token parses are tested; the rich tracker (rows, columns, byte offsets) has no test with newlines, multi-byte text or backtracking.",
 [S+"location.rs", S+"stream.rs", S+"combinator.rs", S+"recovery.rs", S+"primitive.rs"],
 [("tracker advance", S+"location.rs: Rich::advance"), ("span construction", S+"stream.rs: span(), spanning_back_to(), location_tracker_at()")],
 observe=["spans and locations passed to mapping functions, strategies and scanners, and those in errors"])
prop("C11", "Nested-delimiter scanning stops at the match and reports every mismatch",
 "Scanning nested delimiters from a left delimiter stops just before the right delimiter that closes it, under the documented policy: a right delimiter closes the innermost open left of its type, everything opened inside it is reported as an unclosed left delimiter, a right delimiter whose type is not open closes the innermost left with a type-mismatch error, and at end of input every still-open left is reported innermost first. For well-nested input no error is reported, and if the first token is not a left delimiter neither the position nor the errors change.",
 ["inputs", "configurations"], "all delimiter tables (including equal left and right delimiters) x all token sequences",
 "Tests cover a few fixed strings; mismatch handling depends on the whole stack of open delimiters and on the rest of the input.",
 [S+"scanner.rs", S+"recovery.rs"],
 [("delimiter matching", S+"scanner.rs: NestedDelimiters::handle_token, eof"), ("scan loop", S+"recovery.rs: Scan")],
 state=[("stack", "currently open left delimiters", S+"scanner.rs: NestedDelimiters::stack")],
 observe=["position after scanning and list of delimiter errors"])
prop("C12", "Token matchers treat every kind of container and token the same",
 "A token matcher accepts the next token exactly if it satisfies the matcher's definition (equal to the token, next in the sequence, member, non-member, filter function true, end of input), consumes exactly the matched tokens, and returns the incoming token or the filter's result. The outcome depends only on the tokens a container holds in order, not on whether it is given as a single token, string, array, slice or vector, by value or by reference.",
 ["inputs", "configurations"], "all matchers x all container kinds and contents (empty, repeated, multi-byte) x all inputs (owned and borrowed tokens)",
 "Tests use one two-element array of borrowed characters per matcher; container kinds, multi-byte strings, empty containers and tokens with coarse equality are not covered.",
 [S+"primitive.rs", S+"container.rs"],
 [("matchers", S+"primitive.rs: just, seq, one_of, none_of, filter, filter_map, end, empty, none"), ("container abstraction", S+"container.rs: impl Container")],
 observe=["result, output token identity and leftover tokens per matcher"])
prop("C13", "Rewriting a grammar by the documented equivalences does not change its behaviour",
 "Equivalent ways of writing a grammar behave identically on all inputs, including errors and consumption: boxing, cloning, stating the error type, wrapping in a recursive definition, sequencing pairwise or as a chain, delimiting versus sequencing-and-discarding, padding versus delimiting by the same parser, optional versus choice with nothing, binary choice versus a two-element choice list, exact repetition versus a chain, shorthand recovery constructors versus their long forms. Re-associating sequences and choices preserves acceptance, output and consumption.",
 ["inputs", "programs"], "all grammars and strategies used as operands of each equivalence x all inputs, with and without recovery",
 "Each form has at most its own example test; no test compares two forms with each other.",
 [S+"combinator.rs", S+"algorithm.rs", S+"recursive.rs", S+"recovery.rs", S+"parser.rs"],
 [("compile-time and run-time variants of sequencing and choice", S+"algorithm.rs"), ("shorthand strategies", S+"recovery.rs")],
 observe=["full results and leftover tokens of the two forms"])
prop("C14", "The error type never influences what is parsed",
 "Choosing a different error type (detailed, location-rich, or the one that records nothing) or transforming errors while parsing never changes whether a parse succeeds, recovers or fails, the tree, the tokens consumed, the failure position or, apart from merging, the number of errors. An error transformation is applied to every error leaving the transformed parser exactly once and to nothing else.",
 ["inputs", "programs"], "all grammars, with recovery and with error transformations at any node x all inputs x all provided error types",
 "Tests instantiate one error type per parser and never compare two; error mapping is an explicit TODO in the test suite.",
 [S+"error.rs", S+"combinator.rs", S+"algorithm.rs"],
 [("error abstraction", S+"error.rs: trait Error, Void, Simple"), ("error mapping", S+"combinator.rs: MapErr, MapErrWithSpan")],
 observe=["results of the same grammar and input under each error type"])
prop("C15", "Parse results convert and transform without losing information",
 "The operations on parse results obey their laws: a success converts to a success value and everything else to the first error (or a generic one if there is none); the tree and error accessors expose exactly what the result holds, in order; mapping the tree or the errors touches only that part and preserves the variant; and a fallible mapping accumulates earlier errors before later ones and never turns a recovered result into a plain success.",
 ["inputs"], "all parse results (each variant, any error list) x all mapping functions and their outcomes",
 "The result type has no direct tests.",
 [S+"parser.rs"],
 [("result operations", S+"parser.rs: Result::{is_ok,tree,errors,map,map_err,try_map}, From, ErrorIter")],
 observe=["return values of the result operations"])
prop("C16", "Errors and locations render to text that states exactly what they contain",
 "The text of an error names every expected token exactly once (in any order, end of input as EOF, comma/or separated grammatically), the found token or EOF, the delimiters and spans involved, and the location if and only if it is known. Locations and spans render as filename, row and column.",
 ["inputs"], "all errors of every kind with any expected set, tokens, locations and spans",
 "No test renders an error or a location.",
 [S+"error.rs", S+"location.rs"],
 [("rendering", S+"error.rs: impl Display for Simple, At; "+S+"location.rs: impl Display")],
 observe=["formatted text, parsed back by the oracle"])
prop("C17", "Parsing is total: it never panics and always ends on well-formed grammars",
 "Parsing any input with any well-formed grammar (no left recursion, no repetition of an item that can match nothing) terminates and returns a result: it never panics, whatever the input, recovery strategy, user-supplied parser result allowed by the parser contract, or depth of backtracking. Only the documented misuses are rejected loudly: using an undefined recursive parser, defining one twice, and advancing backwards.",
 ["inputs", "programs"], "all well-formed grammars and strategies, including user-written parsers that use every freedom their contract allows x all inputs up to hundreds of tokens",
 "Internal assertions (unreachable branches, buffer index checks, marker checks) guard states the small tests never approach.",
 [S+"stream.rs", S+"algorithm.rs", S+"combinator.rs", S+"recovery.rs", S+"recursive.rs"],
 [("assertions and unreachable!s", S+"algorithm.rs: alternate, concatenate, repeat; "+S+"stream.rs: restore, save_at, token_at"), ("misuse checks", S+"recursive.rs: define, parse_internal; "+S+"stream.rs: advance_to")],
 observe=["panic or exhausted operation budget during a parse"])
prop("C18", "Parsing is deterministic and parsers are immutable and freely shareable",
 "Parsing the same input twice, with the same parser, a clone of it, or an identically built one, gives identical results. A parser keeps no state between parses: any interleaving of parses, streaming steps and sub-parses through shared clones, including one parser used by several live streams or embedded in several grammars, gives the same results as each run on its own.",
 ["histories", "programs", "inputs"], "all interleavings of streaming steps and parses over shared parsers x all grammars and inputs",
 "Every test builds a parser, runs it on one stream at a time and discards it.",
 [S+"combinator.rs", S+"parser.rs", S+"recursive.rs", S+"recovery.rs"],
 [("shared parsers", S+"combinator.rs: Boxed, Chain, Alters Clone impls; "+S+"recursive.rs: Recursive; "+S+"recovery.rs: Boxed")],
 observe=["results of interleaved runs compared with isolated runs"])
prop("C19", "Grammar-tool tokenizers split text by longest match and lose nothing",
 "Tokenizing any text yields consecutive tokens, each the longest match of any token rule at its position (the first-declared rule on a tie), with whitespace rules skipped, so that the tokens and skipped whitespace concatenate to the input and each token's span is its position in the text. Text that no rule matches is rejected, identifying the position where it starts.",
 ["inputs", "programs"], "all input texts, and for the bootstrap tool all token rule sets",
 "The grammar tool is only run on its own specification; no test feeds it arbitrary or malformed text or other rule sets.",
 ["pangram/bootstrap.py", S+"test_pangram.rs"],
 [("tokenizer", "pangram/bootstrap.py: tokenize() and rule-to-regex conversion; "+S+"test_pangram.rs: Tokenizer")],
 observe=["token list or error"])
prop("C20", "The grammar tool accepts exactly its specified grammar language",
 "For every grammar file text, the bootstrap tool accepts it exactly if it conforms to the tool's own specification, and the resulting syntax tree reflects the rules, alternation, sequencing, repetition and options as written. Parsing any input with a grammar loaded this way gives the PEG result for that grammar.",
 ["inputs", "programs"], "all grammar texts derivable from the self specification and near misses of them x all inputs for those grammars",
 "The tool has no tests; it is only ever applied to two files.",
 ["pangram/bootstrap.py", "pangram/self-spec.ebnf"],
 [("self-description", "pangram/bootstrap.py: Grammar, rules"), ("parse", "pangram/bootstrap.py: parse()")],
 observe=["acceptance, syntax tree and parse results"])
prop("C21", "The grammar tool reproduces itself and its generated parser agrees with it",
 "Running the tool on its own specification reproduces the checked-in generated parser and a description of itself equal to the built-in one, regardless of layout or comments in the specification. On every text, the generated parser and the tool agree on acceptance and on the syntax tree.",
 ["inputs", "programs"], "all layout variants of the self specification x all grammar texts, valid and invalid",
 "The generated file is only compiled and run on one file; equality between the two implementations is never checked.",
 ["pangram/bootstrap.py", "pangram/self-spec.ebnf", S+"test_pangram.rs"],
 [("generator", "pangram/bootstrap.py: Rust code generation"), ("generated parser", S+"test_pangram.rs")],
 observe=["generated source text; acceptance and trees from both implementations"])
prop("C22", "Generated parsers implement the grammars they are generated from",
 "For every grammar with distinct variant names and no left recursion, the Rust code that the grammar tool generates builds, and its parser for each rule accepts exactly the texts that the tool itself accepts for that rule, which is the PEG result of the grammar, with the same tokens. The tree it builds has the derivation's rules, variants and tokens, and the immutable and the mutable visitor reach every one of its nodes and tokens once, in text order.",
 ["programs", "inputs"], "all grammars x all inputs, valid and invalid",
 "The only parser ever generated is the one for the tool's own specification, which uses few of the constructs a grammar may combine.",
 ["pangram/bootstrap.py"],
 [("generator", "pangram/bootstrap.py: chumsky_construct(), chumsky_define(), as_chumsky*(), generate_traverse()"), ("combinators underneath", S+"combinator.rs")],
 observe=["whether the generated code builds; tokens, acceptance and trees of the generated parser"])
prop("C23", "The grammar tool rejects ill-formed grammars, and only those",
 "Loading a grammar fails with an error if it has no grammar rule, a used rule refers to an undefined symbol, a used symbol is defined both as a grammar rule and as a token rule, a token rule refers directly or indirectly to itself or to a grammar rule, a grammar rule contains a character set, a character range is reversed, or an escape is no code point. It never hangs, and it succeeds when none of that is the case.",
 ["programs"], "all grammar texts that conform to the specification's syntax",
 "The tool is only run on grammars without such defects.",
 ["pangram/bootstrap.py"],
 [("checks", "pangram/bootstrap.py: AstGrammar.__init__, AstReference.as_regex(), AstCharacterSet, AstLiteral.scan_char()")],
 observe=["error or success of loading"])
prop("C24", "Documentation comments of a grammar become documentation of the generated code",
 "The documentation comment in front of the first definition of a rule, and that in front of an alternative of a rule with several alternatives, is found line by line, without the comment's decoration, as the documentation of the type or variant generated for it (for a token rule, its type and its token type). It is not given to anything else, and the generated code does not otherwise depend on documentation comments.",
 ["programs"], "all grammars with documentation comments of any text",
 "The tool has only ever been run on its own specification, and nothing compares the documentation.",
 ["pangram/bootstrap.py"],
 [("documentation", "pangram/bootstrap.py: AstGrammar._clean_doc(), AstGrammar.__init__, chumsky_define(), chumsky_define_token()")],
 observe=["documentation of the types and variants of the generated code"])
prop("C25", "The errors of the grammar tool and its generated parser tell what is wrong where",
 "When the grammar tool, a grammar it has loaded, or the generated parser rejects a text that consists of tokens, its error is at a token of the text or at its end, and names that token, with its position in the text, as the one found. As expected it only names tokens that reading the text by the rules of the grammar looks for at just this place, and does not find there.",
 ["inputs", "programs"], "all texts that the grammar tool or the generated parser rejects, all grammars",
 "No test looks at a rejection by the grammar tool or by the generated parser.",
 ["pangram/bootstrap.py", S+"test_pangram.rs"],
 [("tool", "pangram/bootstrap.py: ParserFactory.term() and the combinators that pass errors on, Parser.parse(), Loc, Span"), ("generated parser", S+"test_pangram.rs: TerminalPatterns, TerminalToken; "+S+"error.rs, "+S+"algorithm.rs")],
 observe=["error message of the tool; error of the generated parser"])
prop("C26", "A parser written for a whole language (JSON) reads texts of any size",
 "A parser for JSON that is composed of the combinators of this library accepts exactly the JSON texts, whatever their length and nesting, and yields the value they denote with the position and extent of each value in it; values that a validation objects to are reported with their extent. An error for a text that is not JSON is where the parser stops, names what it found there, and expects only what may stand there. On a stream of such texts one after the other, each step yields the value of the next text, up to a text that is malformed, where the stream stays. On a stream line by line, each step yields the value of the next line, and with a strategy that finds the end of the line, a malformed line yields the substitute and its error while all lines before and after it are read as if it were not there.",
 ["inputs"], "all texts, well-formed or not; all streams of lines; two ways to write the grammar, with and without trailing commas",
 "The tests parse at most a handful of tokens each, but for one that reads one well-formed JSON file over and over, to measure the time, and does not look at the values; no malformed text and no recovery on a stream is tried.",
 [S+"combinator.rs", S+"primitive.rs", S+"recursive.rs", S+"algorithm.rs", S+"stream.rs", S+"location.rs", S+"recovery.rs", S+"parser.rs"],
 [("parse", S+"combinator.rs: Then, Or, Alters, Repeated, SeparatedBy, DelimitedBy, PaddedBy, TryMap, MapWithSpan; "+S+"recursive.rs: recursive()"), ("stream", S+"parser.rs: stream_with_location(); "+S+"recovery.rs: Find, Skip")],
 observe=["value with spans, errors with positions, results of a stream of lines"])
if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
