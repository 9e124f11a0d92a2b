#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
S = "src/"
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": [S + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}

props = [
P("C01", "A backtracking token stream always shows the source's own tokens",
  "After any sequence of reading, advancing, saving (here or at a later position), restoring backwards or forwards, nested attempts and dropping of saved positions, the token shown at absolute index i is exactly the i-th token of the source, and end of input is shown exactly at the source's length. The index, the location and the location or index of any live saved position are likewise those of their absolute position, and advancing past the end reports failure and does not move. No such history panics.",
  ["histories", "inputs"], "every history of public stream operations over every source and every number of simultaneously live saved positions",
  "The unit tests only read three to six tokens, so the buffer never fills up, is never drained and never regrows; they never hold several saved positions or jump forwards.",
  ["stream.rs"], [("buffer of tokens from the oldest live saved position", "Stream::make_next_available"), ("index/buffer-relative cursor pair", "Stream::restore, Stream::save_at, Stream::advance_to")],
  [("cursor", "absolute index of the next token", "Stream.index"), ("window", "buffered tokens and cursor inside it", "Stream.buffer, Stream.index_in_buffer"), ("saved positions", "positions that must stay reachable", "Stream.backtrack_markers")],
  ["values returned by the public methods of stream::Stream"]),
P("C02", "The source is consumed lazily, in order, once, and never after its end",
  "Every item of the source is requested exactly once and in order, never before some operation needs to look at it: at most the tokens up to the furthest position examined so far have been requested. Once the source has reported its end it is never asked again, and the end stays where it was found, even if the source would produce more items.",
  ["histories", "inputs"], "every history of stream operations and every parse of every grammar over every source, including sources that resume after their end",
  "The tests use fused slices and look only at the final result, never at when items were requested; over-reading blocks an interactive input but changes no result.",
  ["stream.rs", "parser.rs"], [("refill on demand with an end-of-input sentinel", "Stream::make_next_available"), ("bulk advance over the buffered part", "Stream::advance_to")],
  [("requested", "number of items requested from the source", "Stream.source"), ("ended", "source reported its end", "Stream.source_at_eof")],
  ["an instrumented source iterator"]),
P("C03", "Streaming keeps only tokens that can still be backtracked to",
  "Parsing an arbitrarily long input item by item holds a number of tokens bounded by the longest distance between the oldest position still saved and the furthest token read, independent of the total input length. Tokens that no live saved position can reach are released as parsing proceeds, and positions whose saved state has been dropped stop pinning tokens. Neither does the memory the parser holds on to between items grow with the length of the input in any other way: saved positions that were dropped leave nothing behind that accumulates.",
  ["histories", "inputs"], "every long history whose saved positions are eventually released",
  "A test sees the same results whether or not the whole input is retained; only input much longer than the window shows a leak.",
  ["stream.rs"], [("weak markers, pruned when the buffer is full; drain up to the oldest live one", "Stream::make_next_available, Stream::save")],
  [("retained", "tokens held by the stream", "Stream.buffer")], ["reference counts of the tokens handed to the stream"]),
P("C04", "A parser that fails consumes nothing",
  "Whenever a parser (any combinator, any nesting depth, with recovery allowed or not) reports failure, the input position afterwards is exactly the position it started from, so the next alternative, retry or streamed parse starts from the same token. This includes failures after partial matches, after rejected mapping functions and after unsuccessful recovery strategies that moved the position.",
  ["programs", "inputs"], "every grammar over the public combinators and strategies, every input, every nested parser invocation made while parsing it",
  "The tests check the tail after one top-level failure of single combinators; nested failures followed by further attempts, and failures of mapping functions or strategies, are not looked at.",
  ["algorithm.rs", "combinator.rs", "recovery.rs", "primitive.rs", "stream.rs"],
  [("save at entry, restore on failure", "concatenate, repeat, TryMap, ToRecover, Seq, Maybe"), ("restore on Err", "Stream::attempt")],
  [("entry position", "position saved when a combinator starts", "initial / started_at / from")], ["Stream::index() around every nested parser call, via user-level wrapper parsers"]),
P("C05", "Strict matching follows ordered-choice grammar semantics",
  "With no recovery involved, a parser accepts exactly the prefix its grammar denotes: concatenations match their parts one after the other, alternatives take the first one that matches and never revisit it, optional parts never fail, and each token matcher accepts exactly its tokens. The produced output is assembled from the parts exactly as documented (pairs, left or right part, middle part, lists in order, optional values).",
  ["programs", "inputs"], "every grammar built from the public primitives and combinators, every input",
  "Each test runs one combinator over two or three fixed inputs; interactions between nested combinators, long lists of alternatives and order of outputs are not covered.",
  ["primitive.rs", "combinator.rs", "algorithm.rs", "container.rs", "parser.rs"],
  [("concatenation", "algorithm::concatenate, concatenate!"), ("ordered choice", "algorithm::alternate, alternate!"), ("token matchers", "primitive.rs parse_internal"), ("token sets and sequences", "container::Container")], None,
  ["parser::Result of the public entry points"]),
P("C06", "Repetition and separated lists are greedy and respect their limits",
  "A repetition matches as many items as possible up to its maximum, fails if fewer than its minimum match, and leaves the position right after the last accepted item; separators are required exactly between items and a separator not followed by an item is given back. A leading separator is accepted only if enabled (even when no item follows), and a trailing one only if enabled and at least one item was parsed.",
  ["programs", "inputs", "configurations"], "every combination of minimum and maximum (not contradicting each other; a maximum of at least 1 when leading separators are enabled), separator, leading and trailing options, every item and separator parser that consumes input, every input",
  "The tests use at most three items and never combine minimum, maximum, leading and trailing options.",
  ["algorithm.rs", "combinator.rs"], [("repetition loop", "algorithm::repeat"), ("limit and separator options", "combinator::SeparatedBy builder methods")], None,
  ["parser::Result and remaining tokens"]),
P("C07", "Recovery is honest: success, recovered and failed mean what they say",
  "If an input parses without recovery, allowing recovery gives the identical success; if it does not, the result is never a success. A recovered result carries a non-empty list with every error of every recovered part, in input order and none lost, and with recovery disallowed no recovered result is ever produced.",
  ["programs", "inputs"], "every grammar with recovery strategies at any place (inside repetitions, alternatives, sequences and mappings), every input, at every nested call",
  "The tests attach a strategy to a single top-level parser, so propagation of recovered errors through enclosing combinators is never observed.",
  ["algorithm.rs", "combinator.rs", "parser.rs", "recovery.rs"],
  [("recovered error accumulation", "concatenate, repeat"), ("strict pass before recovering pass", "alternate"), ("strategy run only when allowed", "ToRecover"), ("composition of recovered results", "parser::Result::try_map")], None,
  ["parser::Result with recovery allowed versus not"]),
P("C08", "Failures report the alternative that got furthest",
  "A failed parse reports the position of the token it could not match and the errors found there; among alternatives the one that got furthest decides both position and errors (the earliest on ties), and recovery is attempted in that order. Expected-token errors of other alternatives at the same location are merged into it when it has a single such error; any other error list is reported unchanged.",
  ["programs", "inputs"], "every nesting of alternatives and sequences, every input",
  "Existing tests only check the failure index of single combinators; which alternative's errors are reported, merging and ties are never asserted.",
  ["algorithm.rs", "error.rs", "primitive.rs"], [("descending sort by failure index and merge", "algorithm::alternate, alternate!"), ("expected-set union", "error::Simple::merge_expected_found")], None,
  ["the Failed and Recovered variants of parser::Result"]),
P("C09", "Recovery strategies run as a sequence of documented steps",
  "A strategy performs its steps in the order written, starting at the failed parser's start: seeking, skipping, finding, restarting and seeking to the failure move exactly as documented and never beyond the end of input, tentative steps restore the position on failure but keep errors, and the first step that yields an output ends recovery there. Error-editing steps see the error list, location, span or token of that moment; silenced or exact retries add no errors or use no nested recovery; the resulting position, output and error list are exactly those of the sequence.",
  ["programs", "inputs"], "every sequence of strategy steps (also nested), every failed parser, every input",
  "The tests cover nine fixed strategies of one or two steps and never look at the error list.",
  ["recovery.rs", "combinator.rs", "stream.rs"], [("child first, then own step", "Recover::recover implementations"), ("failure position of the last parser run", "Retry, TryToParse, SeekToFailed")],
  [("started_at", "where the failed parser began", "ToRecover"), ("failed_at", "token that stopped the last parser run", "ToRecover, Retry, TryToParse"), ("errors", "list under construction", "Recover::recover")],
  ["parser::Result and remaining tokens"]),
P("C10", "Delimiter scanning stops at the matching delimiter and reports mismatches",
  "Scanning nested delimiters from an opening delimiter stops exactly before the closing delimiter that leaves nothing open, for any nesting and any mix of types including types whose two delimiters are equal. On the way a wrong closing delimiter closes up to the matching open one if there is one (reporting each unclosed one), otherwise closes the innermost with a type mismatch report; a closing delimiter with nothing open is reported as unmatched; at end of input every delimiter still open is reported, innermost first.",
  ["inputs", "configurations"], "every set of delimiter types and every token sequence",
  "The test covers six inputs and no error report.",
  ["scanner.rs", "recovery.rs"], [("stack of open delimiters", "NestedDelimiters::handle_token"), ("scan loop", "recovery::Scan")],
  [("stack", "open delimiters with their spans", "NestedDelimiters.stack")], ["recovered position and error list"]),
P("C11", "Spans and locations are those of the consumed tokens",
  "Every span given to a mapping function, strategy step or error covers exactly the tokens from the start of the parser or token concerned to its end (empty where nothing was consumed), and every location is that of its token index. With the row/column tracker, rows, columns and byte offsets equal those obtained by counting over the text of all preceding tokens from the given start location, regardless of backtracking.",
  ["inputs", "programs", "histories"], "every grammar, every token text (multi-line, multi-byte, empty), every start location, every backtracking history",
  "Only two tests look at a span, both at the start of the input; the row/column tracker is only used by a test that checks no position.",
  ["location.rs", "stream.rs", "combinator.rs", "recovery.rs", "primitive.rs"], [("tracker stored with each buffered token", "Stream::make_next_available, Stream::location_tracker_at"), ("span from saved position", "Stream::spanning_back_to, Stream::span"), ("row/column arithmetic", "location::Rich::advance")], None,
  ["spans passed to user closures and stored in errors"]),
P("C12", "Streamed parsing equals repeated parsing of what is left",
  "The n-th result of streaming a parser over an input equals parsing the tokens left over by the first n-1 results, with indices and locations continuing from there. The stream of results ends exactly when no token is left, a failed result leaves the tokens in place, and the tail yields exactly the tokens not consumed, each once and in order.",
  ["inputs", "programs", "histories"], "every grammar, every input, every number of results taken before the tail is requested",
  "Tests take one result and then the tail of at most six tokens, so state carried between results (buffer, saved positions, location) is not exercised.",
  ["parser.rs", "stream.rs"], [("one stream shared by all results", "parser::Stream::next, Tail::next")], None, ["items of Parser::stream() and tail()"]),
P("C13", "Token matchers report exactly what was expected and found",
  "A token matcher that fails reports one error naming exactly the tokens it would have accepted (or none if it cannot list them), the token actually found or end of input, and the place of that token. A token matcher that succeeds yields the token taken from the input itself, consumes exactly that token (a sequence: exactly its tokens), and the end-of-input matcher accepts only the end.",
  ["inputs", "programs"], "every matcher configuration (all accepted container types) at every position of every input",
  "Tests only check that the result is a failure with some error list; the content of errors is never compared.",
  ["primitive.rs", "error.rs", "container.rs"], [("expected/found construction", "primitive.rs parse_internal"), ("expected set", "error::Simple::expected_found")], None, ["error::Simple values, outputs"]),
P("C14", "All entry points and result views agree",
  "For every input the plain parse returns the output exactly when the recovering parse succeeds, and otherwise the first error of its list; a voided error type changes no outcome; starting with an explicit location changes only locations. Views and transformations of a result (output, errors, mapping outputs, mapping errors, fallible mapping) keep its kind and failure position and keep all errors in order.",
  ["inputs", "programs"], "every grammar and input; every result value",
  "Few tests use the plain entry points and none compares them or uses the result transformations on recovered values.",
  ["parser.rs", "error.rs"], [("conversion to the standard result", "From<parser::Result>"), ("views and maps", "parser::Result methods, ErrorIter")], None, ["return values of the parse entry points"]),
P("C15", "Boxing, cloning, recursion and error annotation are transparent",
  "Wrapping a parser or strategy in a box, cloning it, giving it an explicit error type, or referring to it through a recursive declaration never changes any result, position or error. A recursive parser behaves at each reference exactly as its definition, for any depth of recursion in the input, and clones of a declaration made before it is defined share that definition.",
  ["programs", "inputs"], "every grammar with wrappers inserted at any node, every input, every recursion depth within the stack",
  "Tests wrap single parsers; no test compares wrapped and unwrapped behaviour or clones a declaration.",
  ["combinator.rs", "recursive.rs", "recovery.rs"], [("delegation", "Boxed, WithError, Recursive, recovery::Boxed"), ("shared definition cell", "Recursive::declare/define")], None, ["parser::Result with and without wrappers"]),
P("C16", "Rendered messages name every expected token, the found token and the place",
  "The text of an expected-found error lists every expected token exactly once with end of input spelled out, then the found token, then the location; delimiter and custom errors name their tokens, spans and bounds. No token or location is dropped or shown in another's place, whatever the number of expected tokens.",
  ["inputs"], "every error value", "No test renders an error.",
  ["error.rs", "location.rs"], [("formatting", "Display for error::Simple, At, RichLocation, RichSpan")], None, ["Display output"]),
P("C17", "Parsing is total",
  "For every grammar without left recursion whose unbounded repetitions consume input and whose strategies do not move backwards in a loop, parsing any finite input terminates with a result and never panics. This holds with user-written parsers and scanners that follow the documented contract, including those that report failure with index zero when nothing matched.",
  ["programs", "inputs"], "every such grammar, every finite input, with recovery allowed or not",
  "The code contains assertions and unreachable arms that only fire for particular nestings of recovery, alternatives, mappings and repetitions which no test builds.",
  ["algorithm.rs", "combinator.rs", "recovery.rs", "stream.rs", "scanner.rs"], [("assertions and unreachable arms", "algorithm.rs, stream.rs, scanner.rs"), ("failure position clamped before saving", "ToRecover, Retry, TryToParse")], None, ["absence of panics and hangs"]),
P("C18", "Fallible mapping accepts, rejects or recovers as the function says",
  "A fallible mapping succeeds exactly when the parser and the function succeed; if the function rejects, the whole parser fails at its start with exactly the function's errors, after those of any recovery inside. If the function recovers, the result is recovered with the function's output and errors when recovery is allowed, and otherwise a failure that consumes nothing.",
  ["programs", "inputs"], "every inner parser, every mapping function, every context (inside alternatives, repetitions, sequences), recovery allowed or not",
  "The combinator has no unit test of its own (the source says so) and the one use in a grammar never reaches its failing or recovering arms.",
  ["combinator.rs", "parser.rs"], [("fallible map", "combinator::TryMap, parser::Result::try_map")], None, ["parser::Result, remaining tokens"]),
P("C19", "Output and error mappings apply exactly once to exactly their target",
  "Mapping the output transforms every produced output once, also recovered ones, and leaves kind, position and errors alone; mapping errors transforms each error of a failed or recovered result once, in order, and leaves outputs and positions alone. The variants with a span receive the span of the tokens consumed by the mapped parser.",
  ["programs", "inputs"], "every inner parser and input, success, recovered or failed",
  "Error mappings have no unit test (the source says so); output mappings are tested on success only.",
  ["combinator.rs", "parser.rs"], [("result maps", "Map, MapWithSpan, To, Some, MapErr, MapErrWithSpan, parser::Result::map/map_err")], None, ["parser::Result"]),
P("C20", "A parser keeps nothing between parses",
  "A parser value can be used any number of times: on several inputs, through several result streams read in any order, again from inside a mapping function or other user code it is calling, and after a parse was abandoned by a panic of such code. Every result is the one a newly built parser gives for the same tokens, position and permission to recover.",
  ["histories", "programs", "inputs", "crash_points"], "every grammar and every history of complete, interleaved, nested and abandoned uses of one parser value",
  "Tests build a parser and use it on a handful of inputs one after the other; none interleaves result streams, re-enters a parser or goes on using one after an abandoned parse.",
  ["parser.rs", "combinator.rs", "recovery.rs", "recursive.rs", "scanner.rs"],
  [("parsers are borrowed immutably", "Parser::parse_internal(&self, ..)"), ("scanners made anew for each scan", "recovery::Scan"), ("shared definition cell", "Recursive")], None, ["parser::Result of each use"]),
P("C21", "A recursive declaration stands for its one definition, whatever is kept",
  "Handles of a recursive declaration may be cloned, defined, used in definitions (their own, each other's) and in other parsers, and dropped, in any order. From its definition on, every handle of a declaration and every parser or definition built from one, before or after, parses as that definition, also when all handles used on the way are gone. Only two things panic, parsing that reaches a declaration without a definition and defining a declaration that has one; after the former the declaration can still be defined and used.",
  ["histories", "programs", "inputs"], "every history of declaring, cloning, defining, building, dropping and parsing over any number of declarations, every guarded definition, every input",
  "The tests define one declaration at once and parse with the handle they defined; none parses with a clone, refers to two declarations from each other, drops a handle first or parses before a definition.",
  ["recursive.rs"], [("definition in a cell shared by all handles", "Recursive::declare/define, Clone for Recursive"), ("closure form", "recursive()")],
  [("definition", "none until defined, then fixed", "Recursive.inner")], ["parser::Result of handles and of parsers built from them"]),
P("C22", "Parsers run what they are made of in order, only as far as needed, and once",
  "A parse runs the parser once. A concatenation runs its parts in the written order, each once, each where the one before ended, and none after one failed. A choice runs its alternatives in the written order, each at most once without recovery and, if all failed and recovery is allowed, at most once more with it, and none after one did not fail. A repetition runs separator and item in turn and nothing after one of them ends it or the maximum is reached. Mappings, wrappers, references and optional parsers run their parser once; a strategy runs parsers only after a failure, each at most once per mention and place, and none after one did not fail.",
  ["programs", "inputs"], "every grammar, every input, recovery allowed or not",
  "What was run shows only in side effects of user functions and in time that multiplies with every level of nesting; the tests look at results of small grammars.",
  ["algorithm.rs", "combinator.rs", "recovery.rs", "recursive.rs", "parser.rs"],
  [("sequencing, choice, repetition", "algorithm.rs concatenate!, alternate!, concatenate, alternate, repeat"), ("recovery after failure only", "combinator::ToRecover, recovery::Retry, TryToParse")], None, ["calls of user-written parsers and functions"]),
]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
