#!/usr/bin/env python3
"""Writes properties.jsonl (single source for the property texts)."""
import json, os
T = "peg-macros/translate.rs"; A = "peg-macros/analysis.rs"; G = "peg-macros/grammar.rustpeg"; GR = "peg-macros/grammar.rs"
K = "peg-macros/tokens.rs"; E = "peg-runtime/error.rs"; S = "peg-runtime/str.rs"; SL = "peg-runtime/slice.rs"; RL = "peg-runtime/lib.rs"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or ["public parser functions of the generated module"], hook_needed=None)))

prop("C01", "Generated parsers accept and consume exactly what PEG semantics prescribe",
 "For every grammar built from literals, element patterns, sequences, ordered choice, optionals, repetition, lookahead, slices and rule calls, and for every input, the generated parser succeeds exactly when PEG semantics says it does, and the match ends at the position PEG semantics gives. In particular alternatives are tried in order and the first match is committed to, repetition is greedy, and a failed attempt or a lookahead (& or !) leaves the parse position where it was.",
 ["programs", "inputs"], "all grammars of the expression language x all inputs (incl. multi-byte text, empty input, long input)",
 "The run-pass tests try about 35 hand-written grammars on a few strings each; compositions of operators (a lookahead in a separator in an optional...) are never sampled.",
 [T, S, SL], [("compile_expr / ordered_choice / labeled_seq code generation", T), ("parse_elem, parse_string_literal", S + ", " + SL)])
prop("C02", "Repetition honours its bounds and consumes separators only between elements",
 "Every repetition (e?, e*, e+, e*<n,m> with either bound optional, e ** sep, e ++ sep and their ranged forms) matches greedily, matches no more than the maximum number of elements and succeeds exactly when at least the minimum matched, whether or not its result is used. A separator is attempted only when another element is still allowed, and a separator that is not followed by an element is not consumed. Bounds given as Rust expressions take the value the expression has at that point of the parse.",
 ["programs", "inputs"], "all element/separator expressions x bounds x inputs; bounds that are literals, rule arguments or values bound earlier",
 "repeats.rs checks seven repetition forms over digits with result used; unused results, separators with bounds, nested repetitions and run-time bounds in combination are not reached.",
 [T, "peg-macros/ast.rs"], [("Repeat arm of compile_expr (match_sep, max_check, result_check)", T), ("BoundedRepeat", "peg-macros/ast.rs")])
prop("C03", "Labels, actions, slices and positions receive exactly the matched values",
 "On success the returned value is the one the grammar denotes for the PEG parse: each label is bound to the value of its own sub-expression, e? gives an Option, repetitions give the elements' values in input order, $(e) gives exactly the input between the start and end of the match of e, position!() gives the offset there, and &e gives e's value. Nothing from an abandoned alternative or abandoned repetition step is visible in the value.",
 ["programs", "inputs"], "all typed grammars with actions x all inputs",
 "Tests assert values for a handful of shapes; bindings across nested actions, shadowed labels, nested slices and results of abandoned alternatives are not exercised systematically.",
 [T, S, SL], [("compile_expr_continuation, ActionExpr, MatchStrExpr, PositionExpr, OptionalExpr, Repeat", T), ("parse_slice", S + ", " + SL)])
prop("C04", "A parse error reports exactly the furthest failures",
 "When a parse fails, the reported location is the furthest position at which any reportable token (literal, pattern, expected!, failing conditional action, or end of input where the top-level match stopped) was attempted and failed outside silenced regions, or the start of the input if there was none. The expected set is exactly the set of those tokens that failed at that position: none missing, none extra, and it is the same as what a single complete walk of the parse would have collected. The Display form lists the same tokens.",
 ["programs", "inputs"], "all grammars x all rejected inputs",
 "errors.rs checks about ten error messages; completeness and exactness of the expected set depends on every failing path of every operator in both parse passes.",
 [E, T], [("ErrorState two-pass protocol (mark_failure, reparse_for_error)", E), ("compile_rule_export reparse", T)],
 state=[dict(name="max_err_pos", meaning="furthest failure so far", where=E), dict(name="expected", meaning="tokens that failed there, second pass", where=E)])
prop("C05", "Silenced regions stay silent and never silence anything else",
 "Failures inside quiet!{..}, &e and !e contribute neither to the error location nor to the expected set, at any nesting depth and through any rule calls. Failures outside such regions are reported in full no matter how many silenced regions were entered before, whether these matched or failed, and even if the same rule at the same position was first tried inside one.",
 ["programs", "histories"], "all grammars mixing silenced and reporting regions x all failing inputs (= all enter/leave histories of regions)",
 "Two tests touch quiet!/lookahead errors, each with one region entered once.",
 [E, T], [("suppress_fail counter", E), ("PosAssertExpr, NegAssertExpr, QuietExpr arms", T)],
 state=[dict(name="suppress_fail", meaning="nesting depth of silenced regions", where=E)])
prop("C06", "Line, column and offset of text positions are exact",
 "For every text and every character boundary in it, the position reported for str input has offset equal to the byte offset, line equal to one plus the number of newline characters before it, and column equal to one plus the number of characters (not bytes) since the last newline or the start; it displays as line:column. Slice inputs report the element index.",
 ["inputs"], "all strings over 1-4 byte characters, newlines and carriage returns x all boundaries",
 "errors.rs checks six positions in ASCII text only.",
 [S, SL], [("str::position_repr", S)], ["Parse::position_repr", "ParseError.location"])
prop("C07", "A public rule succeeds only on the whole input unless marked no_eof",
 "A public rule without #[no_eof] returns Ok only when its match ends at the end of the input; if the match stops earlier the parse fails, with EOF among the expected tokens exactly when no reportable token failed beyond the point where the match stopped. A #[no_eof] public rule returns the value of the match of a prefix, never requires the rest of the input to be consumed and never reports EOF as expected.",
 ["programs", "inputs"], "all grammars with both kinds of entry point x all inputs",
 "no_eof.rs checks one rule on two inputs.",
 [T, E], [("compile_rule_export eof_check", T), ("is_eof", S + ", " + SL)])
prop("C08", "#[cache] is unobservable except in cost, and bounds the cost",
 "Adding #[cache] to any rule that is not left-recursive changes no observable result of any parse: the same inputs are accepted with the same value, and rejected with the same location and expected set. Within one parse, the body of a cached rule is evaluated at any one position a bounded number of times, independent of how often the rule is attempted there.",
 ["programs", "inputs", "histories"], "all grammars x all subsets of rules cached x all inputs",
 "memoization.rs parses one string with one cached rule and never looks at errors or at the number of evaluations.",
 [T], [("Cache::Simple arm of compile_rule, make_parse_state", T)],
 state=[dict(name="<rule>_cache", meaning="memo table per rule and call", where=T)])
prop("C09", "#[cache_left_rec] grows the longest left-recursive match",
 "A rule marked #[cache_left_rec] that is left-recursive parses as by seed growing: its value at a position is the last result of re-evaluating its body with the recursive call answered by the previous result, starting from failure and continuing as long as the match gets strictly longer. Hence for rules of the form e = e op t / t it accepts the same inputs as t (op t)* and builds the left-associated value; this also holds when the recursion passes through other #[cache_left_rec] rules, and a marked rule that is not left-recursive behaves like a plain one.",
 ["programs", "inputs"], "all grammars with left-recursive rules x all inputs",
 "One test grammar with one operator and four inputs.",
 [T], [("Cache::Recursive arm of compile_rule", T)])
prop("C10", "precedence!{} builds the tree its levels and associativity markers define",
 "For every precedence!{} block and operand/operator sequence the parse consumes the same input and produces the same value as precedence climbing over its levels: operators of later levels bind tighter, x:(@) op y:@ groups to the left, x:@ op y:(@) to the right, prefix and postfix operators apply at their level, operators within a level are tried in the order written, and an incomplete operator is left unconsumed. Span-capture wrappers receive the start and end position of exactly the operand they wrap.",
 ["programs", "inputs"], "all precedence blocks (levels x infix/prefix/postfix/atom operators) x all token sequences",
 "Four tests with fixed + - * / ^ style tables and a few inputs; mixes of prefix, postfix and both associativities across levels and repeated tokens are not covered.",
 [T], [("PrecedenceExpr arm, __infix_parse", T)])
prop("C11", "Rule parameters, rule-valued arguments and grammar arguments act by substitution",
 "Calling a rule with arguments behaves as its body with the arguments substituted: Rust values arrive unchanged, an expression passed as <e> is matched wherever the parameter is used, at that position, seeing the caller's bindings, and reports failures as if written there. Grammar-level arguments have the caller's value in every rule, including inside rule-valued arguments and under caching.",
 ["programs", "inputs"], "all grammars with templates, nested templates, forwarded parameters and grammar arguments x all inputs",
 "rule_args.rs and two other tests use shallow templates with no captured bindings, no error checks and no grammar arguments inside closures.",
 [T], [("RuleExpr arms, rule_params_list, extra_args_call", T)])
prop("C12", "Left recursion is rejected exactly where it exists and is not resolved",
 "A grammar is rejected at compile time for left recursion exactly when some rule not marked #[cache_left_rec] can reach itself without consuming input, judging an expression able to match empty input from the operators alone. So an accepted grammar never recurses without end, and no grammar free of such a cycle is rejected. The error names a cycle that really exists in the grammar.",
 ["programs"], "all rule graphs (rules x calls at first/non-first position under every operator x cache markings)",
 "One compile-fail test with four cyclic rules; nullable prefixes through each operator and long or mixed-cache cycles are not sampled.",
 [A, T], [("LeftRecursionVisitor", A)], ["compile_error! emitted by the macro / by the rust-peg generator"])
prop("C13", "Loops that could spin without consuming input are rejected, all others accepted",
 "A repetition without upper bound whose body and separator can both match empty input, judged from the operators alone, is rejected at compile time wherever it is written, and no other repetition is rejected. So every accepted grammar whose embedded code, literals and explicit bounds do not hide an empty match terminates on every input.",
 ["programs", "inputs"], "all nestings of repetitions with nullable/non-nullable bodies and separators; all inputs for accepted ones",
 "One compile-fail test with four repetitions.",
 [A, T], [("LoopNullabilityVisitor", A), ("BoundedRepeat::has_lower_bound/has_upper_bound", "peg-macros/ast.rs")], ["compile_error! emitted by the macro / by the rust-peg generator", "termination of generated parsers"])
prop("C14", "Ill-formed rule references are compile errors and well-formed ones are not",
 "The macro rejects a grammar that calls an undefined rule, defines a rule twice, calls a rule with the wrong number of arguments, uses the result of a rule that returns none, passes arguments or generics to a rule-valued parameter, caches a rule with parameters, takes a rule-valued parameter in a public rule, puts #[no_eof] on a private rule, or writes @ outside precedence!{}. The error names the offending rule, and a grammar free of these is not rejected for them.",
 ["programs"], "all grammars with and without each defect, at every expression position",
 "One compile-fail grammar per defect, at the top of a rule body only.",
 [T], [("report_error sites in compile_grammar, compile_rule, compile_expr", T)], ["compile_error! emitted by the macro / by the rust-peg generator"])
prop("C15", "The parser touches its input only through the Parse traits, in PEG order",
 "For any input type, the parser attempts elements and literals in exactly the order PEG evaluation prescribes and at positions that came from start or from an earlier successful match, treating positions as opaque; a slice is taken only from the start to the end of an actual match. The same grammar over str, [u8], [T] and a user-defined type gives the same outcome on corresponding inputs.",
 ["programs", "inputs", "histories"], "all grammars x inputs x input types; every trait call of a parse",
 "Tests use each input type once and never observe the calls a parser makes.",
 [T, RL, S, SL, K], [("Parse, ParseElem, ParseLiteral, ParseSlice", RL), ("generated trait calls", T)], ["trait method calls on a user-defined input type"])
prop("C16", "Tracing reports every rule attempt faithfully and changes nothing",
 "With the trace feature the same inputs give the same results and errors as without it. The printed trace is exactly the sequence of rule attempts and outcomes of the parse, properly nested: each attempted rule at its position is followed by exactly one matched line with the true start and end or one failed line, and a result served from a cache is reported as cached, with its true outcome, and without re-attempting the rule.",
 ["programs", "inputs", "configurations", "histories"], "all grammars x inputs x {trace on, off}",
 "CI runs the tests with the feature on but never looks at the output.",
 [T], [("wrapped_body, cache_trace", T)], ["stdout lines beginning [PEG_TRACE]"])
prop("C17", "Grammar source text means what the documented syntax says",
 "Grammar text is read by the documented operator syntax: choice binds looser than sequence, sequence looser than repetition, and $, &, ! apply to the following primary before ?, *, +, **, ++ apply; parentheses, labels, range bounds, actions, attributes, underscore rules, parameters, generic arguments and separators group as documented, irrespective of layout, comments and redundant parentheses. Text outside the syntax is rejected with an error whose expected set names what could have come at the furthest point reached.",
 ["programs", "inputs"], "all token sequences: every expression in minimal and redundant parenthesisation; every truncation and mutation of grammar text",
 "Test grammars are idiomatic; two compile-fail tests cover syntax errors.",
 [G, GR, K], [("peg_grammar meta-parser", GR), ("FlatTokenStream", K)], ["behaviour of the compiled grammar", "acceptance/expected set from the rust-peg generator"])
prop("C18", "Each parse is independent of every other parse and repeatable",
 "The outcome of a call of a generated parser function depends only on its grammar, arguments and input: any number of calls in any order, nested inside actions of another parse, aborted by a panic, or interleaved on several threads give each call the outcome it has alone. In particular nothing memoised by one call, or by the first pass of a call, influences another call or the second pass.",
 ["schedules", "histories"], "all histories and interleavings of calls of the same and different rules",
 "Every test runs single calls one after another on one thread.",
 [T, E], [("ParseState and ErrorState created per pass / per call", T)], ["public parser functions called from several threads and from actions"])
prop("C19", "Conditional actions and custom matchers decide the match as written",
 "A conditional action {? } that returns Ok(v) makes the sequence match with value v, and Err(msg) makes it fail as if nothing had been consumed and reports msg at the position where the sequence had arrived. A custom matcher #{..} or ##method(args) is called with the whole input and the current position; Matched(p, v) continues at p with value v and Failed fails without reporting anything.",
 ["programs", "inputs"], "all placements of conditional actions and custom matchers x outcomes x inputs",
 "conditional_block.rs and custom_expr.rs have one use each in straight-line position.",
 [T, RL], [("ActionExpr conditional, CustomExpr, MethodExpr", T), ("call_custom_closure", RL)])
prop("C20", "The self-hosted grammar parser and its source agree",
 "The parser of grammar text that is compiled into the macro and the parser generated by the tree's own generator from grammar.rustpeg accept the same token sequences, reject with the same expected sets and produce the same generated code. Regenerating it any number of times is stable.",
 ["programs", "histories"], "all grammar texts; generations 1, 2, ... of the bootstrap",
 "Not run by cargo test at all; CI compares only text.",
 [G, GR, "peg-macros/bin.rs", T], [("bootstrap.sh, compile_grammar", "bootstrap.sh")], ["rust-peg generator output"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
