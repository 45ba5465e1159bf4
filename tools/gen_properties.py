#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the properties are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

EV="prexel/src/evaluator.rs"; TK="prexel/src/tokenizer.rs"; SP="prexel/src/utils/splitter.rs"; CX="prexel/src/context.rs"
OPS="prexel/src/ops/mod.rs"; OCH="prexel/src/ops/checked.rs"; OUN="prexel/src/ops/unchecked.rs"; NUM="prexel/src/num.rs"
DEC="prexel/src/decimal/mod.rs"; DEX="prexel/src/decimal/decimal_ext.rs"; CPX="prexel/src/complex/mod.rs"; BIN="prexel/src/binary/mod.rs"
NT="prexel/src/numeric_traits/mod.rs"; ICS="prexel/src/utils/ignore_case_string.rs"; ICR="prexel/src/utils/ignore_case_str.rs"; FN="prexel/src/function.rs"

p("C01","Evaluation is total: any text yields a value or an error, never a crash",
  "Evaluating any UTF-8 text with any built-in numeric context whose operations are documented as checked or non-overflowing (checked integer and float, unchecked float, decimal, complex, binary), under any configuration and variables, returns either a value or an error. It never panics, aborts, exhausts the stack, overflows arithmetic silently or runs forever.",
  ["inputs","configurations"],"every input string, every context kind, every configuration (implicit multiplication, complex literals, function-call grouping) and every set of variables",
  "153 example-based tests feed a few dozen well-chosen ASCII strings; panics hide in non-ASCII text, extreme magnitudes, zero-length argument lists and odd token adjacency.",
  [TK,SP,EV,OPS,OCH,DEX,DEC,CPX,BIN],[("error-returning operators and functions",OCH),("decimal checked_* methods",DEX),("unary/binary classification",TK)],
  ["Evaluator::eval return value","process exit status","elapsed work"])
p("C02","Operators group by precedence, associativity and notation",
  "For every expression, the order in which operators and functions are applied is exactly the one given by the usual infix reading: grouping first, a prefix operator applies to the operand that directly follows it (before postfix and binary operators), a postfix operator to the operand directly before it, binary operators by the precedence they declare and, between neighbours of equal precedence, by the associativity of the left one; the built-in operators follow the conventional order of arithmetic. This holds for any set of registered operators, not only the built-in ones, and whether an operand is a literal, a name, a group or a call.",
  ["inputs","programs","configurations"],"every well-formed expression over every table of operators (symbols, precedences, associativities, notations)",
  "Tests evaluate about fifty fixed expressions with the built-in operators; wrong trees show only for particular nestings (a prefix operator before a group or call, mixed associativity, custom precedences).",
  [EV,FN,TK],[("infix to RPN conversion",EV),("unary operator detection",TK),("precedence and associativity",FN)],
  ["calls received by registered operators","Evaluator::eval value"])
p("C03","Malformed expressions are rejected, well-formed ones accepted",
  "Evaluating an expression succeeds exactly when its tokens form a well-formed infix expression (operands and operators alternate, groups are non-empty, balanced and of matching kind, calls are followed by their argument list, commas only separate the arguments of a call) and every operation applied succeeds. A malformed token sequence yields an error; it is never given a value by dropping, reordering or inventing operands.",
  ["inputs","configurations"],"every token sequence over numbers, names, operators, grouping symbols and commas, with and without implicit multiplication",
  "The tests list about thirty rejected strings; the space of malformed sequences is unbounded, and reverse-Polish conversion makes many of them look valid.",
  [EV,TK],[("grouping, comma and call checks",EV),("final single-value check",EV)],["Evaluator::eval and Evaluator::eval_tokens result"])
p("C04","Postfix conversion is well formed, loses nothing and keeps operand order",
  "Whenever conversion of a token sequence to reverse Polish notation succeeds, the output is a valid postfix program that leaves exactly one value, contains every operand, operator and call of the input exactly once with operands in their original order, states each call's real argument count, and contains no grouping or separator tokens. Conversion is deterministic and does not modify its input.",
  ["inputs","programs"],"every token sequence accepted by the conversion, for every operator table",
  "Unit tests compare a dozen fixed conversions; conservation and validity are universally quantified over token sequences.",
  [EV],[("shunting-yard conversion",EV)],["evaluator::infix_to_rpn output"])
p("C05","Tokenization loses no input and ignores whitespace layout",
  "Splitting an expression preserves every non-whitespace character of the input exactly once and in order, so no part of the text is silently ignored; adding, removing or varying whitespace between lexical units does not change the tokens, and no whitespace is needed where two units are not runs of the same kind of character. Each unit is classified by what the context defines, with numbers taking priority over variables, then constants, functions and operators.",
  ["inputs","configurations"],"every input string and every context content",
  "Tokenizer tests check fixed strings; lost characters appear only with particular neighbours (second decimal point, non-ASCII letters, symbol runs).",
  [TK,SP],[("split rules",SP),("token classification",TK)],["Tokenizer::tokenize output","DefaultSplitter output"])
p("C06","Registries are case-insensitive maps; failed registration changes nothing",
  "After any history of registering functions, unary and binary operators (with names and aliases), constants and variables, looking a name up returns exactly what the last successful registration bound: functions, operators and constants under any letter case and under every alias, variables under their exact spelling. A registration that conflicts with an existing name or alias, or that would let a variable and a constant share a name, reports an error and leaves the context unchanged; where debug assertions are on, so does a name that is empty or has whitespace or control characters in it.",
  ["histories","inputs"],"every sequence of registrations and lookups over overlapping names, aliases and letter cases, including non-ASCII names",
  "Tests register two or three ASCII names once; aliasing conflicts, overwrites and atomicity need multi-step histories.",
  [CX,ICS,ICR],[("registration functions",CX),("case-insensitive keys",ICS)],["Context getters and is_* queries","registration results"],
  state=[("registries","name to definition maps",CX)])
p("C07","Checked integer evaluation is exact or reports an error",
  "Evaluating integer expressions with checked contexts of any signed width gives exactly the mathematical result of each operator and function on integers (truncating division and remainder; sum, product, average, maximum, minimum, absolute value, factorial, negation) or an error. An error is returned whenever, and for these operations only when, a result or intermediate does not fit the type or an operation is undefined (such as division by zero); nothing ever wraps, saturates or panics. (Negative exponents are left open.)",
  ["inputs"],"every integer expression and width i8..i128, including operands at the edges of the range",
  "Unit tests check one overflow case per operator for i32; widths, edges, chained intermediates and aggregates are not sampled.",
  [OCH,OPS,NUM],[("checked operators",OCH),("checked numeric traits",NUM),("factorial, max, min, power",OPS)],["Evaluator::eval value and error kind"])
p("C08","Floating-point functions match their mathematical definitions",
  "Every function and operator of the built-in floating-point contexts returns the value of the mathematical function it is named after to within rounding (the arguments of circular functions and the results of inverse circular and inverse hyperbolic functions in degrees; results of the trigonometric family within 1e-10 of a whole number may be rounded to it), for every argument in its domain whose result and intermediate parts are within the range of the type. Outside the domain, or with a number of arguments it does not take, it returns an error or a not-a-number value rather than a plausible wrong number.",
  ["inputs"],"all finite arguments of every function and operator in the f32 and f64 contexts, checked and unchecked",
  "Tests check one to three hand-picked points per function, mostly 0, 1, 30 and 45 degrees.",
  [OPS,OCH,OUN,"prexel/src/utils/gamma.rs"],[("math and trigonometric functions",OPS),("gamma",  "prexel/src/utils/gamma.rs")],["Evaluator::eval value versus arbitrary-precision reference"])
p("C09","Decimal arithmetic is exact and decimal functions are accurate",
  "In the decimal context, addition, subtraction and multiplication that are representable give exactly the mathematical result, division and the other operators are correct to the type's precision, and every function returns the value of the mathematical function it is named after with many correct digits (angles in degrees, as in the floating-point contexts; for angles so large that a degree is beyond the precision kept, within the function's range). Results outside the representable range or domain yield an error, never a wrong value or a crash.",
  ["inputs"],"all decimal operands and arguments, across signs, scales and magnitudes up to the 96-bit limit",
  "Tests check about one point per function near 1; series truncation, argument reduction and overflow depend on magnitude.",
  [DEX,DEC],[("decimal functions and series",DEX),("decimal operators and context",DEC)],["Evaluator::eval value versus arbitrary-precision reference"])
p("C10","Complex functions match their mathematical definitions",
  "In the complex context, every operator and function returns the principal value of the mathematical function it is named after to within rounding, for arguments of any magnitude anywhere in the complex plane away from singularities (on a branch cut the value is the limit from one of its sides; for roots, logarithms and powers negative real numbers count as above it), and literals with an imaginary suffix denote the corresponding complex number.",
  ["inputs"],"all finite complex arguments of every function and operator in the complex context",
  "The complex module has a handful of tests on real inputs.",
  [CPX,OUN,TK],[("complex operators and functions",CPX),("imaginary literal handling",TK)],["Evaluator::eval value versus arbitrary-precision reference"])
p("C11","Binary-mode operators compute exact 128-bit logic",
  "In the binary context, bitwise operators act on all 128 bits, comparison operators yield 1 or 0 according to signed order, shifts move by exactly the given count or report an error when the count is outside the word, and every word alias means the same as its symbol. Binary and decimal literals denote the same numbers.",
  ["inputs"],"all pairs of 128-bit operands, all shift counts, all symbols and aliases, nested expressions",
  "Tests use four-bit operands and in-range shift counts.",
  [BIN,SP],[("binary operators",BIN),("binary literal rule",SP)],["Evaluator::eval value"])
p("C12","Implicit multiplication means exactly explicit multiplication",
  "With implicit multiplication enabled, an expression in which multiplication signs between adjacent operands are omitted (number before a name, call or group; group or call before a number, name, call or group) has exactly the same result as the expression with the signs written out, in every surrounding context. With it disabled, such juxtapositions are errors.",
  ["inputs","configurations"],"every expression and every subset of removable multiplication signs, in every numeric context",
  "Tests juxtapose two operands in isolation; precedence interaction with neighbouring operators (division, power, unary) is not sampled.",
  [EV],[("implicit multiplication insertion",EV)],["Evaluator::eval results of paired expressions"])
p("C13","Evaluation is pure: results depend only on expression and current definitions",
  "Evaluating an expression never changes the context or tokenizer, so repeating it gives the same result regardless of what was evaluated before, successfully or not; after any history of assignments each variable reads as its last successfully assigned value, case-sensitively. Copies of a context are independent of the original afterwards.",
  ["histories"],"every interleaving of assignments, evaluations (valid and failing), registrations and clones",
  "Tests build a fresh evaluator per assertion, so state leaking between evaluations is invisible.",
  [EV,CX],[("evaluation over a shared context",EV),("context storage",CX)],["Evaluator::eval results over a history","Context getters"],
  state=[("context","variables, constants, functions and operators",CX)])
p("C14","Every call is made exactly once, in order, with exactly the written arguments",
  "During one evaluation every function and operator occurrence in the expression is invoked exactly once, with exactly the argument values written at that occurrence in their written order and number (including zero), after its arguments have been evaluated and left to right otherwise. If an operation fails nothing later is invoked and its error is what the caller receives.",
  ["inputs","programs"],"every nesting of calls, variadic and zero-argument functions, operators and failing operations",
  "Tests only look at final values of arithmetic functions, which cannot distinguish repeated, reordered or merged calls.",
  [EV],[("postfix evaluation and argument counting",EV)],["calls received by registered functions and operators","returned error"])
p("C15","Redundant grouping never changes a result",
  "Wrapping any complete operand or sub-expression in grouping symbols, in any nesting of the accepted kinds of matching pairs, never changes the result or whether evaluation succeeds. Replacing a matched pair that is not a call's argument list by another kind of matched pair does not either.",
  ["inputs","configurations"],"every expression, every sub-expression of it and every nesting of grouping pairs",
  "Tests bracket a few fixed sub-expressions.",
  [EV,CX],[("grouping handling",EV),("grouping symbols",CX)],["Evaluator::eval results of paired expressions"])
p("C16","Failures are reported with the kind and cause that occurred",
  "Every failing evaluation reports the category of what went wrong: empty input as empty, unknown names as invalid input, division or remainder by zero as division by zero, a wrong argument count as an argument-count error, results out of range as overflow, factorial of a negative as negative value, and an error raised by a registered function unchanged with its kind and message. Any error kind and message can be displayed.",
  ["inputs","programs"],"every failing expression in every context and every error kind and message a registered function can raise",
  "Most tests assert only that an error occurs, not which one.",
  [EV,OCH,OPS,DEC,"prexel/src/error.rs"],[("error construction","prexel/src/error.rs"),("error propagation",EV)],["Error::kind and Display of Evaluator::eval errors"])
p("C17","Wrapper number types behave exactly like the number they wrap",
  "A user number type built with the provided forwarding macros over an inner numeric field evaluates every expression to the same value, success or error as the inner type itself, in both checked and unchecked form.",
  ["inputs","programs"],"every expression and inner type the forwarding macros support",
  "The macros are instantiated in two tests that use addition only.",
  [NT,NUM],[("forwarding macros",NT)],["operator results on wrapper versus inner type"])
p("C18","Case-insensitive names have coherent equality, order and hash",
  "For any names, case-insensitive comparison is an equivalence that agrees with lower-casing, ordering is a total order consistent with it, and equal names hash equally, in both the owned and borrowed forms.",
  ["inputs"],"all pairs and triples of Unicode strings",
  "Tests compare a few ASCII words.",
  [ICS,ICR],[("Eq, Ord and Hash implementations",ICS),("borrowed form",ICR)],["PartialEq, Ord, Hash results","map lookups"])
p("C19","The command-line evaluator prints what the library computes",
  "The command-line evaluator prints, for each number type and expression, exactly the value the library computes for that type on standard output, or the library's error message on standard error with nothing on standard output, uncoloured when asked, and never crashes. Its exit status is that of a completed run in both cases.",
  ["inputs","configurations"],"every expression, number type and colour option",
  "The command-line crate has no tests.",
  ["eval/src/main.rs","eval/src/eval_expr.rs","eval/src/writer.rs"],[("type dispatch","eval/src/eval_expr.rs"),("output","eval/src/writer.rs")],["stdout, stderr and exit status of the eval binary"])
p("C20","Listings show exactly what is defined",
  "Listing constants, operators and functions, on the command line and through the server's information endpoints, shows every name and alias that the chosen number type defines and nothing else, with the right values, notation, associativity and precedence where shown.",
  ["configurations"],"every number type and listing kind",
  "Neither the command-line nor the server crate has tests.",
  ["eval/src/list.rs","prexel-server/src/services/info.rs","prexel-server/src/endpoints/mod.rs"],[("listing","eval/src/list.rs"),("information endpoints","prexel-server/src/services/info.rs")],["stdout of the eval binary","HTTP response bodies"])
p("C21","An interactive session answers every line by its history",
  "In an interactive session, every entered line prints the value or error the library gives for it under the assignments and last result of the session so far, assignments bind their variable until rebound, the last-result variable always holds the most recent successful value, and recalled history lines are the ones previously entered, most recent first and no more than the configured number. The session ends only on request and never crashes, whatever is typed.",
  ["histories","inputs"],"every sequence of typed lines, editing and history keys, number types and history sizes",
  "The command-line crate has no tests.",
  ["eval/src/repl/mod.rs","eval/src/repl/repl.rs","eval/src/collections/carray.rs"],[("session loop","eval/src/repl/mod.rs"),("line editing and history","eval/src/repl/repl.rs"),("bounded history","eval/src/collections/carray.rs")],["terminal output of the eval binary under a pseudo-terminal"],
  state=[("session","variables, last result and line history","eval/src/repl/mod.rs")])
p("C22","The server answers every evaluation request with exactly one outcome",
  "The evaluation endpoint answers every request: a well-formed one with status 200 and exactly one of a result or an error, equal to what the library gives for that expression, type and variables; a malformed body with status 400 and an error (one beyond the accepted size with a status that says so). Concurrent requests never influence each other's answers, result-only mode returns just the result text, and no request body makes the server stop answering.",
  ["inputs","schedules"],"every request body, query option and interleaving of concurrent clients",
  "The server crate has no tests.",
  ["prexel-server/src/endpoints/mod.rs","prexel-server/src/services/evaluator.rs","prexel-server/src/models/mod.rs"],[("evaluation endpoint","prexel-server/src/endpoints/mod.rs"),("typed evaluation","prexel-server/src/services/evaluator.rs")],["HTTP status, headers and body over loopback"])
p("C23","The server limits each client without affecting others",
  "Each client connection gets its first hundred requests of a minute answered and further requests refused with status 429 until the interval passes, independently of how many requests other clients make, of what the requests ask for, and of any address or identity claimed in their headers. After the interval a new hundred is answered.",
  ["histories","schedules"],"every interleaving of requests from several connections",
  "The server crate has no tests.",
  ["prexel-server/src/main.rs","prexel-server/src/middlewares/rate_limiter.rs"],[("rate limiting middleware","prexel-server/src/main.rs"),("client identification","prexel-server/src/middlewares/rate_limiter.rs")],["HTTP status codes over loopback"])
p("C24","Random values stay within their documented range",
  "The random function returns a value in [0,1) without arguments, between zero and the argument with one, and between its two arguments with two (bounds up to rounding), rejecting a lower bound above the upper bound and negative single bounds, and over many calls it takes many different values spread across the range.",
  ["inputs","histories"],"every pair of bounds in every numeric context that offers it, over many draws",
  "Tests draw a handful of values with fixed bounds.",
  [OPS,CPX],[("random functions",OPS)],["Evaluator::eval values"])
p("C25","Checked and unchecked contexts agree whenever nothing overflows",
  "For every expression whose checked evaluation succeeds, the unchecked context of the same number type that defines the same operations gives the same value, and operators with the same name have the same precedence, associativity and notation in both.",
  ["inputs"],"every expression over operations defined in both contexts, for integer and floating-point types",
  "Checked and unchecked operators are tested separately on unrelated operands.",
  [OCH,OUN,CX],[("checked operators",OCH),("unchecked operators",OUN)],["Evaluator::eval value in both contexts"])
p("C26","Printed results read back as the same number",
  "For every number type, evaluating the text printed for a finite result (with the binary prefix before binary digits) gives back the same value, so results can be reused in further expressions.",
  ["inputs"],"every finite result value of the float, integer, decimal, complex and binary types",
  "No test prints and re-reads a result.",
  [TK,SP,BIN],[("number parsing",TK),("numeric split rule",SP)],["Display of a result and Evaluator::eval of it"])
p("C27","No undefined behaviour or memory error in any evaluation",
  "Building, cloning, mutating, iterating and dropping contexts and evaluating expressions with them never performs an invalid memory access, use after free, leak of context storage, data race or other undefined behaviour, with either storage backend; every value placed in a context or made by an evaluation is dropped exactly once.",
  ["histories","programs"],"every history of context operations and evaluations, with every feature combination",
  "Ordinary test runs do not observe memory errors in the pointer-based ordered map underneath, nor in the hand-written thread-safety declarations.",
  [CX,ICS,ICR,"prexel/Cargo.toml"],[("ordered map storage",CX),("unsafe Send and Sync declarations",ICS)],["AddressSanitizer/LeakSanitizer and Miri reports"])
p("C28","Optional features do not change what expressions mean",
  "Enabling or disabling the documentation and ordered-map features changes neither the value or error of any expression nor the names under which built-in functions and operators are found, with or without the decimal, complex and binary modules; every such combination builds.",
  ["inputs","configurations"],"every expression and every combination of the optional features",
  "The tests are only run with all features enabled.",
  [CX,OPS,DEC,CPX,"prexel/Cargo.toml"],[("feature-gated function definitions",OPS),("feature-gated map type",CX)],["Evaluator::eval results and listings across builds"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
