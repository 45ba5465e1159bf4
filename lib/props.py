"""The checks, by property."""
import json, os, subprocess
import apps, base, features, memory, server

# property -> (rule, quick scale, thorough scale, counters that must reach a floor on the quick tier)
RULES = {
    "C01": ("random texts of every built-in context: soups of fragments and arbitrary characters, expressions over extreme operands, every function on extreme arguments and counts, inputs up to 60000 units long or deep on a 1 MiB stack, and random operator tables; distinct (context, text) pairs of more than two characters", 24, 192,
            dict(values=50_000, err_Overflow=3_000, err_InvalidExpression=8_000, err_InvalidInput=20_000, deep=150, tables=20_000, functions=50_000)),
    "C02": ("random operator tables and the built-in contexts: a random tree is rendered to text with the groups it needs, evaluated, and the tree of calls recorded is compared with the tree written; distinct texts of at least one operation", 32, 256, {}),
    "C03": ("unit sequences, well formed and broken, judged by an independent recursive-descent grammar; distinct texts", 32, 256, {}),
    "C04": ("conversion of well-formed and broken token sequences, the output run as a postfix program and compared with the input's tokens and calls; distinct token sequences converted", 48, 320, {}),
    "C05": ("random texts over operators, names, numbers and arbitrary characters, through the tokenizer and splitter with default and custom rules; distinct texts", 32, 256, {}),
    "C06": ("random histories of registrations on a context, mirrored in a model of the name table that is compared in full after every step; distinct histories", 32, 256, {}),
    "C07": ("integer expressions of every width with operands around the limits, and every pair of 8-bit operands (a quarter of them on the quick tier), against an arbitrary-precision reference; distinct (type, expression) pairs that the property decides", 16, 160,
            dict(usual=40_000, counts=100, exact_value=100_000, must_be_error=50_000, kind_i128=15_000, kind_i8=50_000, **{"value_^": 2_000, "value_!": 2_000, "value_avg": 4_000, "i8_pairs": 16_000})),
    "C11": ("binary expressions with literals of every length, shift counts around the word size and every alias, against a bit-by-bit reference; distinct expressions of at least one operation", 24, 192,
            dict(pairs=1_500, values=60_000, errors=2_000, op_shl=2_000, op_no_equal=2_000)),
    "C12": ("expressions written with and without multiplication signs, in random tables and built-in contexts; distinct texts with at least one omitted sign", 32, 256, {}),
    "C13": ("random interleavings of evaluations, assignments and context copies, compared with fresh contexts and a model of the variables; distinct histories", 24, 192, {}),
    "C14": ("call traces recorded by the operators and functions of random tables, with an error injected at a random call in a share of runs, compared with the trace of the written tree; distinct (table, text) pairs", 48, 320, {}),
    "C15": ("the same expression with redundant groups of all kinds added or matched pairs replaced; distinct texts", 24, 192, {}),
    "C16": ("expressions constructed to fail for one stated reason in every context, and functions that fail with arbitrary kinds and messages; distinct failing texts", 32, 256, {}),
    "C17": ("the same expressions in the contexts of wrapper types built by the crate's macros and of their inner types, and the forwarded trait methods directly; distinct (wrapper, expression or operands)", 24, 192,
            dict(values=30_000, errors=8_000, trait_calls=100_000, wrapper_i64us=3_000)),
    "C18": ("triples of names from many scripts and cases: equality, order and hash of both name types checked against lower-casing; distinct names", 32, 256, {}),
    "C24": ("random() in every context with no, one and two arguments, every value checked against its range and batches against the spread expected of a uniform choice; distinct calls", 32, 256, dict(spread_widest=100)),
    "C25": ("the same expression in the checked and the unchecked context of a type; distinct expressions whose checked evaluation succeeded", 24, 192,
            dict(agree_f64c=8_000, agree_i128=5_000, calls_agree_f64c=4_000, calls_agree_i64=3_000, operators_compared=40)),
    "C26": ("results of random expressions and extreme values printed and evaluated again; distinct printed values", 32, 256, {}),
}


def harness_check(prop, tier, seed):
    rule, qs, ts, floors = RULES[prop]
    r = base.Report(prop, tier, seed)
    h = base.Harness(prop, tier, seed, scale=qs if tier == "quick" else ts, budget=240 if tier == "quick" else 600)
    try:
        h.run()
        r.take(h)
    finally:
        h.cleanup()
    r.require("evaluations", r.evaluations, 1000)
    r.require("distinct", r.distinct, 100)
    for k, least in floors.items():
        r.require(k, h.counters.get(k, 0), least)
    return r.finish(rule)




def logged_check(prop, tier, seed):
    """The harness records what it observed; another implementation judges the logs."""
    rule, quick, thorough, floors = LOGGED[prop]
    r = base.Report(prop, tier, seed)
    shards = 8
    h = base.Harness(prop, tier, seed, scale=quick if tier == "quick" else thorough, shards=shards, log=True,
                     budget=60 if tier == "quick" else 300)
    try:
        h.run()
        r.take(h)
        procs = []
        for path in h.logs:
            procs.append((path, subprocess.Popen(["python3-vt", os.path.join(base.VERIF, "lib", "oracle.py"), prop, path, path + ".judged"],
                                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        checked, judged, worst = 0, {}, {}
        for path, p in procs:
            out, _ = p.communicate()
            if p.returncode != 0:
                raise base.CheckError("oracle failed: " + out[-3000:])
            with open(path + ".judged") as f:
                o = json.load(f)
            checked += o["checked"]
            for k, v in o["counters"].items():
                judged[k] = judged.get(k, 0) + v
            for k, v in o["worst"].items():
                worst[k] = max(worst.get(k, 0), v)
            for v in o["violations"]:
                r.violation(v["sig"], v["detail"], h.replay_cmd(v["index"]) + " --log /dev/stdout --out /dev/null")
        r.coverage["judged"] = judged
        r.coverage["events_checked"] = checked
        if worst:
            r.coverage["worst_error_as_share_of_tolerance"] = {k: round(v, 4) for k, v in sorted(worst.items())}
        r.require("events", checked, r.evaluations)
        for k, least in floors.items():
            r.require(k, h.counters.get(k[5:], 0) if k.startswith("seen_") else judged.get(k, 0), least)
    finally:
        h.cleanup()
    return r.finish(rule)


LOGGED = {
    "C08": ("every function and operator of the four float contexts on arguments of all magnitudes, next to integers, domain edges and poles, at every multiple of 15 degrees, on the usual numbers and pairs of small whole ones one after another, and with every count of arguments; each result recorded and compared with 45-digit arithmetic; distinct (context, function, arguments)", 4, 12,
            dict(inside=100_000, exact=80_000, power=30_000, factorial=20_000, fold=15_000, rounding=8_000, wrong_count=5_000, seen_usual=1_500, seen_pairs=1_500, seen_folds=400)),
    "C09": ("every function and operator of the decimal context on operands of all signs, scales and magnitudes up to the 96-bit limit, compared with exact rational arithmetic and 70-digit functions; distinct (function, arguments)", 3, 6,
            dict(arithmetic=150_000, rounded=40_000, exact=100_000, power=15_000, factorial=15_000, fold=50_000, inside=40_000, overflow=8_000, seen_usual=1_000, seen_pairs=1_000, seen_folds=100)),
    "C10": ("every function and operator of the two complex contexts on arguments over the complex plane and of all magnitudes, on whole numbers of the axes one after another, and imaginary literals, compared with 34-digit principal values; distinct (context, function, arguments)", 3, 6,
            dict(arithmetic=80_000, f_asinh=3_000, fold=15_000, lit=20_000, f_log=15_000, limit=3_000, seen_usual=500, seen_pairs=800, seen_folds=200, **{"f_^": 40_000})),
}

CHECKS = {p: harness_check for p in RULES}
CHECKS.update({p: logged_check for p in LOGGED})
CHECKS.update(C19=apps.c19, C20=apps.c20, C21=apps.c21, C22=server.c22, C23=server.c23, C27=memory.c27, C28=features.c28)

M = "runtime monitoring: "
TECHNIQUE = {
    "C01": (M + "crash, panic and hang watch over hostile inputs", "Every evaluation is observed to end with a value or an error; panics are caught, dead or stuck worker processes are detected and replayed alone."),
    "C02": (M + "recorded call trees against the written tree", "Operators of a symbolic number type record the tree they compute."),
    "C03": (M + "acceptance against an independent grammar", "Acceptance and value are compared with an independent recursive-descent parser."),
    "C04": (M + "output programs run and checked for conservation", "Each converted token sequence is executed on a monitor's stack and compared with the input."),
    "C05": (M + "conservation and layout-invariance monitor on token streams", "Characters in and out of the tokenizer are accounted for."),
    "C06": (M + "model-based history checking", "The whole name table is compared with a model after each step of random histories."),
    "C07": (M + "big-integer reference oracle", "Each result is compared with arbitrary-precision arithmetic."),
    "C08": (M + "recorded results judged offline at higher precision", "Every recorded result is compared with mpmath within a tolerance set by the type and the conditioning of the function."),
    "C09": (M + "recorded results judged offline by exact rationals and higher precision", "Every recorded result is compared with exact rational arithmetic or mpmath."),
    "C10": (M + "recorded results judged offline at higher precision", "Every recorded result is compared with mpmath's principal value."),
    "C11": (M + "bit-level reference oracle", "Each result is compared with a bit-by-bit reference."),
    "C12": (M + "differential monitor, implicit against explicit", "Pairs of runs are compared, and the explicit one with the written tree."),
    "C13": (M + "history checker over interleaved evaluations", "Every observation is compared with a fresh context and a model of the variables."),
    "C14": (M + "call-trace checker with injected errors", "Recorded call traces are compared with the specified sequence, with errors injected at each call position."),
    "C15": (M + "differential monitor over regrouped texts", "Pairs of runs and their call traces are compared."),
    "C16": (M + "error-kind monitor with injected failures", "Each failure is constructed for one cause and its kind observed."),
    "C17": (M + "differential monitor, wrapper against inner type", "The same text and operands run on both types."),
    "C18": (M + "equivalence, order and hash law monitor", "Laws are checked on every triple generated."),
    "C19": (M + "command-line process monitor against the library", "Standard output, standard error and status of each process are compared with the library's answer."),
    "C20": (M + "listing monitor against a register of definitions", "Every entry of every listing is compared with what the library defines and what its documentation promises."),
    "C21": (M + "terminal session monitor with a model of the session", "The real program runs under a pseudo-terminal; the screen is reconstructed from its output and each line's answer and recall compared with a model of the session and history."),
    "C22": (M + "HTTP history monitor over concurrent clients", "Every answer is compared with the answer of the library the server is built with."),
    "C23": (M + "per-client accounting over recorded request histories", "Each connection's answers are judged by its own history of requests and times; answers within half a second before and twelve after the end of an interval are not judged."),
    "C27": (M + "AddressSanitizer, LeakSanitizer, Miri and a register of live values", "Sanitizer reports, values alive after their owners, and bytes kept between histories are violations; Miri covers fewer and shorter histories."),
    "C28": (M + "differential monitor over feature builds", "Builds that differ only in features answer the same workload."),
    "C24": (M + "range monitor and spread statistics", "Every value is range-checked; spread tests have a false-alarm probability below 1e-12."),
    "C25": (M + "differential monitor, checked against unchecked", "Pairs of runs are compared."),
    "C26": (M + "print and read-back monitor", "Every printed result is evaluated again and compared."),
}
NOT_YET = {}
