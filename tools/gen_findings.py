#!/usr/bin/env python3
"""Writes known-findings.txt: the recorded findings and the repaired defects (from /repo's fix commits)."""
import os, subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = [("C26", "C26:%s:%s" % (k, v), "the smallest %s (%s) does not read back: its literal is the negation of a number that does not fit the type" % (k, v))
         for k, v in [("i8", -2**7), ("i16", -2**15), ("i32", -2**31), ("i64", -2**63), ("isize", -2**63), ("i128", -2**127)]]
KNOWN += [("C22", "C22:unanswered:float:79228162514264337593543950335!",
           "the server never answers a float factorial of a huge number (79228162514264337593543950335!): prexel 0.1.9, the published library it is built with, never ends")]
# subject of the fix commit -> property
FIXED = {
 "classify an operator after another operator by the whole previous token": "C02",
 "accept a postfix operator applied to a postfix expression": "C02",
 "do not drop a second decimal point": "C05",
 "whitespace kept by the splitter": "C05",
 "apply prefix operators to the group": "C02",
 "a call without arguments takes no arguments": "C14",
 "report missing function arguments": "C16",
 "infix_to_rpn rejects an unclosed grouping symbol": "C03",
 "implicit multiplication follows the precedence": "C12",
 "reject expressions whose operands and operators do not alternate": "C03",
 "a conflicting alias is an error": "C06",
 "names that are equal ignoring case": "C18",
 "the `docs` feature must not rename": "C28",
 "the complex logarithm of a negative base": "C10",
 "the sign of zero is zero": "C08",
 "subtraction of types using `impl_unchecked_num_traits_with_field`": "C17",
 "checked average of more values": "C01",
 "the factorial of the checked contexts": "C07",
 "the power of integers is exact": "C07",
 "a panic or delay evaluating": "C22",
 "a request body with anything after": "C22",
 "the history of the REPL is not allocated": "C21",
 "square root, logarithm and reciprocal hyperbolic": "C08",
 "exact remainder of decimals": "C09",
 "complex hyperbolic tangent": "C10",
 "the binary module builds": "C28",
 "decimal": "C09",
 "complex": "C10",

 "shifting bits out": "C11",
 "read back the negative binary": "C26",
 "a circular array without capacity": "C21",
 "the float metadata endpoints": "C20",
 "the binary REPL evaluates comparisons": "C21",
 "adjacent operators and commas": "C05",
 "functions without arguments are rejected when custom calls": "C14",
 "random of a range whose size overflows": "C24",
 "the complex division and reciprocals": "C10",
 "the complex inverse functions of values whose square": "C10",
 "powers of -1": "C07",
 "powers of number types that only convert": "C17",
 "wrapper number types keep": "C17",
}
def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "de98c96..HEAD"], capture_output=True, text=True, check=True).stdout
    out = ["# Findings: \"known:\" lines are defects recorded and not repaired (matched exactly by sig); \"fixed:\" lines are repaired and suppress nothing."]
    for p, sig, what in KNOWN:
        out.append("known: property=%s sig=%s :: %s" % (p, sig, what))
    for line in log.splitlines():
        h, _, s = line.partition(" ")
        if not s.startswith("fix: "):
            continue
        s = s[5:]
        prop = next((v for k, v in FIXED.items() if s.startswith(k)), None) or next((v for k, v in FIXED.items() if k in s), None)
        if "decimal factorial of values slightly" in s:
            prop = "C01"
        if prop is None:
            raise SystemExit("no property for: " + s)
        out.append("fixed: property=%s %s %s" % (prop, h, s))
    open(os.path.join(VERIF, "known-findings.txt"), "w").write("\n".join(out) + "\n")
main()
