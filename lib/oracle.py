"""Offline oracle over logs of evaluated functions and operators (C08, C09, C10).

usage: python3-vt oracle.py <property> <log file> <output file>

Every line of the log is one evaluation observed in the real library; the value it should have had
is computed here at a much higher precision by mpmath, and compared within a tolerance that follows
the precision of the type and how sensitive the function is to its argument.
"""
import cmath, json, math, re, struct, sys
from fractions import Fraction
import mpmath
from mpmath import mp, mpf, mpc

INF = math.inf
ONE_ARG = {"sqrt", "ln", "exp", "to_radians", "to_degrees", "sin", "cos", "tan", "csc", "sec", "cot", "asin", "acos", "acsc", "asec", "acot",
           "sinh", "cosh", "tanh", "csch", "sech", "coth", "asinh", "acosh", "atanh", "acsch", "asech", "acoth", "abs", "floor", "ceil",
           "truncate", "round", "sign", "cbrt"}
OPERATORS = {"+", "-", "*", "/", "mod", "^", "neg", "!", "const", "lit"}


def count_is_wrong(f, n):
    """Whether `f` must refuse `n` arguments; None where nothing is promised."""
    if f in OPERATORS:
        return False
    if f in ("log", "atan"):
        return n not in (1, 2)
    if f in ONE_ARG:
        return n != 1
    if f in ("sum", "product", "avg"):
        return n == 0
    if f in ("max", "min"):
        return True if n == 0 else None if n == 1 else False
    raise ValueError(f)


class Bad(Exception):
    pass


class Outside(Exception):
    """The argument is outside the domain of the function."""


# ------------------------------------------------------------------ floats (C08)

def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return INF if x > 0 else -INF


def deg(x):
    return x * 180 / mp.pi


def rad(x):
    """Degrees to radians, exact at every multiple of 90."""
    return x * mp.pi / 180


def sin_d(x):
    return mpmath.sinpi(x / 180)


def cos_d(x):
    return mpmath.cospi(x / 180)


def inv(x):
    if x == 0:
        raise Outside
    return 1 / x


def need(c, v):
    if not c:
        raise Outside
    return v


REAL = {
    "sqrt": lambda x: need(x >= 0, x) ** mpf("0.5"),
    "ln": lambda x: mpmath.log(need(x > 0, x)),
    "log": lambda x: mpmath.log10(need(x > 0, x)),
    "exp": lambda x: mpmath.exp(x),
    "cbrt": lambda x: mpmath.cbrt(x) if x >= 0 else -mpmath.cbrt(-x),
    "to_radians": rad,
    "to_degrees": deg,
    "sin": sin_d,
    "cos": cos_d,
    "tan": lambda x: sin_d(x) * inv(cos_d(x)),
    "csc": lambda x: inv(sin_d(x)),
    "sec": lambda x: inv(cos_d(x)),
    "cot": lambda x: cos_d(x) * inv(sin_d(x)),
    "asin": lambda x: deg(mpmath.asin(need(abs(x) <= 1, x))),
    "acos": lambda x: deg(mpmath.acos(need(abs(x) <= 1, x))),
    "atan": lambda x: deg(mpmath.atan(x)),
    "acsc": lambda x: deg(mpmath.asin(1 / need(abs(x) >= 1, x))),
    "asec": lambda x: deg(mpmath.acos(1 / need(abs(x) >= 1, x))),
    "acot": lambda x: deg(mpmath.atan(1 / x)) if x else mpf(90),
    "sinh": mpmath.sinh,
    "cosh": mpmath.cosh,
    "tanh": mpmath.tanh,
    "csch": lambda x: inv(mpmath.sinh(x)),
    "sech": lambda x: 1 / mpmath.cosh(x),
    "coth": lambda x: inv(mpmath.tanh(x)),
    "asinh": mpmath.asinh,
    "acosh": lambda x: mpmath.acosh(need(x >= 1, x)),
    "atanh": lambda x: mpmath.atanh(need(abs(x) < 1, x)),
    "acsch": lambda x: mpmath.asinh(inv(x)),
    "asech": lambda x: mpmath.acosh(1 / need(0 < x <= 1, x)),
    "acoth": lambda x: mpmath.atanh(1 / need(abs(x) > 1, x)),
}
HYPER_INV = {"asinh", "acosh", "atanh", "acsch", "asech", "acoth"}
# functions whose argument may be taken as the integer it is within 1e-10 of
SNAP_ARG = {"sqrt", "ln", "exp", "floor", "ceil", "truncate", "round", "to_radians", "to_degrees", "sinh", "cosh", "tanh", "csch", "sech", "coth"}
NOT_TO_ZERO = {"sqrt", "ln", "csch", "coth"}
# functions whose result may be so rounded
SNAP_RES = {"sin", "cos", "tan", "asin", "acos", "acsc", "asec", "acot", "asinh", "acosh", "atanh", "acsch", "asech", "acoth"}
SNAP_DEN = {"csc": sin_d, "sec": cos_d, "cot": lambda x: REAL["tan"](x)}
SNAP = mpf("1.001e-10")


class Floats:
    def __init__(self):
        mp.dps = 45
        self.rel = {False: mpf("1e-13"), True: mpf("1.3e-7")}
        self.max = {False: mpf(sys.float_info.max), True: mpf(3.4028234663852886e38)}
        self.tiny = {False: mpf(2.3e-308), True: mpf(1.2e-38)}
        # where precision is lost gradually
        self.least = {False: mpf(5e-308) * mpf("1e-13"), True: mpf(3e-45)}
        self.counters = {}

    def num(self, s, single):
        x = float(s)
        return f32(x) if single else x

    def count(self, k):
        self.counters[k] = self.counters.get(k, 0) + 1

    def judge(self, e):
        single = e["k"].startswith("f32")
        f, r, x = e["f"], e["r"], e["x"]
        if x and x.startswith("PANIC"):
            raise Bad("panic: " + x)
        if f in ("const", "lit"):
            return self.value(e, single)
        args = [self.num(a, single) for a in e["a"]]
        wrong = count_is_wrong(f, len(args))
        if wrong is None:
            return self.count("unspecified")
        if wrong:
            self.count("wrong_count")
            if r is not None:
                raise Bad("%d arguments were accepted" % len(args))
            return
        res = None if r is None else self.num(r, single)
        args = [a if a else 0.0 for a in args]  # the sign of zero is not judged
        if any(math.isnan(a) for a in args):
            self.count("nan_argument")
            if f in ("^", "max", "min", "sign"):
                return
            if res is not None and math.isfinite(res):
                raise Bad("a finite value from an argument that is not a number")
            return
        if f in ("+", "-", "*", "/", "mod", "neg", "max", "min", "abs", "sign"):
            return self.exact(f, args, res, single)
        if f in ("sum", "product", "avg"):
            return self.fold(f, args, res, single)
        if not all(map(math.isfinite, args)):
            return self.count("infinite_argument")
        xs = [mpf(a) for a in args]
        if f in ("floor", "ceil", "truncate", "round"):
            return self.rounding(f, args[0], res)
        if f == "^":
            return self.power(xs, res, single)
        if f == "!":
            return self.factorial(xs[0], res, single)
        if f == "atan" and len(xs) == 2:
            return self.atan2(xs, res, single)
        if f == "log" and len(xs) == 2:
            return self.log_base(xs, res, single)
        return self.function(f, xs[0], res, single)

    def value(self, e, single):
        if e["r"] is None:
            raise Bad("no value")
        if e["f"] == "const":
            want = {"pi": mp.pi, "e": mp.e}[e["a"][0].lower()]
        else:
            want = mpf(e["a"][0])
        got = mpf(self.num(e["r"], single))
        self.count(e["f"])
        if want > self.max[single]:
            if not math.isinf(got) and abs(got - self.max[single]) > self.max[single] * mpf("1e-6"):
                raise Bad("expected an overflow")
            return
        eps = mpf(2) ** (-24 if single else -53)
        if abs(got - want) > want * eps * mpf("1.0001") + self.least[single]:
            raise Bad("expected %s" % mpmath.nstr(want, 20))

    # results that have exactly one right value
    def exact(self, f, args, res, single):
        self.count("exact")
        a, b = args[0], args[1] if len(args) > 1 else None
        if f in ("/", "mod") and b == 0:
            if res is not None and math.isfinite(res):
                raise Bad("division by zero gave a finite value")
            return
        if f == "neg":
            want = -a
        elif f == "abs":
            want = abs(a)
        elif f == "sign" and math.isinf(a):
            return
        elif f == "sign":
            want = (a > 0) - (a < 0)
        elif f == "max":
            want = max(args)
        elif f == "min":
            want = min(args)
        elif f == "mod":
            want = math.nan if math.isinf(a) else math.fmod(a, b)
        else:
            want = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[f]()
        if single:
            want = f32(want)
        if math.isfinite(want):
            if res is None or res != want:
                raise Bad("expected %r" % want)
        elif res is not None and math.isfinite(res):
            raise Bad("expected %r or an error" % want)

    def fold(self, f, args, res, single):
        self.count("fold")
        if not all(map(math.isfinite, args)):
            if res is not None and math.isfinite(res):
                if not (f == "product" and res == 0):
                    raise Bad("a finite value from infinities")
            return
        n = len(args)
        eps = mpf(2) ** (-23 if single else -52)
        xs = [Fraction(a) for a in args]
        top = self.max[single]
        if f == "product":
            want = Fraction(1)
            big = small = mpf(1)
            for x in xs:
                want *= x
                m = abs(mpf(x.numerator) / x.denominator)
                big *= max(m, 1)
                small *= min(m, 1) if m else 1
            risky = big > top * mpf("0.99") or small < self.tiny[single]
            want = mpf(want.numerator) / want.denominator
            tol = abs(want) * eps * n
        else:
            want = sum(xs)
            mag = sum(map(abs, xs))
            mag = mpf(mag.numerator) / mag.denominator
            risky = mag > top * mpf("0.99")
            tol = mag * eps * n
            if f == "avg":
                want /= n
                tol = tol / n + abs(mpf(want.numerator) / want.denominator) * eps
            want = mpf(want.numerator) / want.denominator
        if risky:
            self.count("fold_overflow")
            if res is None or not math.isfinite(res) or abs(want) > top:
                return
            if f == "product":  # a partial product may be lost to zero
                return
            raise_if = abs(mpf(res) - want) > tol
            if raise_if:
                raise Bad("expected %s" % mpmath.nstr(want, 20))
            return
        if res is None or not math.isfinite(res) or abs(mpf(res) - want) > tol + self.least[single]:
            raise Bad("expected %s" % mpmath.nstr(want, 20))

    def rounding(self, f, a, res):
        self.count("rounding")
        do = {"floor": math.floor, "ceil": math.ceil, "truncate": math.trunc,
              "round": lambda v: int(math.copysign(math.floor(abs(Fraction(v)) + Fraction(1, 2)), v))}[f]
        ok = {do(a)}
        near = math.floor(Fraction(a) + Fraction(1, 2))
        if abs(Fraction(a) - near) < Fraction(1001, 10 ** 13):
            ok.add(near)
        if abs(a) > 2 ** 53 and res is not None:
            if abs(res - a) <= 4 * abs(a) * 2.0 ** -53:
                return
        if res is None or res not in ok:
            raise Bad("expected %s" % sorted(ok))

    def near(self, res, want, tol, single):
        """Whether an observed result may stand for the true value."""
        top = self.max[single]
        if res is None or not math.isfinite(res):
            if abs(want) + tol > top * (1 - self.rel[single]):
                return res is None or math.isnan(res) or (res > 0) == (want > 0)
            return False
        return abs(mpf(res) - want) <= tol + abs(want) * self.rel[single] + self.least[single]

    def settle(self, res, fn, args, single, snaps=(), extra=0):
        """Compares with `fn`, allowing for a few units of error in each argument."""
        h = mpf("2e-15")
        outs, edge = [], False
        try:
            want = fn(*args)
        except (Outside, ZeroDivisionError):
            want = None
        for i, a in enumerate(args):
            for s in (1 - h, 1 + h):
                b = list(args)
                b[i] = a * s
                try:
                    outs.append(fn(*b))
                except (Outside, ZeroDivisionError):
                    edge = True
        if want is None:
            self.count("outside")
            if res is None or not math.isfinite(res):
                return
            if any(s is not None and self.near(res, s, 0, single) for s in snaps):
                return
            if outs and args and any(self.near(res, o, abs(o) * self.rel[single], single) for o in outs):
                return
            if not outs:
                raise Bad("outside the domain")
            # at a pole the nearby values are huge
            if abs(res) >= min(mpf("1e9"), min(abs(o) for o in outs) / 8) and min(abs(o) for o in outs) > 100:
                return
            raise Bad("outside the domain")
        tol = extra + max([abs(o - want) for o in outs] or [mpf(0)])
        self.count("inside")
        if self.near(res, want, tol, single):
            return
        if edge and (res is None or not math.isfinite(res)):
            return
        for s in snaps:
            if s is None:
                if res is None or not math.isfinite(res):
                    return
            elif self.near(res, s, 0, single):
                return
        # next to a pole
        if abs(want) > mpf("1e12") and tol > abs(want) / 100 and (res is None or abs(res) > 1e9):
            return
        raise Bad("expected %s (within %s)" % (mpmath.nstr(want, 20), mpmath.nstr(tol + abs(want) * self.rel[single], 3)))

    def function(self, f, x, res, single):
        fn = REAL[f]
        if f in HYPER_INV:
            g = fn
            fn = lambda v: deg(g(v))
        self.count("f_" + f)
        if f in ("sin", "cos", "tan", "csc", "sec", "cot") and abs(x) > mpf("1e13"):
            self.count("huge_angle")
            if res is None:
                if f in ("sin", "cos"):
                    raise Bad("no value")
            elif f in ("sin", "cos") and not abs(res) <= 1:
                raise Bad("beyond 1")
            elif f in ("csc", "sec") and math.isfinite(res) and not abs(res) >= 1:
                raise Bad("within 1")
            return
        snaps = []
        extra = mpf(0)
        if f in ("asech", "acsch") and abs(x) * self.max[single] < mpf("1.01"):
            snaps.append(None)  # the reciprocal is out of range
        if f == "acot" and x == 0:
            snaps.append(mpf(-90))
        near = mpmath.nint(x)
        if f in SNAP_ARG and x != near and abs(x - near) < SNAP and not (near == 0 and f in NOT_TO_ZERO and (x > 0 or f != "sqrt")):
            try:
                snaps.append(fn(near))
            except Outside:
                snaps.append(None)
        try:
            want = fn(x)
        except Outside:
            want = None
        if f in SNAP_RES and want is not None and abs(want - mpmath.nint(want)) < SNAP + abs(want) * mpf("1e-15"):
            snaps.append(mpmath.nint(want))
        if f in SNAP_DEN:
            try:
                d = SNAP_DEN[f](x)
                n = mpmath.nint(d)
                if abs(d - n) < SNAP + abs(d) * mpf("1e-15") * (1 + abs(x)):
                    snaps.append(None if n == 0 else 1 / n)
            except Outside:
                snaps.append(mpf(0))
        if want is not None and abs(want) < mpf("1e-307"):
            extra = mpf("1e-307")
        elif f in ("sin", "cos", "csc", "sec", "tan", "cot"):
            extra = mpf("1e-16")
            if want is not None and abs(want) > 1:
                extra *= want * want
        self.settle(res, fn, [x], single, snaps, extra)

    def power(self, xs, res, single):
        self.count("power")
        a, b = xs

        def fn(a, b):
            if a == 0:
                if b < 0:
                    raise Outside
                return mpf(1) if b == 0 else mpf(0)
            if a < 0 and b != int(b):
                raise Outside
            if b and abs(b) * abs(mpmath.log(abs(a))) > 2000:
                up = (abs(a) > 1) == (b > 0)
                v = mpf(2) ** 2000 if up else mpf(2) ** -2000
                return -v if a < 0 and int(b) % 2 else v
            return a ** (int(b) if b == int(b) else b)

        # the exponent is exact: only what the result's own precision allows
        want = None
        try:
            want = fn(a, b)
        except Outside:
            pass
        if want is None:
            self.count("outside")
            if res is not None and math.isfinite(res):
                raise Bad("outside the domain")
            return
        grow = mpf(0)
        if a > 0 and a != 1:
            grow = abs(want) * abs(b * mpmath.log(a)) * mpf("1e-15")
        if not self.near(res, want, grow, single):
            raise Bad("expected %s" % mpmath.nstr(want, 20))

    def factorial(self, x, res, single):
        self.count("factorial")
        if x < 0:
            if res is not None and math.isfinite(res):
                raise Bad("factorial of a negative number")
            return
        if x > 200:
            if res is not None and math.isfinite(res):
                raise Bad("expected an overflow")
            return
        want = mpmath.gamma(x + 1)
        rel = mpf("2e-12") if not single else mpf("1e-7") * (x + 3)
        # a part of the computation may overflow before the result does
        if want > self.max[single] / 4 and (res is None or res == INF):
            return self.count("factorial_overflow")
        if not self.near(res, want, want * rel, single):
            raise Bad("expected %s" % mpmath.nstr(want, 20))

    def atan2(self, xs, res, single):
        self.count("atan2")
        y, x = xs
        if x == 0 and y == 0:
            return
        if y == 0 and x < 0 and res == -180:  # from below
            return
        self.settle(res, lambda y, x: deg(mpmath.atan2(y, x)), [y, x], single)

    def log_base(self, xs, res, single):
        self.count("log_base")
        x, b = xs
        if b == 0:
            return

        def fn(x, b):
            if x <= 0 or b <= 0 or b == 1:
                raise Outside
            return mpmath.log(x) / mpmath.log(b)

        self.settle(res, fn, [x, b], single)


# ------------------------------------------------------------------ decimals (C09)

LIMIT = 2 ** 96


def ulp_at(t):
    """The distance between neighbouring decimals of the size of `t`."""
    t = abs(t)
    s = 28
    while s > 0 and t * 10 ** s >= LIMIT:
        s -= 1
    return Fraction(1, 10 ** s)


def representable(t):
    d = t.denominator
    s = 0
    while 10 ** s % d:
        s += 1
        if s > 28:
            return False
    return abs(t) * 10 ** s < LIMIT


def frac(v):
    """An mpf as a fraction."""
    sign, man, exp, _ = v._mpf_
    f = Fraction(int(man)) * (Fraction(2) ** exp)
    return -f if sign else f


class Decimals:
    TOP = mpf(LIMIT)

    def __init__(self):
        mp.dps = 70
        self.counters = {}
        self.worst = {}

    def count(self, k):
        self.counters[k] = self.counters.get(k, 0) + 1

    def judge(self, e):
        f, r, x = e["f"], e["r"], e["x"]
        if x and x.startswith("PANIC"):
            raise Bad("panic: " + x)
        res = None if r is None else Fraction(r)
        if f == "const":
            want = {"pi": mp.pi, "e": mp.e}[e["a"][0].lower()]
            self.count("const")
            return self.within(f, res, +want, mpf("1e-27"))
        if f == "lit":
            self.count("lit")
            if res != Fraction(e["a"][0]):
                raise Bad("another number than the literal")
            return
        args = [Fraction(a) for a in e["a"]]
        wrong = count_is_wrong(f, len(args))
        if wrong is None:
            return self.count("unspecified")
        if wrong:
            self.count("wrong_count")
            if r is not None:
                raise Bad("%d arguments were accepted" % len(args))
            return
        a, b = args[0], args[1] if len(args) > 1 else None
        if f in ("/", "mod") and b == 0:
            if r is not None:
                raise Bad("division by zero gave a value")
            return self.count("by_zero")
        if f in ("+", "-", "*", "/"):
            return self.arithmetic(res, {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[f]())
        if f == "mod":
            q = abs(a) // abs(b)
            m = abs(a) - abs(b) * q
            return self.arithmetic(res, m if a >= 0 else -m)
        if f in ("neg", "max", "min", "floor", "ceil", "truncate", "round"):
            return self.exact(f, args, res)
        if f in ("sum", "product", "avg"):
            return self.fold(f, args, res)
        xs = [mpf(v.numerator) / v.denominator for v in args]
        if f == "^":
            return self.power(args, xs, res)
        if f == "!":
            return self.factorial(a, xs[0], res)
        self.count("f_" + f)
        if f == "atan" and len(xs) == 2:
            y, x = xs
            if y == 0 and x == 0:
                return
            want = deg(mpmath.atan2(y, x))
            return self.within(f, res, want, mpf("2e-14"))
        if f == "log" and len(xs) == 2:
            return self.log_base(xs, res)
        return self.function(f, xs[0], res)

    def overflow(self, res, want):
        """True when the result is out of range, and so must be an error."""
        if abs(want) >= LIMIT:
            if res is not None:
                raise Bad("expected an overflow")
            return True
        return False

    def arithmetic(self, res, want):
        self.count("arithmetic")
        if abs(want) >= LIMIT - 1:
            if abs(want) >= LIMIT and res is not None:
                raise Bad("expected an overflow")
            return self.count("overflow")
        if res is None:
            raise Bad("expected %s" % mpmath.nstr(mpf(want.numerator) / want.denominator, 30))
        if res == want:
            return
        if representable(want) and not (abs(want) + 1 >= LIMIT * ulp_at(want) and abs(res - want) <= 5 * ulp_at(want)):
            raise Bad("expected exactly %s" % mpmath.nstr(mpf(want.numerator) / want.denominator, 30))
        self.count("rounded")
        off = abs(res - want) / ulp_at(want)
        self.note("rounding", off)
        # next to the largest mantissa one decimal less may be kept
        close = abs(want) + 10 * ulp_at(want) >= LIMIT * ulp_at(want)
        if off > (Fraction(501, 100) if close else Fraction(501, 1000)):
            raise Bad("expected %s, off by %s units" % (mpmath.nstr(mpf(want.numerator) / want.denominator, 31), float(off)))

    def note(self, k, v):
        if v > self.worst.get(k, 0):
            self.worst[k] = v

    def exact(self, f, args, res):
        self.count("exact")
        a = args[0]
        if f == "round":
            lo = math.floor(a)
            ok = {lo} if a - lo < Fraction(1, 2) else {lo + 1} if a - lo > Fraction(1, 2) else {lo, lo + 1}
        else:
            ok = {{"neg": lambda: -a, "max": lambda: max(args), "min": lambda: min(args), "floor": lambda: math.floor(a),
                   "ceil": lambda: math.ceil(a), "truncate": lambda: math.trunc(a)}[f]()}
        if res not in ok:
            if res is None and abs(max(ok)) >= LIMIT:
                return
            raise Bad("expected %s" % [str(o) for o in ok])

    def fold(self, f, args, res):
        self.count("fold")
        mag = sum(map(abs, args))
        n = len(args)
        if f == "product":
            want = Fraction(1)
            big = Fraction(1)
            for a in args:
                want *= a
                big *= max(abs(a), 1)
            if res is None:
                if big < LIMIT:
                    raise Bad("expected %s" % float(want))
                return self.count("overflow")
            # every partial product is rounded at the 28th decimal
            tol = n * (Fraction(1, 10 ** 28) * big + abs(want) * Fraction(1, 10 ** 27))
        else:
            want = sum(args)
            if res is None:
                if mag < LIMIT - 2:
                    raise Bad("expected %s" % float(want))
                return self.count("overflow")
            u = ulp_at(mag)
            if mag + 10 * n * u >= LIMIT * u and u < 1:
                u *= 10  # one decimal less may be kept
            tol = n * u
            if f == "avg":
                want /= n
                tol = tol / n + ulp_at(want)
            elif representable(want) and all(representable(sum(args[:i])) for i in range(2, n)):
                tol = 0
        if abs(res - want) > tol:
            raise Bad("expected %s" % mpmath.nstr(mpf(want.numerator) / want.denominator, 30))

    def within(self, f, res, want, tol, may_fail=False):
        if res is None:
            if may_fail or abs(want) > LIMIT * mpf("0.999999"):
                return self.count("overflow")
            raise Bad("expected %s" % mpmath.nstr(want, 30))
        if abs(want) > LIMIT * mpf("1.000001"):
            raise Bad("expected an overflow")
        got = mpf(res.numerator) / res.denominator
        if abs(got - want) > tol + abs(want) * mpf("1e-27"):
            raise Bad("expected %s (within %s)" % (mpmath.nstr(want, 30), mpmath.nstr(tol, 3)))
        if tol:
            self.note(f, float(abs(got - want) / tol))

    def power(self, args, xs, res):
        self.count("power")
        a, b = xs
        if a == 0:
            if b < 0:
                if res is not None:
                    raise Bad("zero to a negative power gave a value")
                return
            return self.within("^", res, mpf(1) if b == 0 else mpf(0), mpf(0))
        whole = args[1].denominator == 1
        if a < 0 and not whole:
            if res is not None:
                raise Bad("root of a negative number")
            return
        if b and abs(mpmath.log(abs(a)) * b) > 300:
            big = (abs(a) > 1) == (b > 0)
            if big and res is not None:
                raise Bad("expected an overflow")
            if not big and res is not None and abs(res) > Fraction(1, 10 ** 20):
                raise Bad("expected zero")
            if not big and res is None and abs(b) < 2 ** 62 and (whole or abs(b * mpmath.log(a)) < 1000):
                raise Bad("expected zero")
            return
        n = abs(b)
        want = a ** int(args[1]) if whole else a ** b
        if whole:
            # the error of repeated multiplication, absolute for values below one
            base = abs(a) if b > 0 or abs(a) >= 1 else 1 / abs(a)
            tol = (n + 4) * (mpf("2e-28") + abs(want) * mpf("2e-27"))
            if base < 1:
                tol += mpf("1e-27")
            if b < 0 and abs(a) >= 1:
                pass
            fail = False
        else:
            tol = mpf("1e-15") * (1 + abs(want)) * (1 + n)
            fail = False
        self.within("^i" if whole else "^", res, want, tol, fail)

    def factorial(self, a, x, res):
        self.count("factorial")
        if a < 0:
            if res is not None:
                raise Bad("factorial of a negative number")
            return
        if a > 40:
            if res is not None:
                raise Bad("expected an overflow")
            return
        want = mpmath.gamma(x + 1)
        if a.denominator == 1:
            if want >= LIMIT:
                if res is not None:
                    raise Bad("expected an overflow")
            elif res is None or mpf(int(res)) != mpmath.nint(want) or res.denominator != 1:
                raise Bad("expected %s" % mpmath.nstr(want, 30))
            return
        self.within("!", res, want, want * mpf("1e-12") + mpf("1e-15"), may_fail=want > LIMIT / 8)

    def log_base(self, xs, res):
        x, b = xs
        if x <= 0 or b <= 0 or b == 1:
            if res is not None:
                raise Bad("outside the domain")
            return
        lb = mpmath.log(b)
        want = mpmath.log(x) / lb
        tol = mpf("1e-15") * (1 + abs(want)) / min(abs(lb), 1)
        # a base close to one has a logarithm close to zero
        self.within("log_base", res, want, tol, may_fail=abs(lb) < mpf("1e-15"))

    def function(self, f, x, res):
        fn = REAL[f]
        try:
            want = fn(x)
        except Outside:
            self.count("outside")
            if f in ("tan", "csc", "sec", "cot") and res is not None:
                # next to a pole
                if abs(res) < 10 ** 14:
                    raise Bad("at a pole")
                return
            if res is not None:
                raise Bad("outside the domain")
            return
        self.count("inside")
        if f in ("sin", "cos", "tan", "csc", "sec", "cot"):
            # how well the argument can be turned into radians
            if abs(x) > mpf("1e23"):
                self.count("huge_angle")
                if f in ("sin", "cos") and (res is None or abs(res) > 1):
                    raise Bad("not within 1")
                return
            d = {"sin": None, "cos": None, "tan": cos_d, "csc": sin_d, "sec": cos_d, "cot": sin_d}[f]
            tol = mpf("1.1e-16") + abs(x) * mpf("1e-27")
            if d:
                den = abs(d(x))
                # within reach of a pole anything large may come out, or an error
                if den < 4 * tol:
                    if res is not None and abs(res) * frac(8 * tol) < 1:
                        raise Bad("next to a pole")
                    return self.count("pole")
                tol = 2 * tol / (den * den)
            return self.within(f, res, want, tol, may_fail=d is not None and den < mpf("3e-16"))
        if f in ("asin", "acos", "atan", "acsc", "asec", "acot"):
            return self.within(f, res, want, mpf("2e-14"), may_fail=f in ("acsc", "asec", "acot") and abs(x) * LIMIT < 1)
        if f in ("sqrt", "cbrt"):
            tol = mpf("2e-28") + abs(want) * mpf("1e-22")
            if f == "cbrt" and want:
                # its steps divide by the square, which is rounded at the 28th decimal
                tol += min(mpf("2e-27") / (want * want), mpf("1e-9"))
            return self.within(f, res, want, tol)
        if f in ("to_radians", "to_degrees"):
            return self.within(f, res, want, mpf("1.1e-16") + abs(want) * mpf("1e-26"))
        if f in ("ln", "log"):
            return self.within(f, res, want, mpf("1.1e-16") + abs(want) * mpf("1e-18"))
        if f == "exp":
            return self.within(f, res, want, mpf("1.1e-16") + abs(want) * mpf("1e-15"))
        if f in ("sinh", "cosh", "tanh", "csch", "sech", "coth"):
            tol = mpf("1e-15") * (1 + abs(want))
            if f in ("csch", "coth"):
                tol = mpf("1e-15") * (1 + want * want)
                if abs(x) < mpf("1e-14"):
                    if res is not None and abs(res) < 10 ** 13:
                        raise Bad("next to a pole")
                    return self.count("pole")
            return self.within(f, res, want, tol, may_fail=abs(x) > 66 and f in ("sinh", "cosh", "csch", "sech"))
        # inverse hyperbolic functions
        self.within(f, res, want, mpf("1e-14"), may_fail=False)


# ------------------------------------------------------------------ complex numbers (C10)

def csqrt(z):
    return mpmath.sqrt(z)


COMPLEX = {
    "sqrt": mpmath.sqrt,
    "ln": mpmath.log,
    "log": lambda z: mpmath.log(z) / mpmath.log(10),
    "exp": mpmath.exp,
    "sin": mpmath.sin, "cos": mpmath.cos, "tan": mpmath.tan,
    "csc": lambda z: 1 / mpmath.sin(z), "sec": lambda z: 1 / mpmath.cos(z), "cot": lambda z: mpmath.cos(z) / mpmath.sin(z),
    "asin": mpmath.asin, "acos": mpmath.acos, "atan": mpmath.atan,
    "acsc": lambda z: mpmath.asin(1 / z), "asec": lambda z: mpmath.acos(1 / z), "acot": lambda z: mpmath.atan(1 / z),
    "sinh": mpmath.sinh, "cosh": mpmath.cosh, "tanh": mpmath.tanh,
    "csch": lambda z: 1 / mpmath.sinh(z), "sech": lambda z: 1 / mpmath.cosh(z), "coth": lambda z: mpmath.cosh(z) / mpmath.sinh(z),
    "asinh": mpmath.asinh, "acosh": mpmath.acosh, "atanh": mpmath.atanh,
    "acsch": lambda z: mpmath.asinh(1 / z), "asech": lambda z: mpmath.acosh(1 / z), "acoth": lambda z: mpmath.atanh(1 / z),
}
NUMBER = r"[+-]?(?:\d+(?:\.\d*)?(?:e[+-]?\d+)?|NaN|inf)"


def parse_complex(s, single=False):
    """Texts such as `3`, `3+4i`, `-3.5-0.25i`, `0+-1i`."""
    m = re.fullmatch(r"(%s)(?:(\+|-)(%s)i)?" % (NUMBER, NUMBER), s)
    if not m:
        raise Bad("not a complex number: %r" % s)
    q = f32 if single else (lambda v: v)
    re_ = q(float(m.group(1)))
    im = 0.0 if m.group(2) is None else q(float(m.group(3)))
    return re_, -im if m.group(2) == "-" else im


class Complexes:
    def __init__(self):
        mp.dps = 34
        self.counters, self.worst = {}, {}

    count = Decimals.count
    note = Decimals.note

    def judge(self, e):
        f, r, x = e["f"], e["r"], e["x"]
        single = e["k"] == "cplx32"
        self.eps = mpf(2) ** (-23 if single else -52)
        # a few of the least positive numbers, and the greatest
        self.least = mpf(2) ** (-146 if single else -1071)
        self.top = mpf(2) ** (128 if single else 1024)
        if x and x.startswith("PANIC"):
            raise Bad("panic: " + x)
        res = None if r is None else parse_complex(r)
        if f == "const":
            want = {"pi": mp.pi, "e": mp.e, "i": mpc(0, 1)}[e["a"][0].lower()]
            self.count("const")
            return self.close(f, res, mpc(want), self.eps)
        if f == "lit":
            self.count("lit")
            return self.literal(e["a"][0], res)
        args = [parse_complex(a, single) for a in e["a"]]
        wrong = len(args) != 1 if f == "atan" else count_is_wrong(f, len(args))
        if wrong:
            self.count("wrong_count")
            if r is not None:
                raise Bad("%d arguments were accepted" % len(args))
            return
        zs = [mpc(*a) for a in args]
        if f in ("+", "-", "*", "/", "neg"):
            return self.arithmetic(f, zs, res)
        if f in ("sum", "product", "avg"):
            return self.fold(f, zs, res)
        self.count("f_" + f)
        if f == "^":
            return self.power(zs, res)
        if f == "log" and len(zs) == 2:
            return self.log_base(zs, res)
        return self.function(f, zs[0], res, single)

    def close(self, f, res, want, rel, floor=mpf(0), fail=False):
        """Relative to the size of the whole number."""
        if res is None:
            if fail:
                return
            raise Bad("expected %s" % mpmath.nstr(want, 18))
        if not (math.isfinite(res[0]) and math.isfinite(res[1])):
            if fail or abs(want) > (1e38 if self.eps > 1e-10 else 1e307):
                return
            raise Bad("expected %s" % mpmath.nstr(want, 18))
        off = abs(mpc(*res) - want)
        tol = abs(want) * rel + floor
        if tol:
            self.note(f, float(off / tol))
        if off > tol:
            raise Bad("expected %s, off by %s" % (mpmath.nstr(want, 18), mpmath.nstr(off, 4)))

    def literal(self, text, res):
        t = text.replace(" ", "")
        m = re.fullmatch(r"(?:(\d+(?:\.\d+)?)([+-]))?(-?)(\d+(?:\.\d+)?)?(i?)", t)
        if not m:
            raise ValueError(text)
        base, op, neg, n, i = m.groups()
        v = mpf(n) if n else mpf(1)
        z = mpc(0, v) if i else mpc(v, 0)
        if neg or op == "-":
            z = -z
        if base:
            z += mpf(base)
        self.close("lit", res, z, self.eps)

    def arithmetic(self, f, zs, res):
        self.count("arithmetic")
        a = zs[0]
        b = zs[1] if len(zs) > 1 else None
        if f == "/":
            if b == 0:
                if res is not None and all(map(math.isfinite, res)):
                    raise Bad("division by zero gave a value")
                return
            return self.close(f, res, a / b, 8 * self.eps, self.least)
        if f == "*":
            return self.close(f, res, a * b, 4 * self.eps, self.least)
        want = {"+": lambda: a + b, "-": lambda: a - b, "neg": lambda: -a}[f]()
        # each part is rounded on its own
        if res is None:
            raise Bad("expected %s" % mpmath.nstr(want, 18))
        for got, part in zip(res, (want.real, want.imag)):
            if abs(mpf(got) - part) > abs(part) * self.eps:
                raise Bad("expected %s" % mpmath.nstr(want, 18))

    def fold(self, f, zs, res):
        self.count("fold")
        n = len(zs)
        if f == "product":
            want, high, low = mpc(1), mpf(1), mpf(1)
            for z in zs:
                want *= z
                high *= max(1, abs(z))
                low *= min(1, abs(z) or 1)
            if high * 4 > self.top or low < self.least / self.eps:
                return self.count("fold_extreme")  # a part of the product may not be representable
            return self.close(f, res, want, 4 * n * self.eps, mpf("1e-300"))
        want = mpmath.fsum(zs)
        mag = mpmath.fsum([abs(z) for z in zs])
        if f == "avg":
            if mag * n * n > self.top:
                return self.count("fold_extreme")  # the sum is multiplied by the count on the way
            want /= n
            mag /= n
        self.close(f, res, want, self.eps, mag * n * self.eps)

    def power(self, zs, res):
        a, b = zs
        if a == 0:
            if b == 0:
                return self.close("^", res, mpc(1), self.eps, fail=True)  # a singularity
            if b.real > 0:
                return self.close("^", res, mpc(0), mpf(0), mpf("1e-300"))
            if res is not None and all(map(math.isfinite, res)) and b.imag == 0:
                raise Bad("zero to a negative power gave a value")
            return
        whole = b.imag == 0 and b.real == int(b.real)
        # away from the cut of the base
        if a.real < 0 and a.imag != 0 and abs(a.imag) < abs(a.real) * mpf("1e-6") and not whole:
            return self.count("on_cut")
        want = mpmath.exp(b * mpmath.log(a))
        if a.imag == 0 and a.real < 0:
            want = mpmath.exp(b * mpc(mpmath.log(-a.real), mp.pi))
        # the modulus and the turn are powers of their own
        parts = max(abs(b.real * mpmath.log(abs(a))), abs(b.imag * mpmath.arg(a)))
        grow = 8 + 4 * abs(b) * (1 + abs(mpmath.log(abs(a))) + 4) + 4 * abs(b.imag) * 8
        big = mpf("1e36") if self.eps > 1e-10 else mpf("1e290")
        if not 1 / big < abs(want) < big or grow * self.eps > 0.1 or parts > (80 if self.eps > 1e-10 else 680):
            return self.count("extreme")
        self.close("^", res, want, grow * self.eps, abs(want) * 0 + mpf("1e-300"))

    def log_base(self, zs, res):
        z, b = zs
        if b.imag != 0:
            # the base has to be real
            if res is not None:
                self.close("log_base", res, mpmath.log(z) / mpmath.log(b), mpf("1e-9"))
            return
        if z == 0 or b.real == 0 or b.real == 1:
            return self.count("outside")
        if b.real < 0:
            self.count("negative_base")
        lz, lb = self.upper(z), self.upper(mpc(b.real))
        rel = 16 * self.eps * (1 + 1 / abs(lb))
        self.close("log_base", res, lz / lb, rel, 8 * self.eps * (1 + abs(lz)) / abs(lb))

    def upper(self, z):
        if z.imag == 0 and z.real < 0:
            return mpc(mpmath.log(-z.real), mp.pi)
        return mpmath.log(z)

    def function(self, f, z, res, single):
        eps = self.eps
        fn = COMPLEX[f]
        cut_distance = self.distance(f, z)
        if cut_distance is not None and cut_distance < (mpf("1e-2") if single else mpf("1e-4")):
            # on the cut itself the negative reals of these take the upper side
            if not (f in ("sqrt", "ln", "log") and z.imag == 0 and z.real < 0):
                if z != 0 and (z.imag == 0 or z.real == 0):
                    return self.on_cut(f, z, res)
                return self.count("near_cut")
        try:
            if f in ("ln", "log") and z.imag == 0 and z.real < 0:
                want = self.upper(z)
                if f == "log":
                    want = want / mpmath.log(10)
            elif f == "sqrt" and z.imag == 0 and z.real < 0:
                want = mpc(0, mpmath.sqrt(-z.real))
            else:
                want = mpc(fn(z))
        except (ZeroDivisionError, ValueError):
            return self.count("singular")
        big = mpf("1e36") if single else mpf("1e290")
        if abs(want) > big or abs(want) < 1 / big and want != 0:
            return self.count("extreme")
        h = mpf(8) * eps
        tol = mpf(0)
        for d in (1 + h, 1 - h, mpc(1, h), mpc(1, -h)):
            try:
                tol = max(tol, abs(mpc(fn(z * d)) - want))
            except (ZeroDivisionError, ValueError):
                return self.count("singular")
        if f in ("sqrt", "ln", "log") and z.imag == 0 and z.real < 0:
            tol = 8 * eps * (1 + abs(want))
        slack = self.slack(f, z, eps)
        self.close(f, res, want, mpf("64") * eps, tol + slack, fail=2 * slack > abs(want))

    def on_cut(self, f, z, res):
        """Exactly on a cut the value is the limit from one of its sides."""
        w = 1 / z if f in ("acsc", "asec", "acot", "acsch", "asech", "acoth") else z
        if f in ("csc", "cot", "csch", "coth") or min(abs(w - 1), abs(w + 1), abs(w - mpc(0, 1)), abs(w + mpc(0, 1)), abs(w)) < mpf("1e-2"):
            return self.count("near_cut")
        side = mpf("1e-33") * abs(z)
        self.count("limit")
        fn, limits = COMPLEX[f], []
        for d in (mpc(0, side), mpc(0, -side)) if z.imag == 0 else (mpc(side, 0), mpc(-side, 0)):
            try:
                limits.append(mpc(fn(z + d)))
            except (ZeroDivisionError, ValueError):
                return self.count("singular")
        if res is None or not all(map(math.isfinite, res)):
            raise Bad("expected %s" % " or ".join(mpmath.nstr(v, 18) for v in limits))
        got = mpc(*res)
        want = min(limits, key=lambda v: abs(got - v))
        self.close(f, res, want, mpf("64") * self.eps, self.slack(f, z, self.eps) + mpf("1e-9") * self.eps)

    def slack(self, f, z, eps):
        """What the formulas in use lose to cancellation."""
        w = {"a": 1 / z if z != 0 else mpc(0)}["a"] if f in ("acsc", "asec", "acot", "acsch", "asech", "acoth") else z
        if f.startswith("a"):
            return eps * 64 * (1 + mpmath.log(1 + abs(w)))
        if f in ("ln", "log"):
            return eps * 8
        if f in ("tan", "cot", "tanh", "coth"):
            # (sin 2x + i sinh 2y) / (cos 2x + cosh 2y)
            d = abs(mpmath.cos(z) if f in ("tan", "cot") else mpmath.cosh(z)) ** 2
            return eps * 8 / d * abs(COMPLEX[f](z)) if d else mpf(0)
        return mpf(0)

    def distance(self, f, z):
        """How far the argument is from the branch cuts and singular points of `f`, if it has any."""
        x, y = z.real, z.imag
        real_out = lambda x, y: abs(y) if abs(x) >= 1 else mpmath.sqrt(y * y + (1 - abs(x)) ** 2)
        if f in ("sqrt", "ln", "log"):
            return abs(y) if x <= 0 else abs(z)
        if z == 0 and f in ("acsc", "asec", "acot", "acsch", "asech", "acoth", "csc", "cot", "csch", "coth"):
            return mpf(0)
        if f in ("acsc", "asec", "acot", "acsch", "asech", "acoth"):
            w = 1 / z
            return min(self.distance({"acsc": "asin", "asec": "acos", "acot": "atan", "acsch": "asinh", "asech": "acosh", "acoth": "atanh"}[f], w), abs(z))
        if f in ("asin", "acos", "atanh"):
            return real_out(x, y)
        if f in ("atan", "asinh"):
            return real_out(y, x)
        if f == "acosh":
            return abs(y) if x <= 1 else abs(z - 1)
        return None


def main():
    prop, path, out = sys.argv[1:4]
    judge = {"C08": Floats, "C09": Decimals, "C10": Complexes}[prop]()
    checked, bad = 0, []
    with open(path) as f:
        for line in f:
            e = json.loads(line)
            checked += 1
            try:
                judge.judge(e)
            except Bad as b:
                bad.append(dict(sig="%s:%s:%s(%s)" % (prop, e["k"], e["f"], ", ".join(e["a"])[:300]), index=e["i"],
                                detail=dict(expression=e["t"][:600], context=e["k"], function=e["f"], arguments=e["a"][:8],
                                            observed=e["r"] if e["r"] is not None else "error " + str(e["x"]), why=str(b))))
    with open(out, "w") as f:
        json.dump(dict(checked=checked, violations=bad, counters=judge.counters, worst={k: float(v) for k, v in getattr(judge, "worst", {}).items()}), f)


if __name__ == "__main__":
    main()
