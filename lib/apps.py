"""The command-line evaluator under observation: evaluation, listings and interactive sessions (C19-C21)."""
import codecs, concurrent.futures, errno, fcntl, json, os, pty, random, re, select, signal, struct, subprocess, termios, threading, time
import base

KIND = {"decimal": "dec", "float": "f64u", "integer": "i128", "complex": "cplx", "binary": "bin"}
TYPES = list(KIND)
ANSI = re.compile(r"\x1b\[[0-9;?]*[A-Za-z]")


def plain(s):
    return ANSI.sub("", s)


class Hung(Exception):
    pass


class Library:
    """The library as the reference: one worker answering requests."""

    def __init__(self, exe, args=("serve",), limit=40):
        self.cmd, self.limit, self.p = [exe] + list(args), limit, None

    def ask(self, **q):
        if self.p is None:
            self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=base.env(), preexec_fn=base.limits(mem=base.MEM_LIMIT))
        try:
            self.p.stdin.write((json.dumps(q) + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        t = threading.Timer(self.limit, self.p.kill)
        t.start()
        try:
            line = self.p.stdout.readline()
        finally:
            t.cancel()
        if not line:
            self.close()
            raise Hung(json.dumps(q)[:500])
        return json.loads(line)

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.communicate()
            self.p = None


def spread(jobs, work, threads=8):
    """Runs `work(job)` for every job on a few threads; exceptions are passed on."""
    with concurrent.futures.ThreadPoolExecutor(threads) as pool:
        return list(pool.map(work, jobs))


def typed(s):
    """Only what a command-line argument can carry."""
    return s.replace("\0", "").encode("utf8", "surrogatepass").decode("utf8", "replace")


# ------------------------------------------------------------------ C19

ENV = base.env()


def run_cli(exe, args, timeout=40):
    p = subprocess.Popen([exe] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return "timeout", "", ""
    return p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace")


def judge_eval(want, rc, out, err, no_color, by_chance):
    """None, or what is wrong with what was printed."""
    if rc == "timeout" or rc < 0 or rc == 101:
        return "ended with status %s" % rc
    if "panic" in want:
        return None  # the library's own failure, reported by C01
    colored = "\x1b" in out or "\x1b" in err
    if no_color and colored and "\x1b" not in json.dumps(want, ensure_ascii=False):
        return "colours although none were asked for"
    if not no_color:
        out, err = plain(out), plain(err)
        want = {k: plain(v) for k, v in want.items()}
    if by_chance:  # another run may give another value, or an error
        return None if (out == "") != (err == "") else "expected either a value or an error"
    if "ok" in want:
        if out != want["ok"] + "\n" or err != "":
            return "expected the value %r on standard output" % want["ok"]
    elif out != "" or err != want["err"] + "\n":
        return "expected the error %r on standard error only" % want["err"]
    return None


EDGE = ["", " ", "\t", "1", "-1", "--1", "-", "1+1", "(1)", "1/0", "1 mod 0", "PI", "e", "$result", "x", "x = 1", "'", "\\", "\u00e9", "1,2", "1e5", "--help", "exit",
        "\x1b[31m1", "1\n+1", "(" * 3000 + "1" + ")" * 3000, "1+" * 20000 + "1", "9" * 500, "0." + "0" * 400 + "1", "b101", "5!", "171!", "2^1000", "sqrt(0-1)", "3i", "i*i"]


def c19(prop, tier, seed):
    r = base.Report(prop, tier, seed)
    vh, apps = base.build_vh(), base.build_apps()
    exe = os.path.join(apps, "debug", "eval")
    per = 120 if tier == "quick" else 2500
    seen, lock, counts, distinct = [], threading.Lock(), {}, set()

    def count(k, n=1):
        with lock:
            counts[k] = counts.get(k, 0) + n

    def work(job):
        ty, part = job
        lib = Library(vh)
        rnd = random.Random("%s/%s/%s" % (seed, ty, part))
        try:
            texts = [typed(t) for t in lib.ask(gen=KIND[ty], seed=rnd.getrandbits(60), n=per)]
            if part == 0:
                texts += EDGE
            for t in texts:
                if "rand" in t.lower() and "!" in t:
                    continue  # how long it takes is left to chance
                try:
                    want = lib.ask(kind=KIND[ty], exprs=[t])[0]
                except Hung:
                    count("reference_hung")
                    continue
                no_color = rnd.random() < 0.5
                args = ["eval"]
                how = rnd.randrange(5)
                if not (ty == "decimal" and how == 0):
                    args += [["--type", ty], ["-t", ty], ["--type=" + ty], ["-t" + ty]][how % 4]
                if no_color:
                    args.insert(rnd.choice([0, 1, len(args)]), "--no-color")
                args += ["--", t]
                rc, out, err = run_cli(exe, args)
                count("evaluations")
                count(ty + ("_value" if "ok" in want else "_error"))
                count("no_color" if no_color else "color")
                with lock:
                    distinct.add((ty, t))
                bad = judge_eval(want, rc, out, err, no_color, "rand" in t.lower())
                if rc == 0 and bad is None and len(seen) < 6 and "ok" in want:
                    seen.append(dict(arguments=args[:-1] + [t[:200]], stdout=out[:200]))
                if bad:
                    r.violation("C19:%s:%s" % (ty, t[:300]), dict(arguments=[a[:500] for a in args], status=rc, stdout=out[:500], stderr=err[:500], reference=want, why=bad))
            # arguments that are not understood
            for args in ([], ["eval"], ["eval", "--type", "quaternion", "1"], ["frobnicate"], ["eval", "1", "2"], ["eval", "-t"], ["eval", "--type", ty.upper(), "1+1"],
                         ["--version"], ["--help"], ["eval", "--help"]) if part == 0 else ():
                rc, out, err = run_cli(exe, args)
                count("usage")
                help_ = args and args[-1] in ("--help", "--version")
                if (rc != 0 or not out) if help_ else (rc in (0, 101, "timeout") or rc < 0 or out or not err):
                    r.violation("C19:usage:%s" % args, dict(arguments=args, status=rc, stdout=out[:300], stderr=err[:300]))
            # bytes that are not text
            if part == 0:
                rc, out, err = run_cli(exe, ["eval", b"1+\xff\xfe"])
                if rc == 101 or rc == "timeout" or rc < 0:
                    r.violation("C19:not text", dict(status=rc, stderr=err[:300]))
        finally:
            lib.close()

    spread([(ty, k) for k in range(8) for ty in TYPES], work)
    r.evaluations, r.distinct, r.samples = counts["evaluations"], len(distinct), seen
    r.coverage["observed"] = counts
    r.require("evaluations", r.evaluations, 3000)
    for ty in TYPES:
        r.require(ty + " values", counts.get(ty + "_value", 0), 150)
        r.require(ty + " errors", counts.get(ty + "_error", 0), 100)
    r.require("no_color", counts.get("no_color", 0), 1000)
    return r.finish("the command-line program run on well-formed, extreme and meaningless texts for each number type, with and without colours and with every way of giving the type; distinct (type, text)")


# ------------------------------------------------------------------ C20

NATURAL = ("sum product avg sqrt ln log exp random sin cos tan csc sec cot asin acos atan acsc asec acot "
           "sinh cosh tanh csch sech coth asinh acosh atanh acsch asech acoth").split()
REAL = NATURAL + "max min to_radians to_degrees".split()
ARITHMETIC = [("+", "binary", 1, "Left"), ("-", "binary", 1, "Left"), ("*", "binary", 2, "Left"), ("/", "binary", 2, "Left"), ("mod", "binary", 2, "Left"),
              ("^", "binary", 3, "Right"), ("+", "unary", "Prefix"), ("-", "unary", "Prefix")]
FACTORIAL = [("!", "unary", "Postfix")]
LOGIC = [(n, "binary", p, "Left") for names, p in [("& and", 11), ("| or", 13), ("^ xor", 12), ("== eq equal", 10), ("!= ne no_equal", 10), ("> gt", 9), ("< lt", 9), (">= gte", 9), ("<= lte", 9),
                                                   (">> shr", 7), ("<< shl", 7)] for n in names.split()] + [("~", "unary", "Prefix"), ("not", "unary", "Prefix")]
ROUND = "floor ceil truncate round".split()
PI, E = "3.14159265358979323846264338327950288", "2.71828182845904523536028747135266250"


def documented(kind):
    """What a number type is meant to define: operators, functions and the values of its constants."""
    if kind == "bin":
        return LOGIC, [], {}
    if kind.startswith("cplx"):
        return ARITHMETIC, NATURAL, {"PI": (PI, 0), "E": (E, 0), "i": ("0", 1)}
    if kind == "dec":
        return ARITHMETIC + FACTORIAL, REAL + ROUND + ["cbrt"], {"PI": PI, "E": E}
    whole = kind.startswith("i")
    consts = {"PI": "3", "E": "2"} if whole else {"PI": PI, "E": E}
    return ARITHMETIC + FACTORIAL, REAL + (ROUND + ["abs", "sign"] if not kind.endswith("u") or kind == "isize" else []), consts


def same_value(text, want, kind):
    if isinstance(want, tuple):
        m = re.fullmatch(r"(-?[0-9.]+)([+-])([0-9.]*)i", text)
        return bool(m) and same_value(m.group(1), want[0], "f32" if kind == "cplx32" else "f64") and float(m.group(2) + (m.group(3) or "1")) == want[1]
    if kind == "dec":
        return len(text) >= 28 and abs(int(text.replace(".", "")[:28]) - int(want.replace(".", "")[:28])) <= 1
    if kind.startswith("f32"):
        return abs(float(text) - float(want)) < 3e-7
    return float(text) == float(want)


SAMPLE = {  # a call that has to work where the function is defined
    "acosh": "(2)", "asech": "(1)", "atanh": "(0)", "acoth": "(2)", "max": "(1, 2)", "min": "(1, 2)", "acsc": "(1)", "asec": "(1)", "coth": "(1)", "csch": "(1)", "cot": "(45)",
    "csc": "(90)", "acsch": "(1)", "random": "()",
}
KINDS = ["f64c", "f64u", "f32c", "f32u", "i8", "i16", "i32", "i64", "i128", "isize", "dec", "cplx", "cplx32", "bin"]


def multiset(xs):
    out = {}
    for x in xs:
        out[x] = out.get(x, 0) + 1
    return out


def c20(prop, tier, seed):
    import server
    r = base.Report(prop, tier, seed)
    vh, apps = base.build_vh(), base.build_apps()
    exe = os.path.join(apps, "debug", "eval")
    lib = Library(vh)
    counts, distinct = {}, set()

    def count(k, n=1):
        counts[k] = counts.get(k, 0) + n

    def bad(sig, **detail):
        r.violation("C20:" + sig, detail)

    def compare(where, got, want):
        count("listings")
        r.evaluations += max(len(got), 1)
        for k in got:
            distinct.add((where, k))
        a, b = multiset(got), multiset(want)
        if a != b:
            bad(where, missing=[k for k in b if a.get(k, 0) < b[k]][:20], extra=[k for k in a if b.get(k, 0) < a[k]][:20])

    try:
        # the contexts themselves against what each number type is meant to define
        every = sorted({f for k in KINDS for f in documented(k)[1]} | {"foo", "cbrt"})
        words = [o[0] for o in ARITHMETIC + FACTORIAL + LOGIC if o[0].isalpha() or "_" in o[0]]
        for kind in KINDS:
            l = lib.ask(list=kind)
            ops, fns, consts = documented(kind)
            compare("operators of " + kind, [(o["name"], o["kind"]) + ((o["precedence"], o["associativity"]) if o["kind"] == "binary" else (o["notation"],)) for o in l["operators"]], ops)
            compare("functions of " + kind, [f["name"] for f in l["functions"]], fns)
            compare("constants of " + kind, [c["name"] for c in l["constants"]], list(consts))
            for c in l["constants"]:
                if c["name"] in consts and not same_value(c["value"], consts[c["name"]], kind):
                    bad("value of %s in %s" % (c["name"], kind), observed=c["value"], expected=consts[c["name"]])
            # every name listed can be used, and no other one can
            one = "b1" if kind == "bin" else "1"
            for f in every:
                for name in (f, f.upper()):
                    o = lib.ask(kind=kind, exprs=[name + SAMPLE.get(f, "(%s)" % one)])[0]
                    count("probes")
                    usable = "ok" in o or o.get("kind") in ("Overflow", "NAN", "DivisionByZero", "InvalidArgumentCount", "UnknownError", "NegativeValue")
                    if usable != (f in fns):
                        bad("use of %s in %s" % (name, kind), observed=o, listed=f in fns)
            for w in words:
                o = lib.ask(kind=kind, implicit=False, exprs=["%s %s %s" % (one, w, one) if w != "not" else "not " + one])[0]
                count("probes")
                if ("ok" in o) != (w in [x[0] for x in ops]):
                    bad("use of %s in %s" % (w, kind), observed=o)
        # the command-line listings against the contexts
        for ty, kind in KIND.items():
            l = lib.ask(list=kind)
            for what, want in (("constants", [(c["name"], c["value"]) for c in l["constants"]]),
                               ("operators", [(o["name"], o["description"] or "") for o in l["operators"]]),
                               ("functions", [(f["name"], f["description"] or "") for f in l["functions"]])):
                for args in ([what, "--type", ty, "--no-color"], ["--no-color", what, "-t", ty], [what, "--type=" + ty]) + (([what], ["--no-color", what]) if ty == "decimal" else ()):
                    rc, out, err = run_cli(exe, args)
                    count("cli_listings")
                    if rc != 0 or err or ("--no-color" in args and "\x1b" in out):
                        bad("cli %s" % args, status=rc, stdout=out[:300], stderr=err[:300])
                    got = [(x + " ").split(" ", 1) for x in plain(out).split("\n") if x.strip()]
                    compare("cli %s" % args, [(a, b.strip()) for a, b in got], want)
        # the server's listings against the library it is built with
        served = Library(base.build_served(), args=())
        with server.Server(apps) as s:
            c = s.client()
            for ty in TYPES + [None, "quaternion"]:
                l = served.ask(list=ty if ty in TYPES else "decimal")
                for what in ("constants", "operators", "functions"):
                    for q in ([""] if ty is None else ["?type=" + ty, "/?type=" + ty, "?x=1&type=%s&y=" % ty]):
                        a = c.get("/%s%s" % (what, q))
                        count("server_listings")
                        if a.status != 200:
                            bad("server %s%s" % (what, q), status=a.status, body=a.text[:300])
                            continue
                        show = (lambda x: (x["name"], x["value"])) if what == "constants" else (lambda x: (x["name"], tuple(x["aliases"]), x["description"]))
                        compare("server %s%s" % (what, q), [show(x) for x in a.json()], [show(x) for x in l[what]])
        served.close()
    finally:
        lib.close()
    r.distinct = len(distinct)
    r.samples = [dict(listing=w, entry=str(e)) for w, e in sorted(distinct, key=str)[:4]]
    r.coverage["observed"] = counts
    r.coverage["exhaustive"] = "all number types and listings"
    r.require("entries", r.distinct, 1000)
    r.require("cli_listings", counts["cli_listings"], 45)
    r.require("server_listings", counts["server_listings"], 40)
    r.require("probes", counts["probes"], 1000)
    return r.finish("every listing of every number type: the contexts against a fixed table of what each is meant to define and by using every name, the command-line and server listings against the contexts; distinct (listing, entry)")


# ------------------------------------------------------------------ C21

KEYS = {"up": b"\x1b[A", "down": b"\x1b[B", "left": b"\x1b[D", "right": b"\x1b[C", "home": b"\x1b[H", "end": b"\x1b[F", "delete": b"\x1b[3~", "backspace": b"\x7f", "tab": b"\t",
        "pageup": b"\x1b[5~", "pagedown": b"\x1b[6~", "insert": b"\x1b[2~", "f1": b"\x1bOP", "f5": b"\x1b[15~", "enter": b"\r"}
IDLE = ["left", "right", "home", "end", "delete", "tab", "pageup", "pagedown", "insert", "f1", "f5"]
PROMPT = ">>> "
LAST = "lastresultvalue"


class Screen:
    """As much of a terminal as the session needs: rows of characters and a cursor."""

    def __init__(self):
        self.rows, self.x, self.odd = [[]], 0, []
        self.rest = ""

    def feed(self, s):
        s = self.rest + s
        self.rest = ""
        i = 0
        while i < len(s):
            c = s[i]
            if c == "\x1b":
                m = re.match(r"\x1b\[([0-9;?]*)([A-Za-z])", s[i:])
                if not m:
                    if len(s) - i < 16:
                        self.rest = s[i:]
                        return
                    self.odd.append(s[i:i + 8])
                    i += 1
                    continue
                n, k = m.groups()
                if k == "D":
                    self.x = max(0, self.x - int(n or 1))
                elif k == "K" and n == "2":
                    self.rows[-1] = []
                elif k != "m":
                    self.odd.append(m.group(0))
                i += m.end()
                continue
            if c == "\r":
                self.x = 0
            elif c == "\n":
                self.rows.append([])
            elif c == "\x08":
                self.x = max(0, self.x - 1)
            else:
                row = self.rows[-1]
                row.extend(" " * (self.x + 1 - len(row)))
                row[self.x] = c
                self.x += 1
            i += 1


def unprompted(row):
    s = "".join(row) if isinstance(row, list) else row
    while s.startswith(PROMPT) or s == PROMPT.rstrip():
        s = s[len(PROMPT):]
    return s.rstrip()


class Terminal:
    """The program on a pseudo-terminal of its own; standard error is kept apart."""

    def __init__(self, args, slow=False):
        self.slow = slow
        self.master, slave = pty.openpty()
        a = termios.tcgetattr(slave)
        a[0] &= ~(termios.ICRNL | termios.INLCR | termios.IXON)
        a[3] &= ~(termios.ICANON | termios.ECHO | termios.ISIG)
        termios.tcsetattr(slave, termios.TCSANOW, a)
        fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack("HHHH", 50, 500, 0, 0))
        er, ew = os.pipe()
        self.p = subprocess.Popen(args, stdin=slave, stdout=slave, stderr=ew, env=ENV, start_new_session=True)
        os.close(slave)
        os.close(ew)
        self.err_fd = er
        os.set_blocking(self.master, False)
        os.set_blocking(er, False)
        self.out, self.err = b"", b""
        self.ended = False

    def pump(self, wait):
        """Reads what has been printed; False once the program has closed its side."""
        fds = [fd for fd in (self.master, self.err_fd) if fd is not None]
        if not fds or (self.ended and wait):
            time.sleep(min(wait, 0.05))
        r, _, _ = select.select(fds, [], [], wait) if fds else ([], [], [])
        for fd in r:
            try:
                d = os.read(fd, 65536)
            except OSError as e:
                if e.errno == errno.EAGAIN:
                    continue
                d = b""
            if fd == self.master:
                self.out += d
                if not d:
                    self.ended = True
                    os.close(self.master)
                    self.master = None
            else:
                self.err += d
                if not d:
                    os.close(self.err_fd)
                    self.err_fd = None

    def send(self, data):
        while data and self.master is not None:
            try:
                n = os.write(self.master, data)
                data = data[n:]
            except OSError as e:
                if e.errno != errno.EAGAIN:
                    return
                self.pump(0.05)
        if self.slow:
            self.pump(0.01)

    def until(self, cond, limit):
        end = time.time() + limit
        while not cond():
            if self.ended or time.time() > end:
                return cond()
            self.pump(min(0.2, max(0.0, end - time.time())))
        return True

    def finish(self, limit=20):
        end = time.time() + limit
        while self.p.poll() is None and time.time() < end:
            self.pump(0.01)
        rc = self.p.poll()
        for _ in range(1000):
            if self.master is None and self.err_fd is None:
                break
            self.pump(0.01)
        return rc

    def close(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        for fd in (self.master, self.err_fd):
            if fd is not None:
                os.close(fd)


class Model:
    """What a session is meant to do with what is typed."""

    def __init__(self, lib, ty, size):
        self.lib, self.bin, self.size = lib, ty == "binary", size
        lib.ask(session=KIND[ty])
        self.history, self.cursor, self.buf = [], 0, ""
        self.rows, self.errors, self.ended, self.unsure = [], [], False, False
        self.counts = {}

    def count(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    def type(self, s):
        self.buf += s

    def key(self, k):
        if k == "backspace":
            self.buf = self.buf[:-1]
        elif k == "up" and self.cursor > 0:
            self.cursor -= 1
            self.buf = self.history[self.cursor]
            self.count("recalled")
        elif k == "down" and self.cursor < len(self.history):
            self.cursor += 1
            self.buf = self.history[self.cursor] if self.cursor < len(self.history) else ""

    def name(self, s):
        return re.sub(r"\$result\b", LAST, re.sub(r"\$(?!result\b)([A-Za-z]\w*)", r"dollar_\1", s))

    def enter(self):
        line, self.buf = self.buf, ""
        self.rows.append(line)
        e = line.strip()
        if e == "exit":
            self.ended = True
            return
        if "=" in e and not (self.bin and any(o in e for o in ("==", "!=", ">=", "<="))):
            parts = [p.strip() for p in e.split("=")]
            if len(parts) != 2:
                self.errors.append(None)
                self.count("bad_assignment")
            else:
                a = self.lib.ask(set=self.name(parts[0]), value=parts[1])
                if "err" in a:
                    self.errors.append(None if "$" in e else a["err"])
                    self.count("refused_assignment")
                else:
                    self.count("assignment")
        else:
            a = self.lib.ask(line=re.sub(r"\$\w+", lambda m: " " + self.name(m.group(0)) + " ", e))
            if "panic" in a:
                raise Hung("panic")
            if "ok" in a:
                self.rows.append(a["ok"])
                self.count("value")
            else:
                self.errors.append(None if "$" in e else a["err"])
                self.count("error")
        if e:
            if not self.history or self.history[-1] != line:
                self.history.append(line)
                if len(self.history) > self.size:
                    self.history.pop(0)
            self.cursor = len(self.history)
        # a blank line in the middle of a recall: where the next recall starts is not promised
        self.unsure = not e and self.cursor != len(self.history)


def printable(s):
    return "".join(c if c.isprintable() else " " for c in s)


def script(rnd, ty, texts, size):
    """A random sequence of typed pieces and keys."""
    names = ["x", "y", "foo", "Bar", "x1", "X", "FOO", "new_name", "$x", "$y2"]
    num = lambda: {"binary": lambda: rnd.choice(["b101", "7", "b0", "12", "b11111111"]), "integer": lambda: str(rnd.randrange(-50, 200)), "complex": lambda: rnd.choice(["3", "2i", "1.5", "3+2i"])}.get(
        ty, lambda: "%s" % rnd.choice([3, 0.5, -7, 12.25, 100]))()
    op = (lambda: rnd.choice(["&", "|", "^", "<<", "=="])) if ty == "binary" else (lambda: rnd.choice("+-*/^"))
    actions = []
    for v in ("x = 3", "y = 5", "foo = 11", "Bar = 2", "x1 = 0")[:rnd.randrange(6)]:
        actions += [("type", v), ("enter",)]
    for _ in range(rnd.randrange(8, 40)):
        c = rnd.randrange(20)
        if c < 5:
            t = printable(rnd.choice(texts))
            if "$" in t or "=" in t and ty != "binary" or "rand" in t.lower() or len(t) > 900:
                t = "1 + 1" if ty != "binary" else "b1 & b1"
            actions.append(("type", t))
        elif c < 8:
            actions.append(("type", "%s %s $result" % (num(), op())))
        elif c == 8:
            actions.append(("type", rnd.choice(["$result", "-$result", "($result) %s ($result)" % op(), "%s $unknown" % num(), "$x %s %s" % (op(), num())])))
        elif c < 13:
            actions.append(("type", "%s%s=%s%s" % (rnd.choice(names), rnd.choice(["", " ", "  "]), rnd.choice(["", " "]), num())))
        elif c == 13:
            actions.append(("type", rnd.choice(["x =", "= 3", "x = y = 3", "x = 1 = 2", "=", "x = abc", "pi = 3", "two words = 3", " = ", "x = 1 + 1", "x ="])))
        elif c == 14:
            actions.append(("type", rnd.choice(["", " ", "   "])))
        elif c == 15:
            actions.append(("type", rnd.choice(["EXIT", "exit now", "quit", "exit()", "'exit'", "help", "\u00e9\u00e8 + \u4f60\u597d", "\U0001f600", "(((", ")", "1 +", "1/0"])))
        elif c < 19:
            for _ in range(rnd.choice([1, 1, 2, 3, size + 2 if size < 12 else 4])):
                actions.append(("key", rnd.choice(["up", "up", "up", "down"])))
            if rnd.random() < 0.3:
                actions.append(("type", " %s %s" % (op(), num())))
        else:
            t = "1 + 2" if ty != "binary" else "b1 | b10"
            for ch in t:
                actions.append(("type", ch))
                if rnd.random() < 0.3:
                    actions += [("type", rnd.choice("9+(\u00e9")), ("key", "backspace")]
        while rnd.random() < 0.15:
            actions.append(("key", rnd.choice(IDLE)))
        if rnd.random() < 0.08:
            actions += [("key", "backspace")] * rnd.randrange(1, 30)
        actions.append(("enter",))
    actions.append(("end", rnd.choice(["exit", " exit  ", "esc", "interrupt"])))
    return actions


class Odd(Exception):
    pass


def replay_session(exe, lib, ty, size, actions, no_color, slow):
    """Types the script; what differs from the model is an Odd."""
    m = Model(lib, ty, 100 if size is None else size)
    args = [exe, "repl", "--type", ty] + (["--history", str(size)] if size is not None else []) + (["--no-color"] if no_color else [])
    t = Terminal(args, slow)
    limit = 15
    lines = lambda b: b.count(b"\n")
    try:
        if not t.until(lambda: PROMPT.encode() in t.out, limit):
            raise Odd("no prompt")
        base_lines = lines(t.out)
        done = []

        def entered():
            want_out, want_err = base_lines + len(m.rows), len(m.errors)
            if not t.until(lambda: lines(t.out) >= want_out and lines(t.err) >= want_err, limit) or t.ended:
                raise Odd("after %r: %s" % (done[-1] if done else "", "the session ended" if t.ended else "not what was expected was printed: %r %r" % (plain(t.out[-300:].decode("utf8", "replace")), t.err[-300:].decode("utf8", "replace"))))

        for a in actions:
            if t.ended:
                raise Odd("the session ended after %r" % (done[-1] if done else ""))
            if a[0] == "type":
                m.type(a[1])
                t.send(a[1].encode("utf8"))
            elif a[0] == "key":
                if m.unsure and a[1] in ("up", "down"):
                    continue
                m.key(a[1])
                t.send(KEYS[a[1]])
            elif a[0] == "enter":
                if m.buf.strip() == "exit":
                    m.type(" 1")
                    t.send(b" 1")
                done.append(m.buf)
                m.enter()
                t.send(KEYS["enter"])
                entered()
            elif a[1] == "esc":
                t.send(b"\x1b")
            elif a[1] == "interrupt":
                os.kill(t.p.pid, signal.SIGINT)
            else:
                m.type(a[1])
                m.rows.append(a[1])
                t.send(a[1].encode("utf8") + KEYS["enter"])
        rc = t.finish()
        if rc != 0:
            raise Odd("ended with status %s: %s" % (rc, t.err[-600:].decode("utf8", "replace")) if rc is not None else "does not end when asked to")
        s = Screen()
        s.feed(t.out.decode("utf8", "replace"))
        first = next((i for i, row in enumerate(s.rows) if "".join(row).startswith(PROMPT.rstrip())), len(s.rows))
        seen = [unprompted(x) for x in s.rows[first:]]
        want = [unprompted(x) for x in m.rows]
        for i, w in enumerate(want):
            if i >= len(seen) or seen[i] != w:
                raise Odd("row %d: expected %r, shown %r (after %r)" % (i, w, seen[i] if i < len(seen) else None, want[max(0, i - 3):i]))
        extra = [x for x in seen[len(want):] if x]
        if len(extra) > 1 or s.odd:
            raise Odd("more than expected: %r %r" % (extra[:3], s.odd[:3]))
        err = t.err.decode("utf8", "replace")
        if no_color and "\x1b" in err:
            raise Odd("colours although none were asked for")
        got = plain(err).split("\n")
        if got and got[-1] == "":
            got.pop()
        if len(got) != len(m.errors):
            raise Odd("%d errors expected, %d printed: %r, %r" % (len(m.errors), len(got), m.errors[-3:], got[-3:]))
        for g, w in zip(got, m.errors):
            if w is not None and g != w:
                raise Odd("expected the error %r, printed %r" % (w, g))
            if not g:
                raise Odd("an empty error")
        return m, done
    finally:
        t.close()


def c21(prop, tier, seed):
    r = base.Report(prop, tier, seed)
    vh, apps = base.build_vh(), base.build_apps()
    exe = os.path.join(apps, "debug", "eval")
    sessions = 2400 if tier == "quick" else 40000
    lock, counts, distinct, samples = threading.Lock(), {}, set(), []

    def count(k, n=1):
        with lock:
            counts[k] = counts.get(k, 0) + n

    def work(part):
        lib = Library(vh)
        try:
            for k in range(part, sessions, 8):
                if len(r.violations) >= 20:
                    return
                rnd = random.Random("%s/%d" % (seed, k))
                ty = TYPES[k // 8 % len(TYPES)]
                size = rnd.choice([None, None, 0, 1, 2, 3, 5, 100, 10 ** 6, 2 ** 63])
                try:
                    texts = lib.ask(gen=KIND[ty], seed=rnd.getrandbits(60), n=30)
                    actions = script(rnd, ty, texts, 100 if size is None else size)
                    no_color = rnd.random() < 0.4
                    try:
                        m, done = replay_session(exe, lib, ty, size, actions, no_color, False)
                    except Odd as first:
                        try:  # again, one key at a time
                            m, done = replay_session(exe, lib, ty, size, actions, no_color, True)
                            count("not_confirmed")
                        except Odd as again:
                            if len(r.violations) < 20:
                                r.violation("C21:%s:%s" % (ty, again), dict(type=ty, history=size, no_color=no_color, script=[list(a) for a in actions], why=str(again), first=str(first)))
                            continue
                except Hung as h:
                    count("reference_hung")
                    continue
                for key, n in m.counts.items():
                    count(key, n)
                count("sessions")
                count("lines", len(done))
                count("type_" + ty)
                with lock:
                    distinct.add((ty, tuple(done)))
                    if len(samples) < 4:
                        samples.append(dict(type=ty, history=size, lines=done[:12]))
        finally:
            lib.close()

    spread(range(8), work)
    r.evaluations, r.distinct, r.samples = counts.get("lines", 0), len(distinct), samples
    r.coverage["observed"] = counts
    r.require("lines", r.evaluations, 5000)
    for k, n in (("value", 2000), ("error", 800), ("assignment", 800), ("recalled", 800), ("refused_assignment", 40), ("bad_assignment", 40)):
        r.require(k, counts.get(k, 0), n)
    r.require("confirmed", counts.get("sessions", 0) // 20, counts.get("not_confirmed", 0))
    return r.finish("sessions of typed lines, assignments, last results, history keys and editing on a pseudo-terminal, against a model of the session that evaluates with the library; distinct sessions (type, lines)")
