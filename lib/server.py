"""The server under observation over loopback (C20, C22, C23)."""
import itertools, json, os, random, re, select, socket, subprocess, tempfile, threading, time
import base


ADDRESS = itertools.count()


class Lost(Exception):
    """The connection ended, or nothing was answered in time."""


class Answer:
    def __init__(self, status, headers, body):
        self.status, self.headers, self.body = status, headers, body
        self.text = body.decode("utf8", "replace")

    def json(self):
        return json.loads(self.text)

    def header(self, name):
        return [v for k, v in self.headers if k == name.lower()]


class Client:
    """One connection, speaking plain HTTP/1.1."""

    def __init__(self, port, timeout=30, source=None):
        self.s = socket.create_connection(("127.0.0.1", port), timeout=timeout, source_address=source)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b""

    def raw(self, data):
        try:
            self.s.sendall(data)
        except OSError as e:
            raise Lost(str(e))

    def more(self):
        try:
            d = self.s.recv(65536)
        except OSError as e:
            raise Lost("nothing answered: %s" % e)
        if not d:
            raise Lost("connection ended")
        self.buf += d

    def read(self, head=False):
        while b"\r\n\r\n" not in self.buf:
            self.more()
        top, self.buf = self.buf.split(b"\r\n\r\n", 1)
        lines = top.decode("latin1").split("\r\n")
        headers = [(a.strip().lower(), b.strip()) for a, _, b in (x.partition(":") for x in lines[1:])]
        n = int(dict(headers).get("content-length", "0"))
        if head:
            n = 0
        while len(self.buf) < n:
            self.more()
        body, self.buf = self.buf[:n], self.buf[n:]
        return Answer(int(lines[0].split()[1]), headers, body)

    def request(self, method, path, body=b"", headers=()):
        h = ["%s %s HTTP/1.1" % (method, path), "Host: localhost"]
        if body or method == "POST":
            h.append("Content-Length: %d" % len(body))
        h += ["%s: %s" % kv for kv in headers]
        return "\r\n".join(h).encode("utf8") + b"\r\n\r\n" + body

    def send(self, *a, **k):
        self.raw(self.request(*a, **k))
        return self.read()

    def get(self, path, headers=()):
        return self.send("GET", path, headers=headers)

    def post(self, path, body, headers=()):
        return self.send("POST", path, body=body, headers=[("Content-Type", "application/json")] + list(headers))

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass


class Server:
    def __init__(self, apps, extra=None):
        self.exe = os.path.join(apps, "debug", "prexel-server")
        self.extra = extra or {}

    def __enter__(self):
        for _ in range(20):
            with socket.socket() as s:
                s.bind(("127.0.0.1", 0))
                self.port = s.getsockname()[1]
            e = base.env({"PORT": str(self.port), "RUST_LOG": "info", "RUST_BACKTRACE": "0", **self.extra})
            self.log = tempfile.TemporaryFile()
            self.p = subprocess.Popen([self.exe], stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log, env=e, cwd="/", start_new_session=True)
            for _ in range(200):
                if self.p.poll() is not None:
                    break
                try:
                    socket.create_connection(("127.0.0.1", self.port), timeout=1).close()
                    return self
                except OSError:
                    time.sleep(0.05)
            self.stop()
        raise base.CheckError("the server does not start: " + self.output())

    def output(self):
        self.log.seek(0)
        return self.log.read()[-2000:].decode("utf8", "replace")

    def alive(self):
        return self.p.poll() is None

    def client(self, **k):
        # an address of its own: the port of an ended connection may be used again, and the server
        # would take the new client for the old one
        if "source" not in k:
            n = next(ADDRESS)
            k["source"] = ("127.%d.%d.%d" % (101 + n // 64516 % 100, n // 254 % 254, 1 + n % 254), 0)
        return Client(self.port, **k)

    def stop(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()

    def __exit__(self, *a):
        self.stop()
        self.log.close()


# ------------------------------------------------------------------ C22

TYPES = ["decimal", "float", "integer", "complex", "binary"]
KIND = {"decimal": "dec", "float": "f64u", "integer": "i128", "complex": "cplx", "binary": "bin"}


def values(rnd, ty):
    """Variables: `[name, JSON value]` with names that do not collide."""
    pool = {"decimal": ["3", "-7.25", 0.5, 10, "0.0001", 1e15], "float": ["3", "-7.25", 0.5, 10, "1e300", 1e-5, "inf"], "integer": ["3", -7, 12, "170141183460469231731687303715884105727", 1000000],
            "complex": ["3", "2+3i", "-i", 0.5, 10], "binary": ["5", 7, 255, "-1", 12]}[ty]
    return [[n, rnd.choice(pool)] if rnd.random() < 0.6 else [n, number(rnd, ty)] for n in rnd.sample(["x", "y", "foo", "Bar", "x1", "un", "k_9"], rnd.randrange(1, 6))]


def number(rnd, ty):
    """A JSON number of any size and number of digits the type can hold."""
    k = rnd.randrange(4)
    if ty in ("integer", "binary") or k == 0:
        return rnd.choice([1, -1]) * rnd.getrandbits(rnd.randrange(1, 64)) if ty != "binary" else rnd.getrandbits(rnd.randrange(1, 53))
    if k == 1:
        return round(rnd.uniform(-1000, 1000), rnd.randrange(17))
    if k == 2:
        return rnd.uniform(-1, 1) * 10 ** rnd.randrange(-9, 18)
    return float("%d.%d" % (rnd.getrandbits(rnd.randrange(1, 50)), rnd.getrandbits(rnd.randrange(1, 30))))


BAD_VALUES = ["abc", "", "1.2.3", "1 2", "--1", "\u0663", True, None, [1], {"a": 1}]
MALFORMED = [b"", b" ", b"{", b"}", b"null", b"3", b'"1+1"', b"[]", b"{}", b'{"expression"}', b'{"expression":}', b'{"expression":3}', b'{"expression":null}', b'{"expression":["1"]}',
             b'{"expr":"1+1"}', b'{"expression":"1+1"', b'{"expression":"1+1"}}', b'{"expression":"1+1"} x', b'{"expression":"1+1"}{"expression":"1+1"}', b'{"expression":"1+1",}',
             b"{'expression':'1+1'}", b'{"expression":"1+1","type":"quaternion"}', b'{"expression":"1+1","type":3}', b'{"expression":"1+1","type":"Float"}', b'{"expression":"1+1","variables":3}',
             b'{"expression":"1+1","variables":["x"]}', b'{"expression":"x","variables":{"x":true}}', b'{"expression":"x","variables":{"x":null}}', b'{"expression":"x","variables":{"x":{}}}',
             b'{"expression":"x","variables":{"x":[1]}}', b'\xff\xfe{"expression":"1+1"}', b'{"expression":"\xff"}', b'{"expression":"1\n+1"}', b'{"expression":"\\ud800"}', b'{"expression":"\\x"}',
             b"<xml/>", b"expression=1%2B1", b"\x00" * 40, b'{"expression":"1+1","expression":"2"}', b'{"expression":"1+1","type":"float","type":"integer"}', b"[" * 5000, b'{"a":' * 3000,
             b'\xef\xbb\xbf{"expression":"1+1"}', b'{"expression":"1+1"}\x00']


class Watch:
    """What was asked and what was answered, over all clients."""

    def __init__(self, r):
        self.r, self.lock, self.counts, self.distinct, self.samples = r, threading.Lock(), {}, set(), []

    def count(self, k, n=1):
        with self.lock:
            self.counts[k] = self.counts.get(k, 0) + n

    def bad(self, sig, **detail):
        with self.lock:
            if len(self.r.violations) < 20:
                self.r.violation(sig, detail)


def well_formed(rnd, lib, served, ty, text):
    """A request and what the library gives for it: (path, body, wants, only_result)."""
    vs = values(rnd, ty) if rnd.random() < 0.6 else []
    invalid = 0
    if rnd.random() < 0.06:
        vs.append(["zz", rnd.choice([b for b in BAD_VALUES if isinstance(b, str)])])
        invalid = 1
    elif rnd.random() < 0.05:
        vs = [[rnd.choice(["pi" if ty != "binary" else "", "", "two words", "PI" if ty != "binary" else " "]), "1"]]
    q = dict(expression=text)
    if ty != "decimal" or rnd.random() < 0.5:
        q["type"] = ty
    elif rnd.random() < 0.2:
        q["type"] = None
    if vs or rnd.random() < 0.2:
        q["variables"] = {k: v for k, v in vs} if vs or rnd.random() < 0.5 else None
    if rnd.random() < 0.1:
        q["comment"] = rnd.choice([1, "x", None, {"expression": "2"}])
    # with one value that cannot be read, the others may be set before or after it
    want = served.ask(expression=text, type=ty, variables=vs[-1:] if invalid else vs)
    keys = list(q)
    rnd.shuffle(keys)
    body = json.dumps({k: q[k] for k in keys}, ensure_ascii=rnd.random() < 0.5, indent=rnd.choice([None, None, 2])).encode("utf8", "surrogatepass")
    if rnd.random() < 0.1:
        body = b" \n" + body + b"\r\n\t "
    only = rnd.choice([None, None, "false", "true", "true", "1", "TRUE", ""])
    path = "/eval" + rnd.choice(["", "", "/"]) + ("" if only is None else rnd.choice(["?only_result=%s", "?a=b&only_result=%s", "?only_result=%s&c="]) % only)
    return path, body, want, only == "true"


def judge_answer(a, want, only, chance):
    """None, or what is wrong with an answer to a well-formed request."""
    if a.status != 200:
        return "status %d" % a.status
    if chance and only:
        return None if a.text else "empty"  # a value, or an error: another run may decide otherwise
    if only and "ok" in want:
        return None if a.text == want["ok"] else "expected the text %r" % want["ok"]
    try:
        o = a.json()
    except ValueError:
        return "not JSON"
    if not isinstance(o, dict) or set(o) != {"result", "error"}:
        return "other members than result and error"
    if (o["result"] is None) == (o["error"] is None):
        return "not exactly one of result and error"
    if chance:
        return None if o["result"] or o["error"] else "neither a value nor an error"
    if "panic" in want:
        return None if isinstance(o["error"], str) and o["error"] else "expected an error"
    if "ok" in want:
        return None if o["result"] == want["ok"] else "expected the result %r" % want["ok"]
    return None if o["error"] == want["err"] else "expected the error %r" % want["err"]


def judge_malformed(a):
    if a.status != 400:
        return "status %d" % a.status
    try:
        o = a.json()
    except ValueError:
        return "not JSON"
    if not isinstance(o, dict) or o.get("result") is not None or not isinstance(o.get("error"), str) or not o["error"]:
        return "not an error"
    return None


def talk(w, server, vh, ref, seed, part, rounds):
    import apps
    rnd = random.Random("%s/%s" % (seed, part))
    lib, served = apps.Library(vh), apps.Library(ref, args=(), limit=3)
    try:
        for k in range(rounds):
            ty = TYPES[(k + part) % 5]
            texts = lib.ask(gen=KIND[ty], seed=rnd.getrandbits(60), n=60)
            todo = []
            for t in texts:
                t = t.encode("utf8", "replace").decode("utf8")
                if rnd.random() < 0.1:
                    t = rnd.choice(["36!", "(0-1)!", "1 >> 200", "x", "foo", "secret%d" % rnd.randrange(8), "x y", "[1 + 2](3)", "{1}", "2^200", "1/0", "", " ", "\u00df+1000"])
                if "rand" in t.lower() and "!" in t:
                    continue  # how long it takes is left to chance
                if rnd.random() < 0.12:
                    todo.append(("malformed", "/eval", rnd.choice(MALFORMED), None, False, ""))
                    continue
                try:
                    path, body, want, only = well_formed(rnd, lib, served, ty, t)
                except apps.Hung:
                    w.count("reference_hung")
                    continue
                todo.append(("good", path, body, want, only, t))
            try:
                c = server.client()
            except OSError as e:
                w.bad("C22:connect", why=str(e), server=server.output())
                return
            try:
                while todo:
                    n = rnd.choice([1, 1, 1, 2, 4])  # requests sent before reading
                    batch, todo = todo[:n], todo[n:]
                    data = b"".join(c.request("POST", b[1], b[2], [("Content-Type", rnd.choice(["application/json", "text/plain"]))]) for b in batch)
                    if rnd.random() < 0.15:
                        w.count("in_pieces")
                        for _ in range(3):
                            at = rnd.randrange(len(data) + 1)
                            c.raw(data[:at])
                            data = data[at:]
                            time.sleep(rnd.choice([0, 0.001, 0.01]))
                    c.raw(data)
                    if len(batch) > 1:
                        w.count("pipelined", len(batch))
                    for kind, path, body, want, only, t in batch:
                        try:
                            a = c.read()
                        except Lost as e:
                            w.bad("C22:unanswered:%s:%s" % (ty, body[:300].decode("utf8", "replace")), type=ty, path=path, body=body[:1000].decode("utf8", "replace"), why=str(e),
                                  pipelined=len(batch), server=server.output() if not server.alive() else "running")
                            raise
                        w.count("requests")
                        why = judge_malformed(a) if kind == "malformed" else judge_answer(a, want, only, "rand" in t.lower())
                        if kind == "malformed":
                            w.count("malformed")
                        else:
                            w.count("library_failure" if "panic" in want else "value" if "ok" in want else "error")
                            w.count("type_" + ty)
                            if only:
                                w.count("only_result")
                        with w.lock:
                            w.distinct.add((path, body))
                            if len(w.samples) < 4 and kind == "good" and "ok" in want:
                                w.samples.append(dict(path=path, body=body[:300].decode("utf8", "replace"), answer=a.text[:200]))
                        if why:
                            w.bad("C22:%s:%s" % (ty if kind == "good" else "malformed", body[:300].decode("utf8", "replace")), path=path, body=body[:1000].decode("utf8", "replace"), status=a.status, answer=a.text[:500],
                                  reference=want, why=why)
            except Lost:
                pass
            finally:
                c.close()
    finally:
        lib.close()
        served.close()


def disturb(w, server, seed, stop):
    """Clients that misbehave, beside the others."""
    rnd = random.Random("%s/disturb" % seed)
    while not stop.is_set():
        try:
            c = server.client(timeout=5)
        except OSError:
            return
        try:
            k = rnd.randrange(8)
            w.count("disturbances")
            if k == 0:
                c.raw(b"POST /eval HTTP/1.1\r\nHost: x\r\nContent-Length: 1000\r\n\r\n{\"expression\":")
            elif k == 1:
                c.raw(bytes(rnd.randrange(256) for _ in range(300)))
            elif k == 2:
                c.raw(b"POST /eval HTTP/1.1\r\nHost: x\r\nContent-Length: 99999999\r\n\r\n" + b" " * 1000)
                time.sleep(0.02)
            elif k == 3:
                c.raw(c.request("POST", "/eval", b'{"expression":"' + b"1+" * 140000 + b'1"}'))
                a = c.read()
                if a.status < 400 or a.status >= 500:
                    w.bad("C22:too large", status=a.status, answer=a.text[:200])
            elif k == 4:
                c.raw(c.request("POST", "/eval", b'{"expression":"%s1%s"}' % (b"(" * 30000, b")" * 30000)))
                a = c.read()
                if a.status != 200 or a.json() != {"result": "1", "error": None}:
                    w.bad("C22:deep", status=a.status, answer=a.text[:200])
            elif k == 5:
                a = c.send(rnd.choice(["GET", "PUT", "DELETE", "PATCH"]), "/eval")
                if a.status < 400 or a.status >= 500:
                    w.bad("C22:method", status=a.status)
            elif k == 6:
                c.raw(c.request("POST", "/eval", b'{"expression":"36!","type":"integer"}'))  # and leaves
            else:
                c.raw(b"POST /eval HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n")
                body = b'{"expression":"2+3"}'
                for i in range(0, len(body), 7):
                    c.raw(b"%x\r\n%s\r\n" % (len(body[i:i + 7]), body[i:i + 7]))
                c.raw(b"0\r\n\r\n")
                a = c.read()
                if a.status != 200 or a.json() != {"result": "5", "error": None}:
                    w.bad("C22:chunked", status=a.status, answer=a.text[:200])
        except Lost as e:
            if k in (4, 7):
                w.bad("C22:unanswered:disturbance %d" % k, why=str(e))
        except ValueError as e:
            w.bad("C22:disturbance %d" % k, why=str(e))
        finally:
            c.close()
        time.sleep(0.01)


# requests known to be left without an answer: the published library never ends
ENDLESS = [("float", "79228162514264337593543950335!")]


def c22(prop, tier, seed):
    r = base.Report(prop, tier, seed)
    vh, ref, apps_dir = base.build_vh(), base.build_served(), base.build_apps()
    w = Watch(r)
    rounds = 14 if tier == "quick" else 160
    with Server(apps_dir) as s:
        stop = threading.Event()
        d = threading.Thread(target=disturb, args=(w, s, seed, stop))
        d.start()
        import apps
        try:
            apps.spread(range(12), lambda p: talk(w, s, vh, ref, seed, p, rounds), threads=12)
        finally:
            stop.set()
            d.join()
        if not s.alive():
            w.bad("C22:server ended", output=s.output())
        # an endless evaluation must leave the other requests alone
        held = []
        for ty, e in ENDLESS:
            c = s.client(timeout=6)
            held.append((c, ty, e))
            c.raw(c.request("POST", "/eval", json.dumps(dict(expression=e, type=ty)).encode()))
        time.sleep(0.3)
        for k in range(64):
            c = s.client(timeout=20)
            try:
                a = c.post("/eval", b'{"expression":"%d+1"}' % k)
                w.count("beside_endless")
                if a.status != 200 or a.json()["result"] != str(k + 1):
                    w.bad("C22:beside an endless evaluation", answer=a.text[:200])
            except Lost as e:
                w.bad("C22:unanswered beside an endless evaluation", why=str(e))
                break
            finally:
                c.close()
        for c, ty, e in held:
            try:
                a = c.read()
                why = judge_answer(a, {"err": a.json().get("error")} if a.status == 200 else {}, False, True)
                if a.status != 200 or (a.json()["result"] is None) == (a.json()["error"] is None):
                    w.bad("C22:endless:%s:%s" % (ty, e), answer=a.text[:200], why=why)
            except Lost as x:
                w.bad("C22:unanswered:%s:%s" % (ty, e), why=str(x))
            finally:
                c.close()
    r.evaluations, r.distinct, r.samples = w.counts.get("requests", 0), len(w.distinct), w.samples
    r.coverage["observed"] = w.counts
    for k, n in (("requests", 6000), ("value", 2500), ("error", 1200), ("malformed", 500), ("only_result", 800), ("pipelined", 2000), ("in_pieces", 200), ("library_failure", 100), ("disturbances", 100), ("beside_endless", 64)):
        r.require(k, w.counts.get(k, 0), n)
    return r.finish("12 concurrent clients sending well-formed and malformed requests, pipelined and in pieces, beside misbehaving ones; every answer compared with the library the server is built with; distinct (path, body)")


# ------------------------------------------------------------------ C23

LIMIT, INTERVAL = 100, 60.0


def some_request(rnd):
    """(method, path, body, the statuses of an answer to it)"""
    k = rnd.randrange(9)
    if k < 4:
        return "POST", "/eval", json.dumps(dict(expression="%d+%d" % (rnd.randrange(9), rnd.randrange(9)))).encode(), (200,)
    if k == 4:
        return "POST", "/eval", b'{"expression":"36!","type":"integer"}', (200,)
    if k == 5:
        return "POST", "/eval", rnd.choice(MALFORMED[:20]), (400,)
    if k == 6:
        return "GET", "/eval/%s" % rnd.choice(["operators", "functions", "constants"]), b"", range(200, 500)
    if k == 7:
        return "GET", "/nowhere%d" % rnd.randrange(9), b"", (404,)
    return "POST", "/eval?only_result=true", b'{"expression":"2*3"}', (200,)


def misleading(rnd, style):
    """Headers by which a client may try to be taken for another one."""
    if style == "plain":
        return []
    n = 7 if style == "same" else rnd.randrange(1 << 30)
    ip = "10.%d.%d.%d" % (n >> 16 & 255, n >> 8 & 255, n & 255)
    return rnd.sample([("X-Forwarded-For", ip), ("Forwarded", "for=%s;proto=http" % ip), ("Cookie", "X-Ratelimit-Id=id%d; HttpOnly" % n), ("X-Real-IP", ip)], rnd.randrange(1, 5))


class Account:
    """One connection and what the limit says about each of its requests."""

    def __init__(self, w, server, name, rnd, style, source=None):
        self.w, self.rnd, self.style, self.name = w, rnd, style, name
        self.c = server.client(timeout=30, source=source)
        self.history = []
        self.window = None  # (when its first request was sent, when it was answered)
        self.used = 0

    def ask(self, n):
        """Sends `n` requests at once and judges every answer (the framework ends a connection with more requests sent behind a refused one)."""
        while n > 1 and self.window and self.used + n > LIMIT:
            last = self.ask(1)
            n -= 1
        reqs = [some_request(self.rnd) for _ in range(n)]
        t0 = time.monotonic()
        self.c.raw(b"".join(self.c.request(m, p, b, misleading(self.rnd, self.style)) for m, p, b, _ in reqs))
        last = None
        for m, p, b, fine in reqs:
            a = self.c.read()
            t1 = time.monotonic()
            refused = a.status == 429
            self.w.count("refused" if refused else "answered")
            self.history.append((round(t0, 3), round(t1, 3), a.status))
            since = None if self.window is None else (t0 - self.window[1], t1 - self.window[0])
            if a.status >= 500 and since and INTERVAL - 0.5 <= since[1] and since[0] <= INTERVAL + 12:
                # the limiter reads its entry in two steps: one removed between them is an error,
                # and the request neither belongs to the old interval nor begins a new one
                self.w.count("between_intervals")
                last = True
                continue
            # before the interval can have passed, or after it must have
            if since is None or (self.used and since[0] > INTERVAL + 12):
                must = "answer"
                new = True
            elif since[1] < INTERVAL - 0.5:
                must = "answer" if self.used < LIMIT else "refuse"
                new = False
            else:
                must = None  # around the end of the interval
                new = not refused and self.used >= LIMIT
            if must and refused != (must == "refuse"):
                self.w.bad("C23:%s:%s after %d" % ("refused" if refused else "answered", self.style, self.used), client=self.name, used=self.used, window=since, status=a.status, request=[m, p], history=self.history[-130:])
                raise Lost("broken")
            if must == "answer" and a.status not in fine:
                self.w.bad("C23:answer:%s" % p, client=self.name, status=a.status, answer=a.text[:200])
            if new:
                self.window, self.used = (t0, t1), 1
                self.w.count("windows")
            elif not refused:
                self.used += 1
            last = refused
        return last

    def unsure(self):
        """Whether the end of the interval is near."""
        return self.window is not None and time.monotonic() - self.window[0] > INTERVAL - 1.5


def client_life(w, server, seed, part, windows):
    rnd = random.Random("%s/c23/%s" % (seed, part))
    a = Account(w, server, part, rnd, ["plain", "same", "evade"][part % 3])
    try:
        for k in range(windows + 1):
            last = k == windows
            whole = part % 5 != 4 or last  # some clients leave part of their requests unused
            pace = 0.02 if last else rnd.choice([0.0, 0.05, 0.3])
            goal = LIMIT if whole else rnd.choice([1, 10, 20])
            while a.used < goal or a.window is None:
                a.ask(min(max(goal - a.used, 1), rnd.choice([1, 1, 2, 5, 13])))
                if pace:
                    time.sleep(rnd.uniform(0, 2 * pace))
            w.count("spent" if goal == LIMIT else "left")
            if whole:
                for _ in range(rnd.randrange(1, 25)):
                    a.ask(rnd.choice([1, 3]))
                    if rnd.random() < 0.5:
                        time.sleep(rnd.uniform(0, 0.2))
            if last:
                break
            # nothing but refusals until the interval is over, then a new one
            if whole:
                first = a.window
                while a.window is first:
                    time.sleep(rnd.uniform(0.05, 0.4) if a.unsure() else rnd.uniform(0.2, 2))
                    a.ask(1)
                w.count("renewed")
            else:
                # a connection ends when idle, so this one keeps asking
                first = a.window
                while a.used < LIMIT and time.monotonic() - first[0] < INTERVAL - 1.6:
                    time.sleep(max(0, min(rnd.uniform(1, 2.5), first[0] + INTERVAL - 1.6 - time.monotonic())))
                    a.ask(1)
                time.sleep(max(0, first[1] + INTERVAL + 1.6 - time.monotonic()))
                # the interval ended with requests left: the next one begins a new interval
                a.window, a.used = None, 0
                a.ask(1)
                w.count("renewed_partly")
        w.count("lives")
    except Lost as e:
        w.count("lost")
        with w.lock:
            w.samples.append("client %s lost: %s" % (part, e))
    finally:
        a.c.close()


def brief_clients(w, server, seed, stop):
    """Many clients with a request or two each, and some that do not stop: nobody else may notice."""
    rnd = random.Random("%s/c23/brief" % seed)
    k = 256
    while not stop.is_set():
        k += 1
        try:
            # an address of its own: the ports of ended connections are used again
            a = Account(w, server, "brief", rnd, rnd.choice(["plain", "same", "evade"]), source=("127.%d.%d.%d" % (1 + k // 64516, k // 254 % 254, 1 + k % 254), 0))
            try:
                for n in [rnd.choice([1, 1, 2, 5])] if rnd.random() < 0.9 else [50, 50, 20, 1]:
                    a.ask(n)
                w.count("brief_clients")
            finally:
                a.c.close()
        except (Lost, OSError):
            w.count("brief_lost")
        time.sleep(0.05)


def c23(prop, tier, seed):
    r = base.Report(prop, tier, seed)
    apps_dir = base.build_apps()
    w = Watch(r)
    n, windows = (24, 1) if tier == "quick" else (60, 5)
    with Server(apps_dir, extra=dict(RUST_LOG="error")) as s:
        stop = threading.Event()
        ts = [threading.Thread(target=client_life, args=(w, s, seed, p, windows)) for p in range(n)]
        ts.append(threading.Thread(target=brief_clients, args=(w, s, seed, stop)))
        for t in ts:
            t.start()
        for t in ts[:-1]:
            t.join()
        stop.set()
        ts[-1].join()
        if not s.alive():
            w.bad("C23:server ended", output=s.output())
    r.evaluations = w.counts.get("answered", 0) + w.counts.get("refused", 0)
    r.distinct, r.samples = w.counts.get("windows", 0), w.samples + ["%d clients for %d intervals and the beginning of another" % (n, windows)]
    r.coverage["observed"] = w.counts
    for k, least in (("lives", n * 2 // 3), ("answered", n * 150), ("refused", n * 10), ("renewed", n // 2), ("renewed_partly", n // 12), ("brief_clients", 100)):
        r.require(k, w.counts.get(k, 0), least)
    return r.finish("%d long-lived connections in %d workers, each followed for more than a minute (requests of every kind, in bursts, with headers meant to evade or borrow another's limit) beside many brief ones; each answer judged by the connection's own history; distinct counts the intervals observed" % (n, os.cpu_count() or 0))
