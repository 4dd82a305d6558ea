"""No client holds up another (C30): requests that stall at any point while others go on, judged by ProgressTrace.tla (who is
owed an answer when nothing happens any more) and S3Trace.tla (the answers)."""
import base64, json, os, random, re, socket, subprocess, time
from . import exe, judge, run, store, tlc
from .gen import Gen
from .pstore import mix, on, report, zone, vanish
from .pfault import NAMES, sweep

WAIT = 15000


class SHist(store.Hist):
    """a history in which requests may stall; one service, as a program has"""

    def __init__(self, world, ex, rng, auth):
        super().__init__(world, ex, rng)
        self.one = auth
        self.pe = []
        self.m = 0
        self.stalls = 0

    def make(self, a):
        r = super().make(a)
        if self.one and r["svc"] == self.id:
            self.sign(r)
        return r

    def flag(self, i, *f):
        self.pe.append({"t": "set", "i": i, "f": list(f)})

    def do(self, a, timeout=WAIT):
        self.m += 1
        i = self.m
        self.flag(i, "full", "willing")
        try:
            r = super().do(a, timeout)
        except store.Hang:
            self.pe.append({"t": "quiet"})
            raise
        self.flag(i, "answered", "whole")
        return r

    def hang(self, x, what):
        self.reqlog.append([len(self.ev), store.short(x["req"]), what])
        self.pe.append({"t": "quiet"})
        raise store.Hang(what)


def content(g, n=None):
    n = n if n is not None else g.rng.choice([1, 50, 300, 5000, 9000, 70000])
    return g.w.seg(g.rng.randbytes(n))


def stall(g, kind, b, k, up, cut, window):
    """begin a request and let it wait; window: it may take effect at any time from now"""
    h, rng = g.h, g.rng
    if kind == "get":
        a = h.get_a(b, g.big, rng.choice([None, None, "bytes=5-", "bytes=100-250000"]) if g.size <= 300000 else None)
    elif kind == "part":
        a = h.part_a(up[0], up[1], up[2], rng.choice([1, 1, 2, 3]), content(g))
    elif kind == "complete":
        a = h.complete_a(up[0], up[1], up[2], [{"n": n, "e": "none", "c": []} for n in sorted(up[3])])
    elif kind == "deletes":
        a = dict(op="deletes", b=b, ks=rng.sample(g.ks, 2), quiet=False)
    else:
        a = h.put_a(b, k, content(g), g.meta())
        if kind == "form":
            a["op"] = "form"
        elif kind == "chunked":
            a["_chunked"] = "good"
    if kind != "part":
        h.prepare(a)
    req = h.make(a)
    h.m += 1
    x = {"a": a, "i": h.m, "id": "p%d" % h.m, "pos": len(h.ev), "v": None, "kind": kind, "req": req, "up": up, "window": window, "rest": b""}
    h.stalls += 1
    if kind == "get":
        h.flag(x["i"], "full")
        h.ex.cmd(cmd="begin", id=x["id"], hold=True, **req)
        v = h.ex.cmd(cmd="wait", id=x["id"], timeout=WAIT, head=True)
        if v.get("pending"):
            h.hang(x, "no response")
        h.flag(x["i"], "answered")
        if cut:
            h.ex.cmd(cmd="credit", id=x["id"], n=cut)
        return x
    frames = req.pop("frames")
    data = b"".join(base64.b64decode(f) for f in frames if isinstance(f, str))
    n = len(data)
    at = {0: 0, 1: 1, 2: n // 2, 3: n - 1, 4: n}[cut]
    if kind in ("form", "chunked"):
        at = min(at, max(0, n - 40))      # not all that the server needs
    x["whole"] = at == n
    x["rest"] = data[at:]
    h.ex.cmd(cmd="begin", id=x["id"], open=True, frames=[], **req)
    first = data[:at]
    if first:
        h.ex.cmd(cmd="feed", id=x["id"], frames=h.frames(first), end=False)
    v = h.ex.cmd(cmd="wait", id=x["id"], timeout=100, idle=True)
    if "status" in v or "panic" in v or "err" in v:
        x["v"] = v
        h.flag(x["i"], "full", "answered", "whole")
    return x


def note(g, x, v):
    """the response of a request that had stalled"""
    h = g.h
    a = x["a"]
    r = h.parse(a, v)
    if x["kind"] == "get":
        # which version is read was settled when the head was sent
        h.ev.insert(x["pos"], dict(t="op", a=store.clean(a), r=store.clean(r)))
        for y in g.stalled:
            if y["pos"] > x["pos"]:
                y["pos"] += 1
    elif x["window"] and len(h.ev) > x["pos"]:
        i = "c%d" % x["i"]
        h.ev.insert(x["pos"], dict(t="call", id=i, a=store.clean(a), r=store.clean(r)))
        h.ev.append(dict(t="ret", id=i))
        for y in g.stalled:
            if y["pos"] >= x["pos"]:
                y["pos"] += 1
    else:
        h.add(a, r)
    h.reqlog.append([len(h.ev) - 1, store.short(x["req"]), store.brief(v)])
    if r["st"] == "ok":
        if a["op"] == "part":
            h.prepare(a)
            x["up"][3].setdefault(a["n"], []).append(a["c"])
        elif a["op"] in ("put", "form"):
            g.live.add((a["b"], a["k"]))
        elif a["op"] == "complete":
            g.ups = [u for u in g.ups if u[0] != x["up"][0]]


def finish(g, x, how):
    h = g.h
    v = x["v"]
    if v is None and how == "leave" and not x.get("whole"):
        # what was never received completely has no effect
        h.ex.cmd(cmd="cancel", id=x["id"])
        h.flag(x["i"], "gone")
        v = h.ex.cmd(cmd="wait", id=x["id"], timeout=WAIT)
        h.ex.cmd(cmd="forget", id=x["id"])
        return
    if v is None:
        if x["kind"] == "get":
            h.flag(x["i"], "willing")
            h.ex.cmd(cmd="credit", id=x["id"], n=1000000)
        else:
            if x["rest"]:
                h.ex.cmd(cmd="feed", id=x["id"], frames=h.frames(x["rest"]), end=False)
            h.flag(x["i"], "full", "willing")
            h.ex.cmd(cmd="feed", id=x["id"], frames=[], end=True)
        v = h.ex.cmd(cmd="wait", id=x["id"], timeout=WAIT)
        if v.get("pending"):
            h.hang(x, "no response to a request that was continued")
        h.flag(x["i"], "answered", "whole")
    h.ex.cmd(cmd="forget", id=x["id"])
    if x["kind"] == "complete":
        h.prepare(x["a"])                 # parts may have been replaced meanwhile
    note(g, x, v)


def begin(g, window, kind=None):
    rng = g.rng
    kinds = ["put", "put", "part", "part", "complete", "deletes", "get", "get"] + (["form", "chunked"] if g.h.one else [])
    kind = kind or rng.choice(kinds)
    up = None
    if kind in ("part", "complete"):
        ups = [u for u in g.ups if u[3]] or g.ups
        if not ups:
            kind = "put"
        else:
            up = rng.choice(ups)
            if kind == "complete" and not up[3]:
                kind = "part"
    return stall(g, kind, g.bs[0], rng.choice(g.ks), up, rng.choice([0, 1, 2, 2, 3, 4]), window)


def others(g, n, buckets):
    """what the other clients do, first of all with the names of the stalled requests"""
    h, rng = g.h, g.rng
    b = g.bs[0]
    for x in rng.sample(g.stalled, min(3, len(g.stalled))):
        a = x["a"]
        k = a.get("k") or rng.choice(g.ks)
        for op in rng.sample(["put", "get", "head", "delete", "copy", "copyfrom", "part", "list", "complete"], 2):
            if op == "put":
                h.put(b, k, content(g), g.meta())
                g.live.add((b, k))
            elif op == "get":
                h.get(b, k)
            elif op == "head":
                h.head(b, k)
            elif op == "delete":
                h.delete(b, k)
                g.live.discard((b, k))
            elif op in ("copy", "copyfrom"):
                o = rng.choice([y for y in g.ks if y != k])
                h.copy(b, *((o, b, k) if op == "copy" else (k, b, o)))
            elif op == "list":
                h.list(b, v=rng.choice([1, 2]))
            elif op == "part" and x["up"]:
                g.s_part_of(x["up"])
            elif op == "complete" and x["up"] and x["up"][3] and rng.random() < 0.4:
                u = x["up"]
                h.complete(u[0], u[1], u[2], [{"n": n, "e": "none", "c": []} for n in sorted(u[3])])
                g.ups = [y for y in g.ups if y[0] != u[0]]
    g.run(mix(broken=0, busy=0, md5=0, badpart=0, gone=.3, buckets=.5 if buckets else 0, mark=0, near=0), n)
    if buckets and rng.random() < 0.3:
        vanish(g, b)
    h.createbucket("c%d" % rng.randint(100, 999))
    h.listbuckets()


def sc(g, mass):
    h, rng = g.h, g.rng
    g.stalled = []
    h.quiet = True
    g.start()
    g.big = g.w.key("big/object")
    g.size = rng.choice([300000, 1000000])
    for k in g.ks[:3]:
        h.put(g.bs[0], k, content(g), g.meta())
        g.live.add((g.bs[0], k))
    h.put(g.bs[0], g.big, content(g, g.size), {"b": "1"})
    for _ in range(2):
        g.s_create()
        g.s_part()
    h.quiet = False
    for _ in range(1 if mass else 4):
        # most of a mass are of one kind
        most = rng.choice(["get", "put", "part", "deletes", "form" if h.one else "get"]) if mass else None
        for _ in range(mass or rng.choice([1, 1, 2, 3])):
            if not g.stalled or rng.random() < 0.8 or not mass:
                x = begin(g, not mass, most if rng.random() < 0.7 else None)
                g.stalled.append(x)
            else:
                # the same again and again
                y = rng.choice(g.stalled)
                g.stalled.append(stall(g, y["kind"], g.bs[0], y["a"].get("k"), y["up"], rng.choice([0, 2, 3]), False))
            x = g.stalled[-1]
            if x["v"] is not None:
                finish(g, g.stalled.pop(), "continue")
            if not mass and rng.random() < 0.4:
                others(g, 1, False)
        others(g, 12 if mass else rng.randint(1, 5), not mass)
        if mass:
            sweep(g)
        while g.stalled:
            x = g.stalled.pop(rng.randrange(len(g.stalled)))
            finish(g, x, "leave" if rng.random() < (.8 if mass else .3) else "continue")
            if not mass and rng.random() < 0.3:
                others(g, 1, False)
        h.createbucket(g.bs[0])
        for up in g.ups:
            if up[3] and not mass:
                h.complete(up[0], up[1], up[2], [{"n": n, "e": "none", "c": []} for n in sorted(up[3])])
                h.get(up[1], up[2])
        if not mass:
            g.ups = []
            g.s_create()
            g.s_part()
        sweep(g)
    h.pe.append({"t": "quiet"})


ASPECTS = ["st", "code", "uid", "report", "range"]
OPASPECTS = on(["get", "head"], ["body", "meta", "len", "etag"]) + on(["list"], ["list", "order", "size", "count"]) + on(["listbuckets"], ["list"])


def progress(out, hists):
    """who is owed an answer?"""
    hs = [h for h in hists if h["pe"]]
    v = judge.run_trace({"hist": [{"ev": h["pe"]} for h in hs]}, module="ProgressTrace")
    for hi, l, _ in v.bad:
        out.violation("%s%s" % (hs[hi]["what"], " (event %d: a request that was received completely is not answered)" % (l + 1)), "progress",
                      {"events": hs[hi]["pe"][-12:], "requests": hs[hi]["log"]})
    out.add(states=v.states, transitions=v.events, traces_validated_against_impl=len(hs))


def work(pid, seed, part, n, quick):
    out = run.Out()
    w = store.World()
    ex = exe.Exec(env=zone(random.Random("%s-%d-%d" % (pid, seed, part))))
    hists, dead, stalls, t0 = [], 0, 0, time.time()
    try:
        for i in range(n):
            if time.time() - t0 > (100 if quick else 500) and i:
                break
            rng = random.Random("%s-%d-%d-%d" % (pid, seed, part, i))
            h = SHist(w, ex, rng, rng.random() < 0.7)
            try:
                g = Gen(h, rng, keys=rng.choice(NAMES))
                sc(g, rng.choice([40, 130]) if i % 6 == part % 6 else 0)
            except store.Hang:
                dead += 1
            except exe.Died as e:
                out.violation("the server process died: %s" % e, "died", {"requests": h.reqlog[-5:]})
                ex = exe.Exec()
                dead += 1
            stalls += h.stalls
            hists.append(h)
            if dead:
                # threads of requests that hang are left over
                ex.kill()
                ex = exe.Exec()
            else:
                ex.forget(h)
            if dead >= 2:
                break
    finally:
        ex.close()
    progress(out, [{"pe": h.pe, "what": "a request waits for another client", "log": h.reqlog[-4:]} for h in hists])
    report(out, w, hists, ASPECTS, OPASPECTS)
    out.add(stalled_requests=stalls)
    return out


# ---- the server program ------------------------------------------------------------------------
def http(port, method, path, body=None, headers=(), timeout=WAIT / 1000):
    """-> (status, body) or None if there is no complete response in time"""
    end = time.time() + timeout
    try:
        s = socket.create_connection(("127.0.0.1", port), timeout)
    except OSError:
        return None
    try:
        msg = "%s %s HTTP/1.1\r\nhost: localhost\r\nconnection: close\r\n" % (method, path)
        if body is not None:
            msg += "content-length: %d\r\n" % len(body)
        msg += "".join("%s: %s\r\n" % x for x in headers) + "\r\n"
        s.sendall(msg.encode() + (body or b""))
        data = b""
        while True:
            s.settimeout(max(0.01, end - time.time()))
            x = s.recv(65536)
            if not x:
                break
            data += x
    except OSError:
        return None
    finally:
        s.close()
    m = re.match(rb"HTTP/1.1 (\d+)", data)
    return (int(m.group(1)), data.partition(b"\r\n\r\n")[2]) if m else None


def program(seed, rounds):
    """the server program with clients that stall at any point of a connection"""
    out = run.Out()
    rng = random.Random("progress-program-%d" % seed)
    top = exe.scratch()
    kw = dict(user=exe.NOBODY, group=exe.NOBODY, extra_groups=[]) if os.geteuid() == 0 else {}
    recs, stalls = [], 0
    try:
        for rd in range(rounds):
            root = os.path.join(top, "root%d" % rd)
            os.mkdir(root)
            os.chown(root, exe.NOBODY, exe.NOBODY)
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            port = s.getsockname()[1]
            s.close()
            p = subprocess.Popen([os.path.join(exe.HARNESS, "target", "debug", "s3-server"), "--fs-root", root, "--host", "127.0.0.1", "--port", str(port)],
                                 env={"PATH": "/usr/bin:/bin", "RUST_LOG": "off"}, cwd=top, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, **kw)
            pe, log, m, open_ = [], [], [0], []

            def ask(method, path, want, body=None, back=None):
                m[0] += 1
                pe.append({"t": "set", "i": m[0], "f": ["full", "willing"]})
                r = http(port, method, path, body)
                log.append([method, path, r[0] if r else "no response"])
                if r is None:
                    pe.append({"t": "quiet"})
                    raise store.Hang(path)
                pe.append({"t": "set", "i": m[0], "f": ["answered", "whole"]})
                if r[0] != want or back is not None and r[1] != back:
                    out.violation("server program: %s %s answers %d while other clients stall" % (method, path, r[0]), "program", {"log": log[-5:]})

            try:
                for _ in range(500):
                    try:
                        socket.create_connection(("127.0.0.1", port), 1).close()
                        break
                    except OSError:
                        if p.poll() is not None:
                            raise exe.ToolError("the server program ended")
                        time.sleep(0.02)
                big = rng.randbytes(6000000)
                ask("PUT", "/bkt", 200)
                ask("PUT", "/bkt/big", 200, big)
                ask("PUT", "/bkt/a", 200, b"first")
                n = rng.choice([5, 30, 100]) if rd > 1 else 130
                most = rng.choice(["get", "put", "delete", None]) if rd > 1 else ["get", "put"][rd]
                for i in range(n):
                    c = socket.create_connection(("127.0.0.1", port), 5)
                    kind = rng.choice(["nothing", "line", "head", "put", "put", "put1", "get", "get", "delete", "chunked"])
                    if most and rng.random() < 0.7:
                        kind = most
                    k = rng.choice(["a", "b", "c%d" % i])
                    msg = {"nothing": "", "line": "GET /bkt/%s HT" % k, "head": "PUT /bkt/%s HTTP/1.1\r\nhost: x\r\ncontent-le" % k,
                           "put": "PUT /bkt/%s HTTP/1.1\r\nhost: x\r\ncontent-length: 100000\r\n\r\n%s" % (k, "z" * rng.choice([0, 1, 50000, 99999])),
                           "put1": "PUT /bkt/%s HTTP/1.1\r\nhost: x\r\ntransfer-encoding: chunked\r\n\r\n5\r\nhello\r\n5\r\nwo" % k,
                           "get": "GET /bkt/big HTTP/1.1\r\nhost: x\r\n\r\n",
                           "delete": "POST /bkt?delete HTTP/1.1\r\nhost: x\r\ncontent-length: 3000\r\n\r\n<Delete><Object>",
                           "chunked": "PUT /bkt/%s?partNumber=1&uploadId=x HTTP/1.1\r\nhost: x\r\ncontent-length: 30\r\n\r\nabc" % k}[kind]
                    c.sendall(msg.encode())
                    open_.append((c, kind, k))
                    if rng.random() < 0.2:
                        ask("HEAD", "/bkt/a", 200)
                stalls += n
                for x in rng.sample(range(5), 5):
                    if x == 0:
                        ask("GET", "/bkt/big", 200, None, big)
                    elif x == 1:
                        ask("PUT", "/bkt/a", 200, b"second")
                        ask("GET", "/bkt/a", 200, None, b"second")
                    elif x == 2:
                        ask("PUT", "/bkt2", 200)
                        ask("DELETE", "/bkt2", 204)
                    elif x == 3:
                        ask("GET", "/bkt?list-type=2", 200)
                    else:
                        ask("PUT", "/bkt/d", 200, b"x" * 200000)
                        ask("DELETE", "/bkt/d", 204)
                # they go on
                for c, kind, k in rng.sample(open_, min(8, len(open_))):
                    if kind == "put1":
                        m[0] += 1
                        pe.append({"t": "set", "i": m[0], "f": ["full", "willing"]})
                        try:
                            c.settimeout(WAIT / 1000)
                            c.sendall(b"rld\r\n0\r\n\r\n")
                            ok = c.recv(100).startswith(b"HTTP/1.1 200")
                        except OSError:
                            ok = False
                        log.append(["PUT", k, "continued", ok])
                        if not ok:
                            pe.append({"t": "quiet"})
                            raise store.Hang("continued")
                        pe.append({"t": "set", "i": m[0], "f": ["answered", "whole"]})
                        ask("GET", "/bkt/" + k, 200, None, b"helloworld")
                pe.append({"t": "quiet"})
            except store.Hang:
                pass
            finally:
                for c, _, _ in open_:
                    c.close()
                p.kill()
                p.wait()
            recs.append({"pe": pe, "what": "server program: a request waits for another client", "log": log[-4:]})
    finally:
        exe.drop_scratch(top)
    progress(out, recs)
    out.add(stalled_connections=stalls)
    return out


def explore(out, cfg, holds, module="Progress"):
    """the design, and that other designs would not do"""
    r = tlc.run(module, cfg=cfg, workers=4, heap="4g", timeout=800)
    good = "No error has been found" in r.out
    if good != holds:
        raise exe.ToolError("the model %s:\n%s" % (cfg, r.out[-2000:]))
    out.add(model_states=r.distinct, model_transitions=r.states)


def model(quick):
    out = run.Out()
    for c in ["Progress2"] if quick else ["Progress"]:
        explore(out, c, True)
    for c in ("Progress_receive", "Progress_respond"):
        explore(out, c, False)
    return out


def check(pid):
    def f(ctx):
        n = 14 if ctx.quick else 120
        jobs = [(work, (pid, ctx.seed, p, n, ctx.quick)) for p in range(8)]
        jobs += [(program, (ctx.seed, 3 if ctx.quick else 30)), (model, (ctx.quick,))]
        return run.parallel(jobs)
    return f
