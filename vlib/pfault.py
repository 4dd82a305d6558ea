"""Interleavings, crashes and failures of the file system backend (C22, C23, C27), judged by S3Trace.tla.

The executor runs with shim.c preloaded, which sees every file operation of the server. What a response should be,
which orders of overlapping operations and which states after a crash are allowed is decided by the specification.
"""
import json, os, random, time
from . import exe, gen, judge, run, store
from .gen import Gen
from .pstore import on, report, READS

EIO, ENOSPC, EMFILE, EACCES = 5, 28, 24, 13
NAMES = [["a", "b", "dir/x", "dir/y", "e/f/g"], ["k1", "k 2", "\u00fc/\u20ac", "p/q", "zz"], ["%41", "A", "x+y", "deep/er/one", "deep/er/two"]]


class FHist(store.Hist):
    """a history in an executor whose file operations are watched"""

    def __init__(self, world, ex, rng, auth=False):
        super().__init__(world, ex, rng)
        self.one = auth           # use only the service that authenticates (one service has one lock)
        self.shim("root " + self.root)
        self.shim("reset")
        self.fault = False
        self.hit = 0

    def shim(self, arg):
        return self.ex.cmd(cmd="shim", arg=arg)["out"]

    def services(self):
        self.ex.cmd(cmd="svc", id=self.id, kind="fs", root=self.root)
        self.ex.cmd(cmd="svc", id=self.id + "a", kind="fs", root=self.root, auth=self.auth)
        self.shim("root " + self.root)

    def make(self, a):
        r = super().make(a)
        if self.one and r["svc"] == self.id:
            self.sign(r)
        return r

    def parse(self, a, v):
        if a.get("fault") and v.get("body_err"):
            return {"st": "err", "code": "body", "http": v["status"]}
        return super().parse(a, v)

    def do_fault(self, a, plan):
        """an operation while the plan is active; -> whether the operation that the plan names happened"""
        a = dict(a, fault=True)
        n = int(plan.split()[2])
        self.prepare(a)
        req = self.make(a)
        self.shim(plan)
        v = self.ex.cmd(cmd="req", timeout=15000, **req)
        hit = int(self.shim("count")) >= n
        ops = self.shim("log").split("\n")
        self.shim("reset")
        if v.get("pending"):
            v = {"hang": True}
        r = self.parse(a, v)
        self.add(a, r)
        self.reqlog.append([len(self.ev) - 1, dict(store.short(req), plan=plan, op=ops[n - 1:n]), store.brief(v)])
        if v.get("hang"):
            raise store.Hang("no response to %s %s" % (req["method"], req["uri"]))
        return hit, r


def content(g, n=None):
    rng = g.rng
    if n is None:
        n = rng.choice([0, 1, 50, 300, 5000, 8192, 20000])
    return g.w.seg(rng.randbytes(n))


def setup(g, puts=4):
    h, rng = g.h, g.rng
    h.quiet = True
    g.start()
    for k in g.ks[:puts]:
        h.put(g.bs[0], k, content(g), g.meta())
        g.live.add((g.bs[0], k))
    h.put(g.bs[1], g.ks[0], content(g), {"a": "1"})
    g.live.add((g.bs[1], g.ks[0]))
    h.quiet = False


def sweep(g, heads=False):
    h = g.h
    h.listbuckets()
    for b in g.bs:
        h.list(b, v=g.rng.choice([1, 2]))
    for k in g.ks:
        h.get(g.bs[0], k)
    h.get(g.bs[1], g.ks[0])
    if heads:
        for b, k in sorted(g.live):
            h.head(b, k)


def upload(g, b, k, parts=2):
    """an upload with some parts"""
    h = g.h
    u = h.create(b, k, g.meta() if g.rng.random() < 0.7 else {})
    up = [u["u"], b, k, {}] if u["st"] == "ok" else None
    for n in range(1, parts + 1):
        if up:
            g_part(g, up, n)
    return up


def g_part(g, up, n):
    c = content(g)
    if g.h.part(up[0], up[1], up[2], n, c)["st"] == "ok":
        up[3].setdefault(n, []).append(c)


def finish(g, up, etags=False):
    """complete an upload, so that its content is seen"""
    ps = [{"n": n, "e": "some" if etags else "none", "c": up[3][n][-1] if etags else []} for n in sorted(up[3])]
    if not ps:
        return
    g.h.complete(up[0], up[1], up[2], ps)
    g.h.get(up[1], up[2])


def exists(g, b, k, meta=None):
    """the object exists, with metadata"""
    g.h.put(b, k, content(g), meta if meta is not None else g.rng.choice([{"a": "1"}, {"color": "blue", "b": "2"}, {}]))
    g.live.add((b, k))


# ---- what is made to fail ---------------------------------------------------------------------
# kind -> function(g) which prepares and returns (operation, what to do after it)
def t_put_new(g):
    k = g.w.key("new%d/x" % g.rng.randint(0, 99))
    g.ks.append(k)
    return g.h.put_a(g.bs[0], k, content(g), g.meta()), lambda r: g.ks.remove(k)


def t_put(g):
    b, k = g.bs[0], g.rng.choice(g.ks)
    if g.rng.random() < 0.7:
        exists(g, b, k)
    return g.h.put_a(b, k, content(g), g.rng.choice([{"x-y": "new"}, {}, g.meta()])), None


def t_form(g):
    b, k = g.bs[0], g.rng.choice(g.ks)
    exists(g, b, k)
    return dict(g.h.put_a(b, k, content(g), g.rng.choice([{"x-y": "new"}, {}])), op="form"), None


def t_putafter(g):
    """in place of a directory that deleted objects left"""
    b = g.bs[0]
    x = "left%d" % g.rng.randint(0, 99)
    for n in ("/p/q", "/r"):
        exists(g, b, g.w.key(x + n))
        g.h.delete(b, g.w.key(x + n))
        g.live.discard((b, g.w.key(x + n)))
    k = g.w.key(x)
    g.ks.append(k)
    return g.h.put_a(b, k, content(g), g.meta()), lambda r: (g.h.delete(b, k), g.ks.remove(k))


def t_delete(g):
    b, k = g.bs[0], g.rng.choice(g.ks)
    exists(g, b, k)

    def after(r):
        # what is put there next has its own metadata
        if g.rng.random() < 0.5:
            g.h.put(b, k, content(g), {})
            g.h.get(b, k)
    return dict(op="delete", b=b, k=k), after


def t_deletes(g):
    b = g.bs[0]
    ks = g.rng.sample(g.ks, 3)
    for k in ks:
        exists(g, b, k)
    return dict(op="deletes", b=b, ks=ks, quiet=g.rng.random() < 0.3), None


def t_copy(g):
    sk, k = g.rng.choice(g.ks), g.rng.choice(g.ks)
    exists(g, g.bs[0], sk)
    if g.rng.random() < 0.6:
        exists(g, g.bs[0], k)
    rep = g.rng.random() < 0.4
    return g.h.copy_a(g.bs[0], sk, g.bs[0], k, rep, {"b": "9"} if rep else {}), None


def t_copyself(g):
    k = g.rng.choice(g.ks)
    exists(g, g.bs[0], k)
    return g.h.copy_a(g.bs[0], k, g.bs[0], k, True, {"b": "9"}), None


def t_create(g):
    b, k = g.bs[0], g.rng.choice(g.ks)

    def after(r):
        if r["st"] == "ok":
            up = [r["u"], b, k, {}]
            g_part(g, up, 1)
            finish(g, up)
    return dict(op="create", b=b, k=k, m=store.canon_meta({"a": "7"}), _meta={"a": "7"}), after


def t_part(g):
    b, k = g.bs[0], g.rng.choice(g.ks)
    up = upload(g, b, k)
    if up is None:
        return None
    n = g.rng.choice([1, 2, 3])
    a = g.h.part_a(up[0], b, k, n, content(g))

    def after(r):
        if r["st"] == "ok":
            up[3].setdefault(n, []).append(a["c"])
        finish(g, up, etags=g.rng.random() < 0.5)
    return a, after


def t_complete(g):
    b, k = g.bs[0], g.rng.choice(g.ks)
    if g.rng.random() < 0.8:
        exists(g, b, k)
    up = upload(g, b, k, parts=g.rng.choice([1, 2, 3]))
    if up is None or not up[3]:
        return None
    a = g.h.complete_a(up[0], b, k, [{"n": n, "e": "some", "c": up[3][n][-1]} for n in sorted(up[3])])

    def after(r):
        g.h.get(b, k)
        # again: refused if it was completed, otherwise it still works
        if g.rng.random() < 0.8:
            g.h.do(dict(a))
        else:
            g_part(g, up, 1)
            finish(g, up)
    return a, after


def t_get(g):
    b, k = g.bs[0], g.rng.choice(g.ks)
    exists(g, b, k)
    return g.h.get_a(b, k, g.rng.choice([None, None, "bytes=1-", "bytes=-7"])), None


def t_head(g):
    b, k = g.bs[0], g.rng.choice(g.ks)
    exists(g, b, k, {"a": "1"})
    return dict(op="head", b=b, k=k), None


def t_list(g):
    return g.h.list_a(g.bs[0], v=g.rng.choice([1, 2])), None


def t_listbuckets(g):
    return dict(op="listbuckets"), None


def t_createbucket(g):
    b = "new-bucket%d" % g.rng.randint(0, 999)

    def after(r):
        g.h.headbucket(b)
        g.h.deletebucket(b)
    return dict(op="createbucket", b=b), after


def t_deletebucket(g):
    b = "old-bucket"
    g.h.createbucket(b)
    k = g.w.key("s/t/u")
    exists(g, b, k)
    full = g.rng.random() < 0.3
    if not full:
        g.h.delete(b, k)
        g.live.discard((b, k))

    def after(r):
        if full:
            g.h.get(b, k)
            g.h.delete(b, k)
        g.live.discard((b, k))
        g.h.put(b, k, content(g))
        g.h.delete(b, k)
        g.h.deletebucket(b)
    return dict(op="deletebucket", b=b), after


def t_headbucket(g):
    return dict(op=g.rng.choice(["headbucket", "location"]), b=g.bs[0]), None


CHANGES = [t_put_new, t_put, t_form, t_putafter, t_delete, t_deletes, t_copy, t_copyself, t_create, t_part, t_complete, t_createbucket,
           t_deletebucket]
LOOKS = [t_get, t_head, t_list, t_listbuckets, t_headbucket]


# ---- C27: failures ----------------------------------------------------------------------------
def sc_faults(g, kinds, modes, budget, step):
    """every file operation of an operation fails once"""
    h, rng = g.h, g.rng
    setup(g)
    for kind in kinds:
        for mode in modes:
            n = 1
            while time.time() < budget:
                p = kind(g)
                if p is None:
                    break
                a, after = p
                e = rng.choice([EIO, ENOSPC, EMFILE, EACCES]) if mode in ("fail", "failrest") else ENOSPC
                hit, r = h.do_fault(a, "plan %s %d %d" % (mode, n, e))
                if hit:
                    h.hit += 1
                if not (a["op"] == "get" and not hit):
                    sweep(g, heads=rng.random() < 0.15)
                if after:
                    after(r)
                if not hit or n > 300:
                    break
                n += step if n > 12 else 1


# ---- C23: crashes -----------------------------------------------------------------------------
def split(a):
    """what a multi-object delete is when the server stops in the middle"""
    if a["op"] == "deletes":
        return [dict(op="delete", b=a["b"], k=k) for k in a["ks"]]
    return [a]


def restart(h):
    """the server starts again; half of the times it ends once more before one of its first file operations"""
    for again in [True, False]:
        h.ex.kill()
        ex = exe.Exec(shim=True)
        for r in h.ex.roots:
            ex.roots.append(r)
        exe.drop_scratch(h.ex.cwd)
        h.ex = ex
        if not again:
            break
        # (a commit that was left unfinished is worth more attention)
        n = h.rng.randint(-1 if os.path.exists(h.root + "/.commit.json") else -9, 9)
        if n > 0:
            h.shim("root " + h.root)
            h.shim("plan crash %d" % n)
            try:
                h.services()
                h.shim("reset")
                return
            except exe.Died:
                h.doubled = getattr(h, "doubled", 0) + 1
            except exe.ToolError as e:
                raise NotStarted(str(e))
    try:
        h.services()
    except exe.ToolError as e:
        raise NotStarted(str(e))


class NotStarted(Exception):
    """the server does not start on the directory that it left"""


def crash(h, a, n, quietly=False):
    """the server ends just before file operation n of an operation; -> whether it got there"""
    h.prepare(a)
    req = h.make(a)
    h.shim("plan crash %d" % n)
    try:
        v = h.ex.cmd(cmd="req", timeout=15000, **req)
        h.shim("reset")
    except exe.Died:
        i = 10 * len(h.ev)
        for x in split(a):
            i += 1
            h.ev.append(dict(t="call", id=i, a=store.clean(x), r={"st": "lost"}))
        h.ev.append(dict(t="crash"))
        h.reqlog.append([len(h.ev) - 1, dict(store.short(req), crash=n), "crash"])
        restart(h)
        return True, {"st": "lost"}
    if v.get("pending"):
        v = {"hang": True}
    r = h.parse(a, v)
    h.add(a, r)
    h.reqlog.append([len(h.ev) - 1, store.short(req), store.brief(v)])
    if v.get("hang"):
        raise store.Hang("no response")
    return False, r


def sc_crash(g, kinds, budget):
    h, rng = g.h, g.rng
    setup(g)
    for kind in kinds:
        n = 1
        while time.time() < budget:
            p = kind(g)
            if p is None:
                break
            a, after = p
            hit, r = crash(h, a, n)
            if hit:
                h.hit += 1
            sweep(g, heads=rng.random() < 0.15)
            if after:
                after(r)
            if hit and rng.random() < 0.5:
                # everything works as before
                k = a.get("k", g.ks[0])
                x = rng.randint(0, 3)
                if x == 0:
                    h.put(g.bs[0], k, content(g), {})
                elif x == 1:
                    h.delete(g.bs[0], k)
                    h.put(g.bs[0], k, content(g), {})
                elif x == 2:
                    h.copy(g.bs[0], k, g.bs[0], g.rng.choice(g.ks))
                sweep(g)
            if not hit or n > 300:
                break
            n += 1


# ---- C22: interleavings -------------------------------------------------------------------------
class Inter:
    """requests that overlap, switched at file operations"""

    def __init__(self, g):
        self.g, self.h = g, g.h
        self.all = []

    def start(self, a):
        h = self.h
        h.prepare(a)
        req = h.make(a)
        rid = "i%d-%d" % (h.ex.n, len(self.all))
        x = dict(a=a, req=req, id=rid, v=None, ticket=None, state="new", log=[])
        self.all.append(x)
        return x

    def run(self, x, n, t):
        """let a request go on for n file operations (0: to its end); t: milliseconds before it counts as blocked"""
        h = self.h
        h.shim("plan pause %d" % (n or 10 ** 9))
        known = set(h.shim("paused").split())
        if x["state"] == "new":
            h.ex.cmd(cmd="begin", id=x["id"], **x["req"])
        elif x["ticket"]:
            h.shim("go %s" % x["ticket"])
            known.discard(x["ticket"])
            x["ticket"] = None
        x["state"] = "running"
        end = time.time() + t / 1000
        while True:
            v = h.ex.cmd(cmd="wait", id=x["id"], timeout=1)
            if not v.get("pending"):
                x["v"], x["state"] = v, "done"
                break
            new = set(h.shim("paused").split()) - known
            if new:
                x["ticket"], x["state"] = min(new), "paused"
                break
            if time.time() > end:
                x["state"] = "blocked"
                break
        x["log"].append((n, x["state"], h.shim("log").split("\n")[-2:-1]))

    def finish(self):
        """all to their end"""
        h = self.h
        h.shim("go")
        end = time.time() + 15
        for x in self.all:
            if x["v"] is None:
                v = h.ex.cmd(cmd="wait", id=x["id"], timeout=max(1, int(1000 * (end - time.time()))))
                x["v"] = {"hang": True} if v.get("pending") else v
        h.shim("reset")
        evs = []
        base = 10 * len(h.ev)
        for i, x in enumerate(self.all):
            r = h.parse(x["a"], x["v"])
            a, r = store.clean(x["a"]), store.clean(r)
            inv, ret = x["v"].get("inv", 0), x["v"].get("ret", 10 ** 15)
            evs.append((inv, dict(t="call", id=base + i, a=a, r=r)))
            evs.append((ret, dict(t="ret", id=base + i)))
            x["r"] = r
        for _, e in sorted(evs, key=lambda y: y[0]):
            h.ev.append(e)
        for x in self.all:
            h.reqlog.append([len(h.ev) - 1, dict(store.short(x["req"]), schedule=x["log"], inv=x["v"].get("inv"), ret=x["v"].get("ret")),
                             store.brief(x["v"])])
            h.ex.cmd(cmd="forget", id=x["id"])
        if any(x["v"].get("hang") for x in self.all):
            raise store.Hang("no response")
        return [x["r"] for x in self.all]


def some_ops(g, n):
    """operations that touch the same things"""
    h, rng = g.h, g.rng
    b, k = g.bs[0], rng.choice(g.ks)
    k2 = rng.choice([x for x in g.ks if x != k])
    ups = []
    out = []
    for _ in range(n):
        kind = rng.choice(["put", "put", "put", "form", "get", "get", "get", "head", "list", "delete", "deletes", "copyto", "copyfrom", "copyself",
                           "part", "complete", "complete", "createbucket", "deletebucket", "listbuckets", "create", "range", "nest", "headbucket"])
        if kind in ("part", "complete") and not ups:
            up = upload(g, b, k, parts=rng.choice([1, 2]))
            if up:
                ups.append(up)
        up = rng.choice(ups) if ups else None
        if kind == "put":
            out.append(h.put_a(b, k, content(g), g.meta()))
        elif kind == "form":
            out.append(dict(h.put_a(b, k, content(g), g.meta()), op="form"))
        elif kind == "get":
            out.append(h.get_a(b, k))
        elif kind == "range":
            out.append(h.get_a(b, k, "bytes=0-9"))
        elif kind == "head":
            out.append(dict(op="head", b=b, k=k))
        elif kind == "list":
            out.append(h.list_a(b, v=rng.choice([1, 2])))
        elif kind == "delete":
            out.append(dict(op="delete", b=b, k=k))
        elif kind == "deletes":
            out.append(dict(op="deletes", b=b, ks=[k, k2], quiet=False))
        elif kind == "copyto":
            out.append(h.copy_a(b, k2, b, k))
        elif kind == "copyfrom":
            out.append(h.copy_a(b, k, b, k2))
        elif kind == "copyself":
            out.append(h.copy_a(b, k, b, k, True, {"b": "%d" % rng.randint(0, 99)}))
        elif kind == "part" and up:
            out.append(h.part_a(up[0], b, k, rng.choice([1, 2]), content(g)))
            out[-1]["_up"] = up
            h.prepare(out[-1])
        elif kind == "complete" and up:
            ps = [{"n": n, "e": rng.choice(["some", "none"]), "c": up[3][n][-1]} for n in sorted(up[3])]
            out.append(h.complete_a(up[0], b, k, [dict(p, c=p["c"] if p["e"] == "some" else []) for p in ps]))
        elif kind == "create":
            out.append(dict(op="create", b=b, k=k, m="", _meta={}))
        elif kind == "nest":
            # a key in the directory that another key is, or was
            out.append(h.put_a(b, g.w.key(g.w.kb(k) + b"/n"), content(g), {}))
        elif kind in ("createbucket", "deletebucket", "headbucket"):
            out.append(dict(op=kind, b=rng.choice(["third", b])))
        elif kind == "listbuckets":
            out.append(dict(op="listbuckets"))
        if not out:
            continue
        if rng.random() < 0.3:
            k, k2 = k2, k
    g.started = ups
    return out


def sc_inter(g, rounds, budget):
    h, rng = g.h, g.rng
    setup(g)
    sweep(g)
    for _ in range(rounds):
        if time.time() > budget:
            break
        if rng.random() < 0.5:
            h.createbucket("third")
        for k in g.ks[:2]:
            x = rng.random()
            if x < 0.5:
                exists(g, g.bs[0], k)
            elif x < 0.7:
                h.delete(g.bs[0], k)
        ops = some_ops(g, rng.choice([2, 2, 2, 3]))
        it = Inter(g)
        xs = [it.start(a) for a in ops]
        h.quiet = False
        # a schedule: a few switches at random file operations
        live = list(xs)
        for _ in range(rng.choice([2, 3, 3, 4, 6])):
            ready = [x for x in live if x["state"] in ("new", "paused")]
            if not ready:
                break
            x = rng.choice(ready)
            it.run(x, rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15]), 20)
        for x in rng.sample(live, len(live)):
            if x["state"] in ("new", "paused"):
                it.run(x, 0, 20)
        rs = it.finish()
        h.hit += 1
        sweep(g)
        for a, r in zip(ops, rs):
            if a["op"] == "part" and r["st"] == "ok":
                a["_up"][3].setdefault(a["n"], []).append(a["c"])
        for up in g.started:
            settle(g, up)
        for k in g.ks[:2]:
            nest = g.w.key(g.w.kb(k) + b"/n")
            if any(a.get("k") == nest for a in ops):
                h.get(g.bs[0], nest)
                h.delete(g.bs[0], nest)
        h.createbucket(g.bs[0])


# every pair of operations that have something to do with each other: one stops at each of its file operations while the
# other runs as far as it can
OBJ_W = ["put", "put0", "delete", "deletes", "copyfrom", "copyto", "copyself", "part", "complete"]
OBJ_R = ["get", "head", "range", "list1", "list2"]
BUC_A = ["tput", "tput0", "tlist1", "tlist2", "tcreate", "tdrop", "listbuckets", "thead", "tlocation", "tget", "tcopy", "tdelete", "tcomplete", "tupload", "tmark"]
DIR_A = ["wput", "wxput", "wxdelete", "wdelete", "wget", "wxget", "wlist1", "wlist2", "wcopy"]
PAIRS = [("obj", "", x, y) for x in OBJ_W + ["form"] for y in OBJ_W + OBJ_R[:2] + ["list2"]] + \
    [("obj", "", x, y) for x in OBJ_R for y in OBJ_W] + \
    [("obj", "gone", x, y) for x in ["put", "copyfrom", "complete", "get", "head", "copyto", "list2"] for y in ["put", "put0", "copyfrom", "complete"]] + \
    [("bucket", s, x, y) for x in BUC_A for y in ["tcreate", "tdrop", "tput", "tdelete"] for s in ["none", "empty", "full"]
     if (y, s) not in (("tput", "none"), ("tdelete", "none"), ("tdelete", "empty"))] + \
    [("dir", s, x, y) for x in DIR_A for y in ["wput", "wxput", "wxdelete", "wdelete"] for s in ["none", "w", "wx", "left"]
     if (y, s) not in (("wdelete", "none"), ("wdelete", "wx"), ("wdelete", "left"), ("wxdelete", "none"), ("wxdelete", "w"), ("wxdelete", "left"))]


def pair_op(g, kind, b, k, k2, up):
    h, rng = g.h, g.rng
    c = lambda: content(g, rng.choice([0, 3, 300, 9000]))
    m = {"x": "%d" % rng.randint(0, 999)}
    if kind in ("put", "tput", "wput", "wxput"):
        return h.put_a(b, k2 if kind == "wxput" else k, c(), m)
    if kind == "form":
        return dict(h.put_a(b, k, c(), m), op="form")
    if kind in ("put0", "tput0"):
        return h.put_a(b, k, c(), {})
    if kind in ("get", "tget", "wget", "wxget"):
        return h.get_a(b, k2 if kind == "wxget" else k)
    if kind == "range":
        return h.get_a(b, k, "bytes=1-7")
    if kind == "head":
        return dict(op="head", b=b, k=k)
    if kind in ("list1", "list2", "tlist1", "tlist2", "wlist1", "wlist2"):
        return h.list_a(b, v=int(kind[-1]))
    if kind in ("delete", "tdelete", "wdelete", "wxdelete"):
        return dict(op="delete", b=b, k=k2 if kind == "wxdelete" else k)
    if kind == "deletes":
        return dict(op="deletes", b=b, ks=[k, k2], quiet=False)
    if kind == "copyfrom":
        return h.copy_a(b, k2, b, k)
    if kind == "copyto":
        return h.copy_a(b, k, b, k2)
    if kind == "copyself":
        return h.copy_a(b, k, b, k, True, m)
    if kind in ("tcopy", "wcopy"):
        return h.copy_a(g.bs[1], g.ks[0], b, k)
    if kind == "part":
        return h.part_a(up[0], b, k, 1, c())
    if kind in ("complete", "tcomplete"):
        e = rng.random() < 0.7
        return h.complete_a(up[0], b, k, [{"n": n, "e": "some" if e else "none", "c": up[3][n][-1] if e else []} for n in sorted(up[3])])
    if kind == "tmark":
        # a directory marker: no object, whatever is answered
        return dict(op="free", _req=dict(method="PUT", uri="/%s/mark/" % b, headers=[["content-length", "0"]]))
    if kind == "tupload":
        return dict(op="create", b=b, k=k, m=store.canon_meta(m), _meta=m)
    return dict({"tcreate": dict(op="createbucket", b=b), "tdrop": dict(op="deletebucket", b=b), "thead": dict(op="headbucket", b=b),
                 "tlocation": dict(op="location", b=b), "listbuckets": dict(op="listbuckets")}[kind])


def settle(g, up):
    """what became of an upload is seen when it is completed; this also leaves TLC with one state instead of several"""
    h = g.h
    r = h.complete(up[0], up[1], up[2], [{"n": n, "e": "none", "c": []} for n in sorted(up[3])])
    if r["st"] == "ok":
        h.get(up[1], up[2])


def pair_run(g, group, st, x, y, n):
    """x stops at its n-th file operation while y runs; -> whether x has so many"""
    h, rng = g.h, g.rng
    b, k, k2 = g.bs[0], g.ks[0], g.ks[1]
    if group == "bucket":
        b = "third"
        ups = "tcomplete" in (x, y)
        if st != "none" or ups:
            h.createbucket(b)
        up = upload(g, b, k, 1) if ups else None
        if st == "full":
            h.put(b, k, content(g, 20), {"t": "1"})
        else:
            h.delete(b, k)
            if st == "none":
                h.deletebucket(b)
    else:
        if group == "dir":
            k, k2 = g.w.key("w"), g.w.key("w/x")
            h.delete(b, k)
            h.delete(b, k2)
            if st == "w":
                exists(g, b, k)
            elif st != "none":
                exists(g, b, k2)
                if st == "left":
                    h.delete(b, k2)
        else:
            if st == "gone":
                h.delete(b, k)
            else:
                exists(g, b, k)
            exists(g, b, k2)
        up = upload(g, b, k, 2) if "part" in (x, y) or "complete" in (x, y) else None
    if up is not None and not up[3] or up is None and ("part" in (x, y) or "complete" in (x, y) or "tcomplete" in (x, y)):
        return False
    ops = [pair_op(g, z, b, k, k2, up) for z in (x, y)]
    for a in ops:
        if a["op"] == "part":
            h.prepare(a)
    it = Inter(g)
    p, q = [it.start(a) for a in ops]
    it.run(p, n, 500)
    more = p["state"] == "paused"
    it.run(q, 0, 6)
    it.finish()
    h.hit += 1
    h.list(b, v=rng.choice([1, 2]))
    if group == "bucket":
        h.listbuckets()
    h.get(b, k)
    if up:
        settle(g, up)
    if group != "bucket":
        h.get(b, k2)
        if rng.random() < 0.3:
            h.head(b, k)
    return more


def sc_pairs(g, pairs, budget, most, keep):
    """pairs: those that are left, taken from the end"""
    h = g.h
    setup(g, 2)
    done = 0
    while pairs and done < most and time.time() < budget:
        group, st, x, y, n = pairs.pop()
        if pair_run(g, group, st, x, y, n) and n < 40:
            pairs.append((group, st, x, y, n + 1 + (g.rng.random() > keep)))
        done += 1


ASPECTS = ["st", "code", "uid", "report", "range", "denied"]
OPASPECTS = on(["get", "head"], ["body", "meta", "len", "etag", "mtime"]) + on(["list"], ["list", "order", "size", "count"]) + \
    on(["listbuckets"], ["list"]) + on(["put", "form", "part", "complete", "copy"], ["etag"])


def world_hist(ex, w, rng, auth=False):
    h = FHist(w, ex, rng, auth)
    g = Gen(h, rng, keys=rng.choice(NAMES))
    return h, g


def work(pid, seed, part, n, quick):
    out = run.Out()
    w = store.World()
    ex = exe.Exec(shim=True)
    hists, dead = [], 0
    budget = time.time() + (60 if quick else 420)
    hits = doubled = 0
    pairs = []
    if pid == "C22":
        pairs = [p + (1,) for j, p in enumerate(random.Random("pairs%d" % seed).sample(PAIRS, len(PAIRS))) if j % 8 == part]
    try:
        for i in range(10000):
            if time.time() > budget or i >= n and not pairs:
                break
            rng = random.Random("%s-%d-%d-%d" % (pid, seed, part, i))
            h, g = world_hist(ex, w, rng, auth=pid == "C22")
            try:
                if pid == "C27":
                    ks = CHANGES + LOOKS
                    mine = [k for j, k in enumerate(ks) if j % 8 == (part + i) % 8]
                    sc_faults(g, mine, ["fail", "failall", "failrest", "short"], budget, 1 if quick else 1)
                elif pid == "C23":
                    mine = [k for j, k in enumerate(CHANGES) if j % 8 == (part + i) % 8]
                    sc_crash(g, mine, budget)
                elif i % 2 == 0 and pairs or i >= n:
                    sc_pairs(g, pairs, budget, 40, 1)
                else:
                    sc_inter(g, 12, budget)
            except store.Hang:
                dead += 1
            except NotStarted as e:
                out.violation("after a crash the server does not start: %s" % e, "nostart", {"requests": h.reqlog[-5:]})
                dead += 1
            except exe.Died as e:
                out.violation("the server process died: %s" % e, "died", {"requests": h.reqlog[-5:]})
                h.ex = exe.Exec(shim=True)
                dead += 1
            hists.append(h)
            hits += h.hit
            doubled += getattr(h, "doubled", 0)
            ex = h.ex
            try:
                h.shim("reset")
                h.shim("root /nonexistent")
            except exe.Died:
                h.ex = ex = exe.Exec(shim=True)
            ex.forget(h)
            if dead >= 2:
                break
    finally:
        ex.close()
    report(out, w, hists, ASPECTS, OPASPECTS)
    out.add(**{{"C22": "interleavings", "C23": "crashes", "C27": "failed_file_operations"}[pid]: hits})
    if pid == "C23":
        out.add(crashes_while_starting=doubled)
    return out


COUNTS = {"C22": (24, 600), "C23": (2, 16), "C27": (2, 16)}


def check(pid):
    def f(ctx):
        n = COUNTS[pid][0 if ctx.quick else 1]
        return run.parallel([(work, (pid, ctx.seed, p, n, ctx.quick)) for p in range(8)])
    return f
