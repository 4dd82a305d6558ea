"""What requests leave behind (C31): files, space and descriptors after histories with refused, broken and abandoned requests,
judged by S3Trace.tla (SpaceWrong)."""
import os, random, time
from . import exe, run, store
from .gen import Gen
from .pstore import mix, on, refused, report, zone
from .pfault import NAMES, FHist, sweep, some_ops

WAIT = 15000


def files(root):
    n = size = 0
    for d, _, fs in os.walk(root):
        for f in fs:
            try:
                size += os.lstat(os.path.join(d, f)).st_size
                n += 1
            except OSError:
                pass
    return n, size


def space(g, calm=0.25):
    """what is occupied, when nothing happens any more"""
    h = g.h
    last, since, end = None, 0, time.time() + 10
    while time.time() < end:
        now = files(h.root) + (h.ex.cmd(cmd="usage")["fds"],)
        if now != last:
            last, since = now, time.time()
        elif time.time() - since > calm:
            break
        time.sleep(0.03)
    h.add(dict(op="space"), dict(st="ok", files=last[0], bytes=last[1], fds=last[2], base=g.base))
    h.spaces += 1


def content(g):
    n = g.rng.choice([0, 10, 5000, 9000, 20000, 40000, 70000]) if g.pin is None or g.rng.random() < 0.2 else g.pin
    return g.w.seg(g.rng.randbytes(n))


KINDS = ["put", "put", "form", "chunked", "part", "part", "complete", "copy", "get"]


def change(g, kind=None):
    """an operation with a large body, or that handles one"""
    rng, h = g.rng, g.h
    b, k = g.bs[0], rng.choice(g.ks)
    kind = kind or rng.choice(KINDS)
    up = rng.choice(g.ups) if g.ups else None
    if kind == "part" and up:
        return h.part_a(up[0], up[1], up[2], rng.choice([1, 2, 3]), content(g)), up
    if kind == "complete" and up and up[3]:
        return h.complete_a(up[0], up[1], up[2], [{"n": n, "e": "none", "c": []} for n in sorted(up[3])]), up
    if kind == "copy" and g.live:
        o = rng.choice(sorted(g.live))
        return h.copy_a(o[0], o[1], b, k, rng.random() < 0.4, g.meta()), None
    if kind == "get" and g.live:
        o = rng.choice(sorted(g.live))
        return h.get_a(*o), None
    a = h.put_a(b, k, content(g), g.meta())
    if kind == "form":
        a["op"] = "form"
    elif kind == "chunked":
        a["_chunked"] = "good"
    return a, None


def learn(g, a, up, r):
    h = g.h
    if r["st"] != "ok":
        return
    if a["op"] == "part":
        up[3].setdefault(a["n"], []).append(a["c"])
    elif a["op"] == "complete":
        g.ups = [u for u in g.ups if u[0] != up[0]]
        g.live.add((a["b"], a["k"]))
    elif a["op"] in ("put", "form", "copy"):
        g.live.add((a["b"], a["k"]))


def abandon(g, kind, at):
    """a request whose client goes away, at a point of its body, before the response is read, or while the server is at its n-th
    file operation"""
    rng, h = g.rng, g.h
    if kind in ("part", "complete") and not g.ups:
        g.s_create()
        g.s_part()
    a, up = change(g, kind)
    h.prepare(a)
    req = h.make(a)
    i = "a%d" % len(h.ev)
    how = rng.choice(["body", "file", "file", "file"]) if a["op"] != "get" else "response"
    held = False
    if how == "response":
        h.ex.cmd(cmd="begin", id=i, hold=True, **req)
        h.ex.cmd(cmd="wait", id=i, timeout=WAIT, head=True)
        if rng.random() < 0.5:
            h.ex.cmd(cmd="credit", id=i, n=rng.randint(1, 5))
    elif how == "body" and req.get("frames"):
        fs = req.pop("frames")
        h.ex.cmd(cmd="begin", id=i, open=True, frames=[], **req)
        n = rng.randint(0, len(fs) - 1)
        for f in fs[:n]:
            h.ex.cmd(cmd="feed", id=i, frames=[f], end=False)
        h.ex.cmd(cmd="wait", id=i, timeout=rng.choice([1, 20, 60]), idle=True)
    else:
        h.shim("plan pause %d" % (at if rng.random() < 0.8 else rng.choice([1, 2, 3, 4, 5, 6, 8, 12])))
        h.ex.cmd(cmd="begin", id=i, **req)
        end = time.time() + 1
        while time.time() < end:
            if not h.ex.cmd(cmd="wait", id=i, timeout=1).get("pending"):
                break
            if h.shim("paused").split():
                held = True
                break
    h.ex.cmd(cmd="cancel", id=i)
    if held:
        if rng.random() < 0.5:
            time.sleep(0.01)
        h.shim("go")
    v = h.ex.cmd(cmd="wait", id=i, timeout=WAIT)
    h.shim("go")
    h.shim("reset")
    h.ex.cmd(cmd="forget", id=i)
    h.abandoned += 1
    if a["op"] != "get":
        h.ev.append(dict(t="call", id=i, a=store.clean(a), r={"st": "lost"}))
        h.ev.append(dict(t="crash"))          # nobody knows, until it is read
    h.reqlog.append([len(h.ev) - 1, dict(store.short(req), abandoned=how), store.brief(v)])
    if v.get("pending"):
        raise store.Hang("a cancelled request goes on")
    if a["op"] == "complete":
        g.ups = [u for u in g.ups if u[0] != up[0]]
    elif a["op"] == "part":
        # the part has a known content again
        c = content(g)
        if h.part(up[0], up[1], up[2], a["n"], c)["st"] == "ok":
            up[3].setdefault(a["n"], []).append(c)
    if a["op"] in ("put", "form", "copy", "complete"):
        g.live.add((a["b"], a["k"]))
    if a["op"] != "get":
        h.get(a["b"], a["k"])
    if rng.random() < 0.2:
        space(g)


def clear(g):
    """delete what there is"""
    h = g.h
    for b in g.bs:
        ks = [o[1] for o in sorted(g.live) if o[0] == b]
        if g.rng.random() < 0.5:
            for k in ks:
                h.delete(b, k)
        elif ks:
            h.deletes(b, ks, quiet=g.rng.random() < 0.5)
    g.live.clear()


def sc(g):
    h, rng = g.h, g.rng
    h.quiet = True
    g.pin = None
    g.start()
    for k in g.ks:
        h.put(g.bs[0], k, content(g), g.meta())
        g.live.add((g.bs[0], k))
    h.quiet = False
    if g.base is None:
        h.get(g.bs[0], g.ks[0])
        g.base = h.ex.cmd(cmd="usage")["fds"]
    for rd in range(4):
        while len(g.ups) < 2:
            g.s_create()
            g.s_part()
        focus = rng.choice(["broken", "refused", "abandon", "abandon", "abandon", "abandon", "repeat", "repeat", "mix", "uploads", "uploads"])
        g.pin = rng.choice([None, 0, 0, 5000, 20000])
        if focus == "broken":
            for _ in range(8):
                g.s_broken()
                if rng.random() < 0.5:
                    g.s_md5()
        elif focus == "refused":
            for _ in range(14):
                refused(g)
        elif focus == "abandon":
            kind, at = rng.choice(KINDS), rng.randint(1, 12)
            for _ in range(8):
                abandon(g, kind, at)
        elif focus == "uploads":
            for _ in range(8):
                g.s_create()
                if g.ups:
                    up = g.ups[-1]
                    for n in rng.sample(range(1, 12), rng.randint(1, 4)):
                        c = content(g)
                        if h.part(up[0], up[1], up[2], n, c)["st"] == "ok":
                            up[3].setdefault(n, []).append(c)
                    # some of the parts
                    ns = sorted(rng.sample(sorted(up[3]), rng.randint(1, len(up[3])))) if up[3] else []
                    if ns and h.complete(up[0], up[1], up[2], [{"n": n, "e": "none", "c": []} for n in ns])["st"] == "ok":
                        g.ups.pop()
                        g.live.add((up[1], up[2]))
        elif focus == "repeat":
            a, up = change(g)
            for _ in range(8):
                if a["op"] == "complete":
                    a, up = change(g)
                if "c" in a and rng.random() < 0.7:
                    a = dict(a, c=content(g))
                learn(g, a, up, h.do(dict(a)))
        else:
            g.run(mix(mark=0, near=0), 12)
        if rng.random() < 0.3:
            g.run(mix(mark=0, near=0), 5)
        space(g, 0.4 if focus == "abandon" else 0.25)
        if rng.random() < 0.6:
            clear(g)
            space(g)
    clear(g)
    space(g)
    sweep(g)


ASPECTS = ["space", "files", "fds", "st", "uid", "report"]
OPASPECTS = on(["get"], ["body", "meta"])


def work(pid, seed, part, n, quick):
    out = run.Out()
    w = store.World()
    ex = exe.Exec(shim=True)
    hists, dead, spaces, gone, base, t0 = [], 0, 0, 0, None, time.time()
    try:
        for i in range(n):
            if time.time() - t0 > (90 if quick else 500) and i:
                break
            rng = random.Random("%s-%d-%d-%d" % (pid, seed, part, i))
            h = FHist(w, ex, rng)
            h.spaces = h.abandoned = 0
            try:
                g = Gen(h, rng, keys=rng.choice(NAMES))
                g.base = base
                sc(g)
                base = g.base
            except store.Hang:
                dead += 1
            except exe.Died as e:
                out.violation("the server process died: %s" % e, "died", {"requests": h.reqlog[-5:]})
                ex = exe.Exec(shim=True)
                base = None
                dead += 1
            spaces += h.spaces
            gone += h.abandoned
            hists.append(h)
            if dead >= 3:
                break
            ex.forget(h)
    finally:
        ex.close()
    report(out, w, hists, ASPECTS, OPASPECTS)
    out.add(measurements=spaces, abandoned_requests=gone)
    return out


def check(pid):
    def f(ctx):
        n = 8 if ctx.quick else 90
        return run.parallel([(work, (pid, ctx.seed, p, n, ctx.quick)) for p in range(8)])
    return f
