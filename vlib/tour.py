"""Carries out the transitions of MC_Store's state graph on the real service.

TLC explores the model with small constants and prints every transition (state, request, outcome, state). A tour walks
along the transitions, requests as the model says, and the recorded history is judged by S3Trace.tla as all others are.
"""
import gzip, json, os, random, re, time
from . import exe, run, store, tlc

DIR = os.path.join(exe.VERIF, "spec", "graphs")
SEGS = [b"1", b"22", b"3thre", b"four-four"]
META = {"": {}, "m": {"color": "blue"}}


def derive(x):
    """the graph, as TLC finds it"""
    r = tlc.run("MC_Store" + x, cfg="MC_Store%sG" % x, heap="3g", timeout=900, light=False)
    if r.tool_error or not r.distinct or "Error:" in r.out:
        raise exe.ToolError("TLC failed on the model:\n" + r.out[-3000:])
    # (the first transition printed starts in the initial state, which gets number 0)
    states, acts, edges = {}, {}, set()
    for m in re.finditer(r'^"EDGE (.*)"$', r.out, re.M):
        e = json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))
        for s in (e["f"], e["t"]):
            if s not in states:
                states[s] = len(states)
        a = json.dumps(e["a"], sort_keys=True)
        if a not in acts:
            acts[a] = len(acts)
        edges.add((states[e["f"]], acts[a], e["o"], states[e["t"]]))
    # an order which does not depend on TLC's
    so = {states[s]: i for i, s in enumerate(sorted(states, key=lambda s: (states[s] != 0, len(s), s)))}
    ao = {acts[a]: i for i, a in enumerate(sorted(acts))}
    src = open(os.path.join(tlc.SPEC, "MC_Store%s.tla" % x)).read()
    names = json.loads("[" + re.search(r"Names == <<(.*)>>", src).group(1) + "]")
    return {"names": names, "states": list(range(len(states))), "acts": sorted(acts),
            "edges": sorted([so[f], ao[a], o, so[t]] for f, a, o, t in edges), "wall": round(r.wall, 1), "distinct": r.distinct}


def save(x, g):
    os.makedirs(DIR, exist_ok=True)
    g = {k: g[k] for k in ("names", "states", "acts", "edges")}
    g["states"] = len(g["states"])
    with open(os.path.join(DIR, x + ".json.gz"), "wb") as f:
        f.write(gzip.compress(json.dumps(g, separators=(",", ":")).encode(), 9, mtime=0))


def load(x):
    g = json.loads(gzip.decompress(open(os.path.join(DIR, x + ".json.gz"), "rb").read()))
    g["states"] = list(range(g["states"]))
    return g


# ---- walking ------------------------------------------------------------------------------------
SEGNAMES = ["a", "d", "e", "p", "k", "o", "a b", "+", "%41", "\u00fc", "\u4e16\u754c", "~x", "A", ".h", "...", "x.y", "-", "=&", "q?", "#1", "'\"", "*"]
READS = ("get", "head", "list", "listbuckets", "headbucket", "location")


class Graph:
    def __init__(self, g):
        self.names, self.acts = g["names"], [json.loads(a) for a in g["acts"]]
        self.next = {}              # state -> [(action, outcome, state)]
        for f, a, o, t in g["edges"]:
            self.next.setdefault(f, []).append((a, o, t))
        self.edges = g["edges"]

    def path(self, s, todo, blocked):
        """transitions to the nearest state which has some left to do"""
        seen, q, i = {s: None}, [s], 0
        while i < len(q):
            x = q[i]
            i += 1
            if todo.get(x):
                out = []
                while seen[x]:
                    p, a = seen[x]
                    out.append(a)
                    x = p
                return out[::-1]
            for a, o, t in self.next[x]:
                if t not in seen and o != "err" and (x, a) not in blocked:
                    seen[t] = (x, a)
                    q.append(t)
        return None


class Walk:
    """one history along the transitions of a graph"""

    def __init__(self, g, h, rng):
        self.g, self.h, self.rng, w = g, h, rng, h.w
        self.state = 0
        segs = sorted({x for n in g.names for x in n.split("/")})
        new = dict(zip(segs, segs))
        if rng.random() < 0.7 and not any(x != y and x.startswith(y) for x in segs for y in segs):
            new = dict(zip(segs, rng.sample(SEGNAMES, len(segs))))
        self.new = new
        self.names = ["/".join(new[x] for x in n.split("/")) for n in g.names]
        self.ks = [w.key(n) for n in self.names]
        self.seg = {i: w.seg(b"%d" % i + rng.randbytes(rng.choice([0, 1, 2, 7, 100, 4096, 9000]))) for i in (1, 2, 3)}
        self.meta = {"": {}, "m": rng.choice([{"color": "blue"}, {"a": "1", "b": "2"}, {"x-y": "two words"}])}
        self.bs = dict(bkt="bkt", b2x="b2x")
        if rng.random() < 0.4:
            self.bs = dict(zip(("bkt", "b2x"), rng.choice([("b.a", "b-a"), ("x" * 63, "x" * 62), ("bkt", "bkt0"), ("123", "1234")])))
        self.up = {}

    def content(self, c):
        return [x for i in c for x in self.seg[i]]

    def bogus(self):
        return self.rng.choice(["%032x" % self.rng.getrandbits(128), "1", "x/../y", "", "00000000-0000-4000-8000-%012x" % self.rng.getrandbits(48)]) or "u"

    def uid(self, u):
        if u == "bogus":
            live = [x for n, x in self.up.items() if n != "old"]
            if live and self.rng.random() < 0.4:
                x = self.rng.choice(live)
                return self.rng.choice([x[:-1], x + "0", x.upper() if x.upper() != x else x + "x", " " + x, x[:-1] + ("0" if x[-1] != "0" else "1")])
            return self.bogus()
        return self.up.get(u) or self.bogus()

    def request(self, a):
        h, rng = self.h, self.rng
        op = a["op"]
        b = self.bs[a["b"]] if "b" in a else None
        k = self.ks[a["k"] - 1] if "k" in a else None
        if op in ("put", "form", "part"):
            c = self.content(a["c"])
            if op == "part":
                r = h.part_a(self.uid(a["u"]), b, k, a["n"], c, md5=a["md5"])
            else:
                r = h.put_a(b, k, c, self.meta[a["m"]], md5=a["md5"])
                r["op"] = op
            n = len(h.w.bytes(c))
            if a["broken"]:
                r.update(broken=True, _keep=rng.randint(0, n), _how="err")
                if rng.random() < 0.3:
                    r["_chunked"] = rng.choice(["nofinal", "cut", "sig", "flip" if n else "sig", "err"])
            elif op != "form" and rng.random() < 0.15:
                r["_chunked"] = "good"
            if a["md5"] == "bad" and rng.random() < 0.3:
                r["md5"] = "invalid"
            return r
        if op in ("get", "head"):
            if op == "head":
                return dict(op="head", b=b, k=k)
            return h.get_a(b, k, bytes(a["range"]).decode() if a["hasrange"] else None)
        if op == "list":
            p = bytes(a["prefix"]).decode()
            p = "/".join(self.new.get(x, x) for x in p.split("/"))
            return h.list_a(b, p.encode(), v=a["v"], enc=rng.random() < 0.3)
        if op == "delete":
            return dict(op="delete", b=b, k=k)
        if op == "deletes":
            return dict(op="deletes", b=b, ks=[self.ks[i - 1] for i in a["ks"]], quiet=a["quiet"])
        if op == "copy":
            return h.copy_a(self.bs[a["sb"]], self.ks[a["sk"] - 1], b, k, a["replace"], self.meta[a["m"]])
        if op == "create":
            m = self.meta[a["m"]]
            return dict(op="create", b=b, k=k, m=store.canon_meta(m), _meta=m)
        if op == "complete":
            ps = [{"n": p["n"], "e": p["e"], "c": self.content(p["c"])} for p in a["parts"]]
            return h.complete_a(self.uid(a["u"]), b, k, ps)
        return dict(op=op, b=b) if b else dict(op=op)

    def step(self, ai):
        """carry out an action; -> the transition that was taken, or None if the model has none like it"""
        a = self.g.acts[ai]
        r = self.h.do(self.request(a))
        for x, o, t in self.g.next[self.state]:
            if x == ai and o.split(":")[0] == r["st"]:
                if o.startswith("ok:"):
                    self.up[o[3:]] = r["u"]
                if a["op"] == "complete" and r["st"] == "ok":
                    self.up["old"] = self.up.pop(a["u"])
                f, self.state = self.state, t
                return (f, x, o, t)
        return None

    def look(self, n):
        """some reads"""
        h, rng = self.h, self.rng
        for _ in range(n):
            b, k = rng.choice(sorted(self.bs.values())), rng.choice(self.ks)
            i = rng.randint(0, 5)
            if i < 3:
                h.get(b, k)
            elif i == 3:
                h.head(b, k)
            elif i == 4:
                h.list(b, v=rng.choice([1, 2]))
            else:
                h.listbuckets()

    def finish(self):
        h = self.h
        h.sweep(sorted(self.bs.values()), self.ks, heads=True)
        for n, u in sorted(self.up.items()):
            for b in self.bs.values():
                for k in self.ks:
                    for ns in ([1, 2], [1], [2]):
                        r = h.complete(u, b, k, [{"n": i, "e": "none", "c": []} for i in ns])
                        if r["st"] == "ok":
                            h.get(b, k)
                            break


def tour(ex, w, g, want, rng, part, parts, limit, budget, length=220):
    """histories which take the wanted transitions of a graph; -> (histories, number taken, number wanted)"""
    todo, mine = {}, 0
    for f, a, o, t in g.edges:
        if want(g.acts[a], o, f != t) and (f * 31 + a) % parts == part:
            todo.setdefault(f, set()).add(a)
            mine += 1
    if limit and mine > limit:
        # the same number of all kinds
        by = {}
        for f, xs in todo.items():
            for a in xs:
                by.setdefault((g.acts[a]["op"], g.acts[a].get("u")), []).append((f, a))
        todo, n = {}, 0
        for v in by.values():
            rng.shuffle(v)
        while n < limit and by:
            for k in sorted(by, key=str):
                f, a = by[k].pop()
                todo.setdefault(f, set()).add(a)
                n += 1
                if n >= limit:
                    break
                if not by[k]:
                    del by[k]
    wanted = sum(len(x) for x in todo.values())
    hists, done, blocked = [], set(), set()
    t0 = time.time()
    while any(todo.values()) and time.time() - t0 < budget:
        h = store.Hist(w, ex, rng)
        hists.append(h)
        wk = Walk(g, h, rng)
        try:
            while len(h.ev) < length:
                acts = todo.get(wk.state)
                if acts:
                    # those first that stay here
                    a = min(acts, key=lambda a: (any(x == a and t != wk.state for x, _, t in g.next[wk.state]), rng.random()))
                    f = wk.state
                    acts.discard(a)
                    r = wk.step(a)
                    if r is None:
                        break
                    done.add(r)
                    if g.acts[a]["op"] not in READS and (f != wk.state or rng.random() < 0.3):
                        wk.look(rng.randint(1, 2))
                    continue
                p = g.path(wk.state, todo, blocked)
                if p is None:
                    if wk.state == 0:
                        return hists, len(done), wanted
                    break
                stuck = False
                for a in p:
                    f = wk.state
                    r = wk.step(a)
                    if r is None:
                        stuck = True
                        break
                    done.add(r)
                    if wk.state == f:
                        # refused, as it may be: the model allows both
                        blocked.add((f, a))
                        break
                if stuck:
                    break
            wk.finish()
        except store.Hang:
            return hists, len(done), wanted
        ex.forget(h)
    return hists, len(done), wanted
