"""Properties of the store: random and model-generated histories, judged by S3Trace.tla."""
import base64, json, random, time
from . import exe, gen, judge, run, store, tlc, tour
from .gen import Gen

MIX = dict(put=6, get=2, range=1, head=1, list=2, delete=2, deletes=1, copy=3, create=1, part=3, complete=2, badupload=1,
           badpart=.3, buckets=.6, md5=.6, gone=.8, broken=.8, mark=.3, near=.5, busy=.3)


def mix(**kw):
    d = dict(MIX)
    d.update(kw)
    return {k: v for k, v in d.items() if v}


# ---- scenarios: each makes one history ------------------------------------------------------
def sc_c01(g):
    g.start()
    w = mix(put=10, get=4, head=0, list=0, range=0, md5=0, badpart=0, broken=.5, part=1, complete=.7, mark=1)
    g.run(w, 25)
    for k in g.ks:
        for b in g.bs:
            g.h.get(b, k)


def sc_c02(g):
    rng, h = g.rng, g.h
    h.quiet = True
    g.start(both=rng.random() < 0.8)
    g.run(mix(put=8, get=0, range=0, list=0, head=0, badupload=0, badpart=0, gone=0, broken=0, buckets=.3), 12)
    if not g.ups:
        g.s_create()
    for _ in range(rng.randint(1, 3)):
        g.s_part()
    for _ in range(4):
        h.quiet = True
        g.sweep(heads=True)
        for _ in range(rng.randint(1, 3)):
            refused(g)
        # what happened to the uploads is seen when they are completed, at the end
        h.quiet = False
        g.sweep(heads=True)
    g.probe_uploads()
    g.sweep()


def refused(g):
    """a request that has to be refused, for one of many reasons"""
    rng, h, w = g.rng, g.h, g.w
    b, k = g.target()
    kind = rng.randint(0, 16)
    if kind == 0:
        g.s_gone()
    elif kind == 1:
        g.s_badupload()
    elif kind == 2:
        g.s_broken()
    elif kind == 3:
        up = g.some_upload()
        if rng.random() < 0.5 and up:
            h.part(up[0], up[1], up[2], rng.choice(sorted(up[3]) or [1]), g.content(), md5=rng.choice(["bad", "invalid"]))
        else:
            h.put(b, k, g.content(), g.meta(), md5=rng.choice(["bad", "invalid"]))
    elif kind == 4:
        g.s_badpart()
    elif kind == 5:
        # a completion that is refused
        up = g.some_upload()
        if up and up[3]:
            ps = bad_parts(g, up)
            h.complete(up[0], up[1], up[2], ps)
    elif kind == 6:
        # a key that can not be stored
        k2 = w.key(rng.choice([x for x in gen.HOSTILE if not x.endswith("/")] + ["K" * 1025, "z" * 3000, "n" * 256,
                               w.kb(k).decode("utf-8", "ignore") + "/" + "o" * 300]))
        rng.choice([lambda: h.put(b, k2, g.content(), g.meta()), lambda: h.form(b, k2, g.content(), g.meta()) if printable(w, k2) else None,
                    lambda: h.copy(b, k, b, k2), lambda: h.copy(b, k2, b, k), lambda: h.create(b, k2, g.meta()), lambda: h.delete(b, k2),
                    lambda: h.get(b, k2)])()
    elif kind == 7:
        # a name conflict
        kb = w.kb(k).decode("utf-8", "ignore")
        k2 = w.key(rng.choice([kb + "/x", kb + "/x/y", kb.split("/")[0]]))
        if store_ok(w, k2):
            r = rng.choice([lambda: h.put(b, k2, g.content(), g.meta()), lambda: h.copy(b, k, b, k2), lambda: h.form(b, k2, g.content(), g.meta())
                            if printable(w, k2) else {"st": "err"}])()
            if r["st"] == "ok":
                h.delete(b, k2)
    elif kind in (8, 9):
        # not signed correctly
        a = some_change(g)
        req = h.make(a)
        h.refuse(h.sign(req, rng.choice(["bad", "secret", "key", "none", "payload" if has_body(req) else "bad"]),
                        presign=rng.random() < 0.3 and not has_body(req)))
    elif kind == 10:
        h.createbucket(rng.choice(g.bs))
    elif kind == 11:
        if g.live:
            h.deletebucket(rng.choice(sorted(g.live))[0])
    elif kind == 12:
        # not implemented, or malformed
        p = h.path(b, k)
        pb = h.path(b)
        body = [exe.b64(b"<x")]
        h.refuse(rng.choice([
            dict(method="PUT", uri=p + "?acl", frames=[]), dict(method="PUT", uri=p + "?tagging", frames=[exe.b64(b"<Tagging/>")]),
            dict(method="DELETE", uri=p + "?tagging"), dict(method="DELETE", uri=pb + "?policy"), dict(method="DELETE", uri=pb + "?lifecycle"),
            dict(method="PUT", uri=pb + "?versioning", frames=body), dict(method="POST", uri=pb + "?delete", frames=body),
            dict(method="POST", uri=pb + "?delete", frames=[exe.b64(b"<Delete><Object><Key>a")]),
            dict(method="POST", uri=pb + "?delete", frames=[]),
            dict(method="POST", uri=p + "?uploadId=" + (g.ups[0][0] if g.ups else "x"), frames=body),
            dict(method="POST", uri=p), dict(method="PATCH", uri=p), dict(method="POST", uri=pb),
            dict(method="PUT", uri="/UPPER"), dict(method="PUT", uri="/a"), dict(method="DELETE", uri="/"),
            dict(method="PUT", uri=p, headers=[["x-amz-copy-source", rng.choice(["", "x", "/", "bkt", "bkt/", "%ff/x"])]]),
            dict(method="PUT", uri=p + "?partNumber=x&uploadId=y", frames=[]),
            dict(method="DELETE", uri=p + "?uploadId=" + (g.ups[0][0] if g.ups else "x")),
            dict(method="POST", uri=pb, headers=[["content-type", "multipart/form-data; boundary=x"]], frames=[exe.b64(b"--x\r\n")]),
        ]))
    elif kind in (14, 15, 16):
        # a change with a parameter that makes no sense: it happens entirely or not at all
        a = some_change(g)
        r = h.do(dict(a, fault=True, _more=odd_headers(rng)))
        if r["st"] == "ok":
            track(g, a, r)
    else:
        # a range that can not be read
        h.get(b, k, rng.choice(["bytes=9999999-", "bytes=-0", "bytes=a-b"]))


def odd_headers(rng):
    junk = ["", "x", "maybe", "true", "-1", "1e9", "GLACIER", "STANDARD", "REDUCED_REDUNDANCY", "standard", "*", "\"abc\"", "a=b", "a", "2026-13-45T00:00:00Z", "Fri, 20 Nov 2026 01:33:49 GMT",
            "aws:kms", "COPY", "FOO", "requester", "public-read", "999999999999", "{}", "AAAA", "\u00e9"]
    names = ["x-amz-acl", "x-amz-server-side-encryption-bucket-key-enabled", "x-amz-bypass-governance-retention", "x-amz-bucket-object-lock-enabled",
             "x-amz-expected-bucket-owner", "x-amz-source-expected-bucket-owner", "x-amz-tagging", "x-amz-object-lock-mode", "x-amz-object-lock-retain-until-date",
             "x-amz-object-lock-legal-hold", "expires", "if-match", "if-none-match", "if-modified-since", "content-encoding", "content-type", "cache-control",
             "x-amz-website-redirect-location", "x-amz-request-payer", "x-amz-server-side-encryption", "x-amz-server-side-encryption-context",
             "x-amz-server-side-encryption-customer-algorithm", "x-amz-mfa", "x-amz-grant-read", "x-amz-copy-source-if-match", "x-amz-copy-source-if-none-match",
             "x-amz-tagging-directive", "range", "x-amz-date", "x-amz-decoded-content-length", "expect", "origin"]
    hs = [[n, rng.choice(junk)] for n in rng.sample(names, rng.choice([0, 1, 1, 2]))]
    if not hs or rng.random() < 0.3:
        hs.append(["x-amz-storage-class", rng.choice(["GLACIER", "", "standard", "STANDARD ", "DEEP_ARCHIVE", "x", "STANDARD", "REDUCED_REDUNDANCY", "reduced_redundancy"])])
    return hs


def track(g, a, r):
    """what the generator has to know about a change that happened"""
    if a["op"] in ("put", "copy"):
        g.live.add((a["b"], a["k"]))
    elif a["op"] == "delete":
        g.live.discard((a["b"], a["k"]))
    elif a["op"] == "deletes":
        for k in a["ks"]:
            g.live.discard((a["b"], k))
    elif a["op"] == "complete":
        g.live.add((a["b"], a["k"]))
        g.ups[:] = [u for u in g.ups if u[0] != a["u"]]


def has_body(req):
    return bool(req.get("frames"))


def printable(w, k):
    b = w.kb(k)
    return all(c >= 32 for c in b)


def store_ok(w, k):
    return all(s not in (b"", b".", b"..") for s in w.kb(k).split(b"/"))


def bad_parts(g, up):
    rng = g.rng
    ns = sorted(up[3])
    good = [{"n": n, "e": "some", "c": up[3][n][-1]} for n in ns]
    kind = rng.randint(0, 5)
    if kind == 0:
        return []
    if kind == 1:
        n = rng.choice([x for x in (1, 2, 3, 4, 5, 10000) if x not in ns])
        return sorted(good + [{"n": n, "e": rng.choice(["none", "bogus"]), "c": []}], key=lambda p: p["n"])
    if kind == 2 and len(good) > 1:
        return good[::-1]
    if kind == 3:
        good[-1] = {"n": good[-1]["n"], "e": "bogus", "c": []}
        return good
    if kind == 4:
        return good + [dict(good[-1])]
    old = [(n, c) for n in ns for c in up[3][n][:-1] if c != up[3][n][-1]]
    if old:
        n, c = rng.choice(old)
        return [dict(p, c=c) if p["n"] == n else p for p in good]
    good[0] = {"n": good[0]["n"], "e": "bogus", "c": []}
    return good


def some_change(g):
    """an operation that would change something, as arguments"""
    rng, h = g.rng, g.h
    b, k = g.target()
    while True:
        i = rng.randint(0, 8)
        if i == 0:
            return dict(op="createbucket", b="zz-new")
        if i == 1:
            return h.put_a(b, k, g.content(), g.meta())
        if i == 2:
            return dict(op="delete", b=b, k=k)
        if i == 3 and not g.need_enc():
            return dict(op="deletes", b=b, ks=[k], quiet=False)
        if i == 4:
            return h.copy_a(b, k, g.b(), g.k())
        if i == 5 and g.ups:
            u = rng.choice(g.ups)
            return h.part_a(u[0], u[1], u[2], 1, g.content())
        if i == 6:
            return dict(op="create", b=b, k=k, m="", _meta={})
        if i == 7 and [u for u in g.ups if u[3]]:
            u = rng.choice([u for u in g.ups if u[3]])
            return h.complete_a(u[0], u[1], u[2], [{"n": n, "e": "none", "c": []} for n in sorted(u[3])])
        if i == 8:
            return dict(op="deletebucket", b=rng.choice(g.bs))


def sc_c03(g):
    """uploads that do not end well, and readers while they are going on"""
    rng, h, w = g.rng, g.h, g.w
    g.start()
    h.quiet = True
    for _ in range(4):
        g.s_put()
    g.s_create()
    for _ in range(3):
        g.s_part()
    h.quiet = False
    g.sweep(heads=True)
    for _ in range(4):
        if rng.random() < 0.5:
            g.s_broken()
            b = g.bs[0]
        else:
            slow_upload(g)
        g.sweep(heads=rng.random() < 0.3)
    g.probe_uploads()
    g.sweep()


def vanish(g, b):
    """a bucket goes away, and perhaps comes back"""
    h, rng = g.h, g.rng
    for b2, k in sorted(g.live):
        if b2 == b:
            h.delete(b, k)
            g.live.discard((b2, k))
    r = h.deletebucket(b)
    if r["st"] != "ok":
        # something is in it that this history does not know of
        return
    for u in [u for u in g.ups if u[1] == b]:
        g.ups.remove(u)
        g.oldups.append(u)
    if rng.random() < 0.4:
        h.createbucket(b)
    elif rng.random() < 0.5:
        h.headbucket(b)
    if rng.random() < 0.3:
        h.listbuckets()


def meanwhile(g, b, k, up):
    """other requests during an upload to b, k"""
    h, rng = g.h, g.rng
    x = rng.random()
    if x < 0.2:
        vanish(g, b)
    elif x < 0.35:
        h.put(b, k, g.content(), g.meta())
        h.get(b, k)
    elif x < 0.5:
        h.delete(b, k)
        g.live.discard((b, k))
    elif x < 0.65 and up:
        h.complete(up[0], up[1], up[2], [{"n": n, "e": "none", "c": []} for n in sorted(up[3])])
        h.get(up[1], up[2])
    elif x < 0.8 and up:
        g.s_part_of(up, rng.choice(sorted(up[3]) or [1]))
    else:
        g.run(mix(broken=0, busy=0, md5=0), rng.randint(1, 4))


def slow_upload(g, end=None, kind=None, pause=0, busy=0):
    """the client sends the body slowly; in between everything is read (or time passes); then it ends in some way"""
    rng, h, w = g.rng, g.h, g.w
    b, k = g.target()
    c = g.content()
    up = None
    kind = kind or rng.choice(["put", "put", "part", "form", "chunked"])
    if kind == "part" or (kind == "chunked" and rng.random() < 0.3):
        up = g.some_upload()
    if up:
        n = rng.choice(sorted(up[3]) or [1])
        a = h.part_a(up[0], up[1], up[2], n, c)
    else:
        a = h.put_a(b, k, c, g.meta())
        if kind == "form":
            a["op"] = "form"
    if kind == "chunked":
        a["_chunked"] = "good"
    end = end or rng.choice(["finish", "err", "cancel", "cancel", "err", "eof"])
    h.prepare(a)
    req = h.make(a)
    frames = req.pop("frames")
    if len(frames) < 2:
        whole = b"".join(base64.b64decode(f) for f in frames)
        x = rng.randint(0, len(whole))
        frames = [exe.b64(whole[:x]), exe.b64(whole[x:])]
    cut = rng.randint(1, len(frames) - 1) if end != "finish" else len(frames)
    if end != "finish" and kind in ("form", "chunked"):
        # not the whole terminator
        size = lambda f: len(base64.b64decode(f))
        total = sum(map(size, frames))
        while cut and sum(map(size, frames[:cut])) > total - 40:
            cut -= 1
    rid = "u%d" % h.ex.n
    h.ex.cmd(cmd="begin", id=rid, open=True, frames=[], **req)
    done, pos = 0, len(h.ev)
    for i in range(cut):
        h.ex.cmd(cmd="feed", id=rid, frames=[frames[i]], end=False)
        if pause and i + 1 < len(frames):
            h.ex.cmd(cmd="wait", id=rid, timeout=100, idle=True)
            time.sleep(pause)
            pause = 0
        if i + 1 < len(frames) and rng.random() < 0.5 and done < 2:
            done += 1
            v = h.ex.cmd(cmd="wait", id=rid, timeout=100, idle=True)
            if "status" in v:
                break
            if rng.random() < busy:
                meanwhile(g, b, k, up)
            else:
                g.sweep()
    a["broken"] = end != "finish"
    if end == "finish":
        h.ex.cmd(cmd="feed", id=rid, frames=[], end=True)
    elif end == "err":
        h.ex.cmd(cmd="feed", id=rid, frames=[{"err": 1}], end=True)
    elif end == "eof" and kind in ("form", "chunked"):
        h.ex.cmd(cmd="feed", id=rid, frames=[], end=True)
    else:
        end = "cancel"
    if end == "cancel":
        h.ex.cmd(cmd="wait", id=rid, timeout=100, idle=True)
        h.ex.cmd(cmd="cancel", id=rid)
        r = {"st": "lost"}
        # if the whole body was already received it may have been stored
        v = {}
        if cut == len(frames):
            a["broken"] = False
    else:
        v = h.ex.cmd(cmd="wait", id=rid, timeout=15000)
        if v.get("pending"):
            h.reqlog.append([len(h.ev), store.short(req), "no response"])
            raise store.Hang("upload")
        r = h.parse(a, v)
    h.ex.cmd(cmd="forget", id=rid)
    if busy and len(h.ev) > pos:
        # it may take effect at any time in between
        h.ev.insert(pos, dict(t="call", id=pos, a=store.clean(a), r=store.clean(r)))
        h.ev.append(dict(t="ret", id=pos))
    else:
        h.add(a, r)
    h.reqlog.append([len(h.ev) - 1, dict(store.short(req), end=end, cut=cut), store.brief(v)])
    if r["st"] == "ok":
        if up:
            up[3].setdefault(a["n"], []).append(c)
        else:
            g.live.add((b, k))


def s_busy(g):
    """an upload during which other things happen"""
    if not g.h.quiet:
        slow_upload(g, end=g.rng.choice(["finish", "finish", "finish", "err"]), busy=1)
        g.h.createbucket(g.bs[0])


Gen.s_busy = s_busy


def sc_c04(g):
    g.start()
    w = mix(put=6, get=1, range=0, list=0, md5=.3, copy=5, delete=3, deletes=2, create=2, part=3, complete=3, buckets=1.5, broken=.4, head=1)
    for _ in range(5):
        g.run(w, 7)
        for b, k in sorted(g.live):
            g.h.get(b, k)
            if g.rng.random() < 0.5:
                g.h.head(b, k)
    # a bucket of the same name again
    for b in g.bs:
        for k in g.ks:
            g.h.delete(b, k)
        g.h.deletebucket(b)
        g.h.createbucket(b)
    for k in g.ks:
        g.h.put(g.bs[0], k, g.content(), {} if g.rng.random() < 0.7 else g.meta())
        g.h.get(g.bs[0], k)


def sc_c05(g):
    g.start()
    w = mix(list=8, get=0, range=0, head=0, md5=0, badpart=0, broken=.6, create=1.5, buckets=1)
    g.run(w, 30)
    for b in g.bs:
        for v in (1, 2):
            if not g.need_enc():
                g.h.list(b, v=v)
            g.h.list(b, v=v, enc=True)
    g.h.listbuckets()


def large_c05(g):
    """more objects than one page of S3 has"""
    rng, h, w = g.rng, g.h, g.w
    g.start(both=True)
    b, c = g.bs[:2], [g.content() for _ in range(3)]
    keys = [w.key("%s%s%d" % (rng.choice(["", "a/", "b/c/", "b/d/", "z-"]), rng.choice("kKkKkKx-\u00e9\ud7ff\ue000\uff5e\U0001f600\U0010ffff"), i)) for i in range(1004)]
    for k in keys:
        h.put(b[0], k, rng.choice(c))
    for v in (1, 2):
        h.list(b[0], v=v)
        h.list(b[0], v=v, prefix=b"b/", enc=True)
        h.list(b[1], v=v)
    for k in rng.sample(keys, 3):
        h.delete(b[0], k)
    for v in (1, 2):
        h.list(b[0], v=v, enc=True)
        h.list(b[0], v=v, prefix=b"a/k")
    more = ["many-%d" % i for i in range(120)]
    for x in more:
        h.createbucket(x)
    h.listbuckets()
    for x in more[::7]:
        h.deletebucket(x)
    h.listbuckets()


def sc_c06(g):
    rng, h = g.rng, g.h
    g.start(both=rng.random() < 0.5)
    w = mix(busy=2, buckets=8, gone=4, put=4, get=1, range=0, head=0.3, md5=0, badpart=0, broken=0, delete=3, deletes=2, mark=.6, badupload=.3)
    for _ in range(6):
        g.run(w, 6)
        h.listbuckets()
        for b in g.bs + ["no-such", "missing.bucket", "b2x9"]:
            h.headbucket(b)
            if rng.random() < 0.5:
                h.location(b)
        for b, k in sorted(g.live):
            h.get(b, k)


def sc_c07(g):
    rng, h = g.rng, g.h
    g.start()
    w = dict(create=2, part=6, put=1, delete=.5, md5=.5, complete=1, badupload=.3)
    g.run(w, 10)
    for _ in range(3):
        u = g.h.create(*(g.target()), meta=g.meta())
        if u["st"] != "ok":
            continue
        up = [u["u"], u["b"], u["k"], {}]
        g.ups.append(up)
        ns = rng.sample([1, 2, 3, 4, 9, 10, 11, 99, 100, 1000, 9999, 10000], rng.randint(1, 6))
        for n in ns + rng.choices(ns, k=rng.randint(0, 2)):
            g.s_part_of(up, n)
            if rng.random() < 0.1:
                g.s_put()
        for _ in range(rng.randint(0, 2)):
            h.complete(up[0], up[1], up[2], bad_parts(g, up))
            h.get(up[1], up[2])
        r = h.complete(up[0], up[1], up[2], g.parts_of(up))
        h.get(up[1], up[2])
        h.head(up[1], up[2])
        if r["st"] == "ok":
            g.ups.remove(up)
            g.oldups.append(up)
    for b, k in sorted(g.live):
        h.get(b, k)


def large_c07(g):
    """more parts than one page of S3 has, and the largest part numbers"""
    rng, h = g.rng, g.h
    g.start()
    b, k = g.target()
    u = h.create(b, k, meta=g.meta())
    up = [u["u"], b, k, {}]
    ns = sorted(rng.sample(range(1, 10001), 1005)) + [10000]
    ns = sorted(set(ns))
    order = list(ns)
    rng.shuffle(order)
    c = [g.w.seg(rng.randbytes(n)) for n in (1, 1, 5, 17, 300, 4097)]
    for n in order:
        x = rng.choice(c)
        if h.part(up[0], b, k, n, x)["st"] == "ok":
            up[3][n] = [x]
    h.complete(up[0], b, k, g.parts_of(up))
    h.get(b, k)
    h.head(b, k)


def sc_c08(g):
    rng, h = g.rng, g.h
    g.start()
    w = mix(create=3, part=5, complete=2, badupload=5, put=2, list=1, get=1, range=0, head=0, md5=.3, copy=2, delete=1, deletes=.5, buckets=.3, gone=.2)
    for _ in range(4):
        g.run(w, 8)
        # nothing of an unfinished upload is visible
        for b in g.bs:
            h.list(b, enc=True)
        if g.ups:
            up = rng.choice(g.ups)
            h.get(up[1], up[2])
    # two uploads for the same key, completed one after the other
    b, k = g.b(), g.k()
    us = [h.create(b, k, g.meta()) for _ in range(2)]
    us = [[u["u"], b, k, {}] for u in us if u["st"] == "ok"]
    for up in us:
        for n in (1, 2):
            g.s_part_of(up, n)
    for up in us:
        if up[3]:
            r = h.complete(up[0], b, k, g.parts_of(up))
            h.get(b, k)
            if r["st"] == "ok":
                h.complete(up[0], b, k, g.parts_of(up))
                h.part(up[0], b, k, 1, g.content())
                h.get(b, k)
    g.probe_uploads()
    g.sweep()


def sc_c09(g):
    rng, h, w = g.rng, g.h, g.w
    g.start(both=False)
    h.quiet = True
    b = g.bs[0]
    sizes = [0, 1, 2, 3, rng.randint(4, 30), rng.randint(31, 5000), rng.choice([4096, 8192, 65536, 65537, 131073, 300000])]
    ks = []
    for n in sizes:
        k = w.key("s%d" % n)
        c = w.seg(rng.randbytes(n))
        h.put(b, k, c, g.meta())
        ks.append((k, n))
    h.quiet = False
    for _ in range(60):
        k, n = rng.choice(ks)
        h.get(b, k, g.range(n))
    # all ranges of the small ones
    k, n = ks[rng.randint(0, 3)]
    for a in range(n + 2):
        h.get(b, k, "bytes=%d-" % a)
        h.get(b, k, "bytes=-%d" % a)
        for z in range(n + 2):
            h.get(b, k, "bytes=%d-%d" % (a, z))


def sc_c10(g):
    rng, h, w = g.rng, g.h, g.w
    h.quiet = True
    h.plant(rng.randbytes(40))
    g.bs = rng.choice([["bkt", "b2x"], ["bkt", "b2x"], ["bkt", "bkta"], ["bkt", "bkt.a"]])
    g.start()
    g.names = ["victim", "dir/x", "b", "a/f"] if g.bs[1] == "b2x" else ["victim", "avictim", "a.victim", "b"]
    vs = [w.key(n) for n in g.names]
    g.ks = vs
    for b in g.bs:
        for k in vs:
            h.put(b, k, g.content(), g.meta())
            g.live.add((b, k))
    for _ in range(2):
        g.s_create()
    for _ in range(4):
        g.s_part()
    h.quiet = False
    g.sweep(heads=True)
    for _ in range(12):
        n = rng.choice(gen.HOSTILE)
        if rng.random() < 0.3:
            up = rng.choice(g.ups)[0] if g.ups else "1"
            n = rng.choice(["../.upload_id-%s.json" % up, "../.upload_id-%s.part-1" % up, "../.bucket-YmticGt0.object-dmljdGlt.metadata.json",
                            "a/../../b2x/b", "../" * rng.randint(1, 6) + "canary", "..", "../..", "x/../../../canary"])
        if rng.random() < 0.2:
            n = "/".join(rng.choice(["..", ".", "", "victim", "b2x", "dir", "x", "canary", "..."]) for _ in range(rng.randint(1, 5)))
            if not n:
                n = "/"
        k = w.key(n)
        b = g.b()
        eb, ek = g.target()
        x = rng.randint(0, 11)
        if x == 0:
            h.put(b, k, g.content(), g.meta())
        elif x == 1:
            h.get(b, k)
            h.head(b, k)
        elif x == 2:
            h.delete(b, k)
        elif x == 3:
            if "\0" not in n and w.kb(k):
                h.deletes(b, [k, w.key("nothing")])
        elif x == 4:
            h.copy(eb, ek, b, k)
        elif x == 5:
            h.copy(b, k, eb, ek)
        elif x == 6:
            u = h.create(b, k, g.meta())
            if u["st"] == "ok":
                h.part(u["u"], b, k, 1, g.content())
                h.complete(u["u"], b, k, [{"n": 1, "e": "none", "c": []}])
        elif x == 7:
            if printable(w, k):
                h.form(b, k, g.content(), g.meta())
        elif x == 8:
            g.s_badupload()
        elif x == 9:
            h.list(b, n.encode().replace(b"\0", b""), enc=True)
        elif x == 10:
            # a bucket with such a name
            bn = rng.choice(["..", ".", "%2e%2e", "%2e%2e%2fcanary", ".upload_id-1", "bkt%00", ".tmp-x", "%2f", ""])
            h.refuse(rng.choice([dict(method="PUT", uri="/" + bn + ("" if bn else "/")), dict(method="DELETE", uri="/" + bn if bn else "//"),
                                 dict(method="GET", uri="/" + bn + "/victim"),
                                 dict(method="PUT", uri="/" + bn + "/x", frames=[exe.b64(b"x")]),
                                 dict(method="DELETE", uri="/" + bn + "/victim")]))
        else:
            src = rng.choice(["../canary", "/../canary", "bkt/../b2x/victim", "bkt/../../canary", "%2e%2e/canary", "b2x/../bkt/victim",
                              "bkt//victim", "/etc/passwd", "bkt%2f..%2fb2x%2fvictim", "..", "bkt/%2e%2e/b2x/victim", "//bkt/victim",
                              "arn:aws:s3:us-east-1:1:accesspoint/x/object/victim"])
            h.refuse(dict(method="PUT", uri=h.path(eb, ek), headers=[["x-amz-copy-source", src]]))
        if rng.random() < 0.6:
            g.sweep(heads=rng.random() < 0.3, enc=True)
    g.sweep(heads=True, enc=True)
    g.probe_uploads()
    h.outside()


def sc_c19(g):
    g.start()
    w = mix(range=4, get=4, copy=4, complete=3, part=4, put=6, list=0, head=1, gone=0, buckets=.2, broken=.3, badpart=0, badupload=.2)
    g.run(w, 30)
    for b, k in sorted(g.live):
        g.h.get(b, k)


def sc_c20(g):
    rng, h, w = g.rng, g.h, g.w
    g.start()
    g.run(dict(put=5, delete=1, part=1, complete=.5), 8)
    for _ in range(10):
        sb, sk = g.target()
        x = rng.random()
        if x < 0.15:
            b, k = sb, sk
        elif x < 0.3:
            b, k = g.b(), w.key("new%d/p/q/" % rng.randint(0, 3) + rng.choice(["x", "y", "z w"]))
        else:
            b, k = g.b(), g.k()
        rep = rng.random() < 0.4
        if rng.random() < 0.1:
            g.s_gone()
        if rng.random() < 0.3:
            n = g.near(sk)
            if h.copy(sb, n, b, k, rep, g.meta() if rep else {})["st"] == "ok":
                g.live.add((b, k))
            h.get(b, k)
        r = h.copy(sb, sk, b, k, rep, g.meta() if rep or rng.random() < 0.2 else {})
        if r["st"] == "ok":
            g.live.add((b, k))
        h.get(b, k)
        h.get(sb, sk)
        # the copy is independent
        y = rng.random()
        if y < 0.25:
            h.put(sb, sk, g.content(), g.meta())
            h.get(b, k)
        elif y < 0.5:
            h.delete(sb, sk)
            g.live.discard((sb, sk))
            h.get(b, k)
            h.head(b, k)
        elif y < 0.6:
            h.put(b, k, g.content(), g.meta())
            h.get(sb, sk)
    for b, k in sorted(g.live):
        h.get(b, k)


def sc_c21(g):
    rng, h, w = g.rng, g.h, g.w
    g.start()
    for _ in range(4):
        g.run(dict(put=8, copy=1, complete=1, mark=.3), 5)
        g.run(dict(delete=4, deletes=4, gone=.2), 4)
        for b in g.bs:
            for k in g.ks:
                h.get(b, k)
        # a key in place of the directory that a deleted key needed
        b = g.b()
        stem = "pre%d" % rng.randint(0, 2)
        deep = [w.key(stem + "/" + x) for x in ("a", "b/c", "b/d/e")]
        top = w.key(stem)
        if rng.random() < 0.6:
            use = rng.sample(deep, rng.randint(1, 3))
            for k in use:
                h.put(b, k, g.content(), g.meta())
            if rng.random() < 0.5:
                h.deletes(b, use)
            else:
                for k in use:
                    h.delete(b, k)
            h.put(b, top, g.content(), g.meta())
            h.get(b, top)
            for k in use:
                h.get(b, k)
            h.delete(b, top)
            h.put(b, use[0], g.content())
            h.get(b, use[0])
            h.delete(b, use[0])
        if rng.random() < 0.06:
            # many at once
            ks = g.ks + [w.key("many%d" % i) for i in range(rng.choice([997, 998, 999, 1000, 1015]))]
            if rng.random() < 0.5:
                ks.reverse()
            if not g.need_enc():
                h.deletes(b, ks, quiet=rng.random() < 0.5)
                for k in g.ks:
                    h.get(b, k)
        if rng.random() < 0.3:
            # spaces and the like are part of the name
            ks = [w.key(x) for x in ("sp", " sp", "sp ", "s&p", "s<p", "\nsp", "sp\t")]
            put = rng.sample(ks, 4)
            for k in put:
                h.put(b, k, g.content())
            h.deletes(b, rng.sample(ks, 3))
            for k in ks:
                h.get(b, k)


def sc_c25(g):
    rng, h = g.rng, g.h
    g.start()
    w = dict(put=2, md5=10, create=1, part=2, get=2, complete=.3)
    g.run(w, 20)
    g.sweep()
    g.probe_uploads()


def sc_c29(g):
    rng, h, w = g.rng, g.h, g.w
    g.start()
    late = rng.randrange(5)
    for i in range(5):
        g.run(mix(put=6, get=0, range=0, list=0, head=0, broken=.5, badpart=0, md5=0, mark=.6, gone=.1), 5)
        if i == late:
            # an upload which begins in one second and ends in another
            slow_upload(g, "finish", rng.choice(["put", "put", "form"]), 1.05)
        for b in g.bs:
            prefixes = sorted({w.key(w.kb(k).rsplit(b"/", i)[0]) for k in g.ks for i in (1, 2)})
            look = g.ks + [k for k in prefixes if store_ok(w, k)]
            order = rng.sample(["get", "head", "l1", "l2"], 4)
            for o in order:
                if o in ("l1", "l2"):
                    h.list(b, v=int(o[1]), enc=g.need_enc() or rng.random() < 0.3)
                    kb = w.kb(rng.choice(look))
                    h.list(b, kb, v=int(o[1]), enc=g.need_enc())
                else:
                    for k in look:
                        (h.get if o == "get" else h.head)(b, k)


# keys with characters that XML can not carry are used where no XML response names a key
CTL = ("C01", "C05", "C29")
READS = ["get", "head", "list", "listbuckets", "headbucket", "location"]


def on(ops, aspects):
    return [(o, x) for o in ops for x in aspects]


STORE = {
    # pid: (scenario, aspects for all operations, (operation, aspect) pairs, histories per worker quick, thorough)
    "C01": (sc_c01, [], on(["get"], ["st", "body", "meta", "len"]) + on(["put", "form"], ["st"]), 12, 150),
    "C02": (sc_c02, [], on(READS, ["st", "code", "body", "meta", "list", "size", "etag", "len"]) + on(["complete"], ["st", "etag"]), 12, 120),
    "C03": (sc_c03, [], on(["put", "form", "part"], ["st"]) + on(READS, ["st", "body", "meta", "list", "size", "etag"])
            + on(["complete"], ["st", "etag"]), 12, 120),
    "C04": (sc_c04, [], on(["get", "head"], ["meta"]), 10, 120),
    "C05": (sc_c05, [], on(["list"], ["st", "list", "order", "size", "count"]) + on(["listbuckets"], ["st", "list"]), 14, 150),
    "C06": (sc_c06, [], on(["createbucket", "deletebucket", "headbucket", "location"], ["st", "code"]) + on(["listbuckets"], ["st", "list"])
            + on(["put", "form", "get", "head", "list", "delete", "deletes", "copy", "create"], ["st", "code"])
            + on(["get"], ["body"]), 10, 120),
    "C07": (sc_c07, [], on(["complete"], ["st", "etag", "code"]) + on(["get", "head"], ["st", "body", "meta", "len"]) + on(["part", "create"], ["st"]), 14, 150),
    "C08": (sc_c08, [], on(["part", "complete"], ["st", "code", "etag"]) + on(["create"], ["st", "uid", "echo"]) + on(["get"], ["st", "body", "meta"])
            + on(["list"], ["st", "list", "size"]), 12, 150),
    "C09": (sc_c09, [], on(["get"], ["st", "code", "range", "body", "len"]), 12, 120),
    "C10": (sc_c10, [], on(["get", "head"], ["st", "body", "meta"]) + on(["list"], ["list"]) + on(["listbuckets", "headbucket"], ["st", "list"])
            + on(["put", "form", "copy", "create", "delete", "deletes", "part", "complete", "refuse"], ["st"])
            + on(["outside"], ["outside"]) + on(["complete"], ["etag"]), 12, 150),
    "C19": (sc_c19, [], on(["put", "form", "part", "complete", "copy", "get"], ["etag"]), 12, 120),
    "C20": (sc_c20, [], on(["copy"], ["st", "code", "etag"]) + on(["get", "head"], ["st", "body", "meta"]), 14, 150),
    "C21": (sc_c21, [], on(["delete", "deletes"], ["st", "code", "report"]) + on(["get"], ["st", "body"]) + on(["put"], ["st"]), 10, 120),
    "C25": (sc_c25, [], on(["put", "part"], ["st", "code"]) + on(["get", "complete"], ["st", "body", "etag"]), 14, 150),
    "C29": (sc_c29, [], on(["get", "head"], ["st", "code", "meta", "len", "mtime"]) + on(["list"], ["st", "list", "size", "mtime"]), 6, 80),
}


def zone(rng):
    """the server does not always run in UTC"""
    return {"TZ": rng.choice(["UTC0", "JST-9", "EST5EDT", "<+0545>-5:45", "<-11>11", "<+14>-14"])}


LARGE = {"C05": large_c05, "C07": large_c07}


def work(pid, seed, part, n, keep=1, budget=100):
    """one worker: n histories"""
    sc, aspects, opaspects = STORE[pid][:3]
    out = run.Out()
    w = store.World()
    ex = exe.Exec(env=zone(random.Random("%s-%d-%d" % (pid, seed, part))))
    hists, dead, t0 = [], 0, time.time()
    try:
        for i in range(n):
            if time.time() - t0 > budget and i:
                break
            rng = random.Random("%s-%d-%d-%d" % (pid, seed, part, i))
            if i and i % 4 == 0:
                ex.close()
                ex = exe.Exec(env=zone(rng))
            h = store.Hist(w, ex, rng)
            try:
                g = Gen(h, rng, ctl=pid in CTL)
                if i == 0 and part == 0 and pid in LARGE:
                    LARGE[pid](g)
                else:
                    sc(g)
            except store.Hang:
                dead += 1
            except exe.Died as e:
                out.violation("the server process died: %s" % e, "died", {"requests": h.reqlog[-5:]})
                ex = exe.Exec()
                dead += 1
            hists.append(h)
            ex.forget(h)
            if dead >= 2:
                break
    finally:
        ex.close()
    report(out, w, hists, aspects, opaspects)
    return out


def decide(out, w, batch, aspects, opaspects):
    """the verdict on a batch; histories which take TLC too long are left out and counted"""
    try:
        return judge.judge(w, batch, aspects, opaspects, timeout=200)
    except judge.Timeout:
        pass
    v = judge.Verdict()
    late = 0
    for i, h in enumerate(batch):
        try:
            x = judge.judge(w, [h], aspects, opaspects, timeout=30)
        except judge.Timeout:
            late += 1
            out.add(undecided_histories=1)
            if late > 3 and not v.bad:
                raise exe.ToolError("TLC takes too long on the histories")
            if late > 3:
                break
            continue
        v.bad += [(i, l, text) for _, l, text in x.bad]
        v.states += x.states
        v.events += x.events
    return v


def report(out, w, hists, aspects, opaspects, limit=1200):
    """judge histories and note what was found"""
    i = 0
    while i < len(hists):
        batch, n = [], 0
        while i < len(hists) and (not batch or n < 12000):
            batch.append(hists[i])
            n += len(hists[i].ev)
            i += 1
        v = decide(out, w, batch, aspects, opaspects)
        for hi, l, text in v.bad:
            h = batch[hi]
            e = h.ev[l] if l < len(h.ev) else {}
            names = [w.kb(e["a"][x]).decode("utf-8", "replace") for x in ("k", "sk") if x in e.get("a", {})]
            t = judge.trace(w, [], aspects, opaspects)
            t["hist"] = [{"ev": h.ev[:l + 1]}]
            out.violation("event %d: %s (%s%s)" % (l + 1, text, e.get("a", {}).get("op", "?"), " " + " ".join(repr(x) for x in names) if names else ""),
                          "trace", {"event": e, "requests": [x for x in h.reqlog if x[0] <= l][-6:], "trace": t})
        out.add(states=v.states, transitions=v.events, traces_validated_against_impl=len(batch),
                evaluations=v.events)
        out.add(distinct_nontrivial=len({json.dumps(h.ev, sort_keys=True, default=str) for h in batch if len(h.ev) > 3}))
        if batch:
            h = batch[0]
            out.samples.append([[x[1].get("method"), x[1].get("uri"), (x[2] or {}).get("status") if isinstance(x[2], dict) else x[2]] for x in h.reqlog[:25]])


# ---- tours: the transitions of the model that a property is about ----------------------------
def ops(*names):
    return lambda a, o, ch: a["op"] in names


def err(a, o, ch):
    return o == "err" and a["op"] not in tour.READS


def broken(a, o, ch):
    return bool(a.get("broken"))


def md5(a, o, ch):
    return a.get("md5") in ("good", "bad")


def changes(a, o, ch):
    return ch


TOURS = {
    "C01": (["T1", "T3"], lambda a, o, ch: a["op"] in ("put", "form") or (a["op"] == "get" and not a["hasrange"])),
    "C02": (["T1", "T2", "T3", "T4", "T5"], err),
    "C03": (["T1", "T4", "T5"], broken),
    "C04": (["T2", "T4"], lambda a, o, ch: ch or a["op"] in ("get", "head")),
    "C05": (["T1", "T3"], lambda a, o, ch: ch or a["op"] in ("list", "listbuckets")),
    "C06": (["T1"], lambda a, o, ch: a["op"] in ("createbucket", "deletebucket", "headbucket", "location", "listbuckets") or o == "err"),
    "C07": (["T4", "T5"], ops("part", "complete", "create")),
    "C08": (["T5", "T4"], lambda a, o, ch: a["op"] in ("part", "complete", "create", "list", "get")),
    "C09": (["T1"], lambda a, o, ch: a["op"] == "get"),
    "C10": (["T3", "T1"], changes),
    "C19": (["T2", "T4"], lambda a, o, ch: ch or a["op"] == "get"),
    "C20": (["T1", "T2", "T3"], ops("copy")),
    "C21": (["T3", "T1"], ops("delete", "deletes")),
    "C25": (["T1", "T4"], md5),
    "C29": (["T3", "T1"], ops("get", "head", "list")),
}


def work_tour(pid, x, graph, seed, part, parts, limit, budget):
    """one worker: histories along a part of the transitions"""
    _, aspects, opaspects = STORE[pid][:3]
    out = run.Out()
    rng = random.Random("%s-%s-%d-%d" % (pid, x, seed, part))
    w = store.World()
    ex = exe.Exec(env=zone(rng))
    hists, done, wanted = [], 0, 0
    try:
        g = tour.Graph(graph or tour.load(x))
        hists, done, wanted = tour.tour(ex, w, g, TOURS[pid][1], rng, part, parts, limit, budget)
    except exe.Died as e:
        out.violation("the server process died: %s" % e, "died", {"tour": x})
    finally:
        ex.close()
    report(out, w, hists, aspects, opaspects)
    out.add(model_transitions_taken=done, model_transitions_asked=wanted)
    return out


# explored in full by TLC with all invariants (thorough)
MODELS = {"C01": "A", "C02": "T3", "C03": "T1", "C04": "T2", "C05": "B", "C06": "T1", "C07": "C", "C08": "T5", "C09": "T1", "C10": "B",
          "C19": "T4", "C20": "A", "C21": "B", "C25": "T4", "C29": "T3"}


def explore(out, x):
    r = tlc.run("MC_Store" + x, workers=8, heap="8g", timeout=1500)
    if r.tool_error or "No error has been found" not in r.out:
        raise exe.ToolError("the model breaks one of its properties:\n" + r.out[-3000:])
    out.add(model_states=r.distinct, model_transitions=r.states)


def check(pid):
    def f(ctx):
        n = 2 * STORE[pid][3] if ctx.quick else STORE[pid][4]
        workers = 8
        graphs = {}
        if not ctx.quick:
            graphs = {x: tour.derive(x) for x in TOURS[pid][0]}
        jobs = [(work, (pid, ctx.seed, p, n, 1, 100 if ctx.quick else 400)) for p in range(workers)]
        jobs += [(work_tour, (pid, x, graphs.get(x), ctx.seed, p, workers, LIMIT if ctx.quick else 0, 40 if ctx.quick else 400))
                 for x in TOURS[pid][0] for p in range(workers)]
        out = run.parallel(jobs)
        if not ctx.quick:
            explore(out, MODELS[pid])
        return out
    return f


LIMIT = 120
