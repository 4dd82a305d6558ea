"""C16, C26: form POST uploads."""
import base64, datetime, hashlib, json, random, re
from . import exe, judge, run
from .pauth import KEYS, T0, amz, b
from .pchunk import framing
from .sig import hm, signing_key

BOUND = ["bndry", "----WebKitFormBoundaryABC123", "x", "a-b_c.d", "9" * 70, "--", "AaB03x", "=_x"]


def iso(t, ms=True):
    return datetime.datetime.fromtimestamp(t, datetime.timezone.utc).strftime("%Y-%m-%dT%H:%M:%S" + (".000Z" if ms else "Z"))


class Form:
    def __init__(self, rng):
        self.rng = rng
        self.boundary = rng.choice(BOUND)
        self.ak, self.sk = rng.choice(KEYS)
        self.t = T0
        self.bucket = "bkt"
        self.fields = [("key", rng.choice(["k", "a/b", "user/eric/x", "\u00e9\u6587", "a b+c%20", "k1", "x-y_z.txt", "q"]))]
        for _ in range(rng.choice([0, 0, 1, 2])):
            self.fields.append(("x-amz-meta-" + rng.choice(["a", "uuid", "tag"]), rng.choice(["v", "14365123651274", "a,b", "-- %s" % self.boundary if rng.random() < 0.2 else "zz"])))
        if rng.random() < 0.3:
            self.fields.append((rng.choice(["acl", "success_action_status", "Content-Type", "x-foo", "tagging", "comment"]), rng.choice(["private", "201", "text/plain", "two\r\nlines", "", "--", "a\nb", "\r\n"])))
        if rng.random() < 0.15:
            # a value that looks like a part of the framing
            d = "--" + self.boundary
            if rng.random() < 0.5:
                self.fields.append(("x-amz-meta-frame", rng.choice([">" + d, "x " + d, d[:-1], d[1:], "- " + d, "--", "a--", "a " + d + "--"])))
            else:
                self.fields.append(("comment", rng.choice([">" + d, "a\n" + d, "a\r\n" + d[:-1], "a\r\n" + d[1:], "a\r\nx" + d, "a\r\n " + d, "a\r" + d, "a\r\n\r\nb", "a\r",
                    "a\r\nContent-Disposition: form-data; name=\"key\"\r\n\r\nother", "\r\n\r\n", "a\r\n-", "a\r\n--", "\n", "--"])))
        seen = set()
        self.fields = [f for f in self.fields if not (f[0].lower() in seen or seen.add(f[0].lower()))]
        self.data = self.content()
        self.exp = T0 + 3600
        self.now = T0 + 5
        self.conds = None          # [op, name or [min, max], value, how]
        self.extra = []            # fields that are not in the policy
        self.tail = []             # fields behind the file
        self.lead = b"\r\n" if rng.random() < 0.1 else b""
        self.end = b"\r\n" if rng.random() < 0.6 else b""
        self.headers = []

    def content(self):
        rng, d = self.rng, self.boundary.encode()
        delim = b"\r\n--" + d
        pieces = [b"\r", b"\n", b"\r\n", b"-", b"--", b"\r\n--", delim[:-1], b"--" + d, b"\n--" + d, b"\r--" + d, b"\r\r\n-", b"x", b"data", b"\0", b"\xff", d, b"\r\n-" + d,
                  delim[:rng.randrange(1, len(delim))], b"\r\n--" + d[:-1] + b"#", rng.randbytes(rng.randint(1, 30))]
        for _ in range(50):
            s = b"".join(rng.choice(pieces) for _ in range(rng.choice([0, 1, 2, 3, 5, 8])))
            if delim not in s + b"\r\n" and not (s + delim).startswith(delim + delim[:0]) or s == b"":
                if (s + delim).find(delim) == len(s) and not (b"\r\n" + s + delim).startswith(delim) :
                    return s
        return b"plain"

    def policy_fields(self, **kw):
        """fields of the policy and its signature"""
        rng = self.rng
        date = amz(self.t)
        cred = "%s/%s/us-east-1/s3/aws4_request" % (self.ak, date[:8])
        own = [("x-amz-algorithm", "AWS4-HMAC-SHA256"), ("x-amz-credential", cred), ("x-amz-date", date)]
        if self.conds is None:
            self.conds = [("eq", "bucket", self.bucket)]
            for n, v in self.fields:
                self.conds.append(self.rng.choice([("eq", n, v), ("starts", n, ""), ("starts", n, v[:1])]))
        conds = self.conds + [("eq", n, v) for n, v in own]
        rng.shuffle(conds)
        doc = []
        for c in conds:
            if c[0] == "range":
                doc.append(["content-length-range", c[1], c[2]] if rng.random() < 0.7 else ["content-length-range", str(c[1]), str(c[2])])
            elif c[0] == "bad":
                doc.append(c[1])
            elif c[0] == "eq":
                last = doc[-1] if doc and isinstance(doc[-1], dict) else None
                if last and c[1] not in last and "bad" not in [x[0] for x in conds] and rng.random() < 0.5:
                    last[c[1]] = c[2]       # several in one object
                else:
                    doc.append({c[1]: c[2]} if rng.random() < 0.6 else ["eq", "$" + c[1], c[2]])
            else:
                doc.append(["starts-with", "$" + c[1], c[2]])
        text = json.dumps({"expiration": iso(self.exp, rng.random() < 0.8), "conditions": doc})
        p = base64.b64encode(text.encode()).decode()
        s = hm(signing_key(self.sk, date[:8]), p).hex()
        self.allconds = conds
        return own + [("policy", p), ("x-amz-signature", s)]

    def body(self):
        rng = self.rng
        fs = self.policy_fields() + self.fields + self.extra
        order = [n for n, _ in fs]
        if len({n.lower() for n in order}) == len(order):
            rng.shuffle(fs)
        out = self.lead
        d = b"--" + self.boundary.encode()

        def disp(n, f=None):
            h = rng.choice([b"Content-Disposition", b"content-disposition"]) + b": form-data; name=\"" + n.encode() + b"\""
            return h + (b"; filename=\"" + f.encode() + b"\"" if f is not None else b"")
        for n, v in fs:
            out += d + b"\r\n" + disp(n) + b"\r\n"
            if rng.random() < 0.1:
                out += rng.choice([b"Content-Type: text/plain\r\n", b"content-type: text/plain; charset=utf-8\r\n", b"X-A: b\r\nContent-Type: text/plain\r\nX-C:d\r\n", b"Content-Transfer-Encoding: 8bit\r\n"])
            out += b"\r\n" + v.encode() + b"\r\n"
        more = [b"Content-Transfer-Encoding: binary", b"Content-Length: %d" % len(self.data), b"X-Odd:", b"Content-ID: <a@b>; filename=\"no\"", b"MIME-Version:1.0"]
        hs = [disp(rng.choice(["file", "file", "File"]), rng.choice(["f.bin", "f", "a b.txt", "\u00e9.png", "a;b=c.txt", "x; filename=y", "C:\\d\\f", "..", "/etc/passwd", "%22", "..."]))]
        if rng.random() < 0.85:
            hs.append(b"Content-Type: " + rng.choice([b"image/jpeg", b"application/octet-stream", b"text/plain; charset=utf-8", b"x"]))
        hs += rng.sample(more, rng.choice([0, 0, 0, 0, 1, 2, 3]))
        rng.shuffle(hs)
        out += d + b"\r\n" + b"\r\n".join(hs) + b"\r\n\r\n" + self.data
        self.before_end = len(out)
        for n, v in self.tail:
            out += b"\r\n" + d + b"\r\n" + disp(n) + b"\r\n\r\n" + v.encode()
        out += b"\r\n" + d + b"--" + self.end
        self.fs = fs
        return out


def conds_json(conds):
    out = []
    for c in conds:
        if c[0] == "range":
            out.append({"op": "range", "name": [], "value": [], "min": min(c[1], 2 ** 31 - 1), "max": min(c[2], 2 ** 31 - 1)})
        elif c[0] == "bad":
            out.append({"op": "bad", "name": [], "value": [], "min": 0, "max": 0})
        else:
            out.append({"op": c[0], "name": list(c[1].lower().encode()), "value": list(c[2].encode()), "min": 0, "max": 0})
    return out


def gen_c16(rng):
    f = Form(rng)
    cut, kind, want = False, "whole", "accept"
    if rng.random() < 0.15:
        f.tail = [("submit", "Upload to S3")]
    body = f.body()
    x = rng.random()
    if x < 0.2:
        kind, want = "truncated", ""
        body = body[:rng.choice([rng.randrange(len(body)), f.before_end, f.before_end + rng.randrange(4 + len(f.boundary) + 2), max(0, f.before_end - rng.randint(0, 30))])]
    elif x < 0.25:
        kind, want, cut = "cut", "", True
        if rng.random() < 0.8:
            body = body[:rng.randrange(len(body) + 1)]
    elif x < 0.3:
        kind, want = "other boundary", ""
        d = f.boundary.encode()
        j = body.rfind(b"--" + d)
        body = body[:j] + rng.choice([b"--" + d[:-1] + b"#", b"--", b"-" + d, b""]) + body[j + 2 + len(d):]
    return f, body, cut, kind, want


def gen_c26(rng):
    f = Form(rng)
    size = len(f.data)
    key = f.fields[0][1]
    kind, want = "ok", "accept"
    f.conds = [("eq", "bucket", f.bucket)] + [rng.choice([("eq", n, v), ("starts", n, ""), ("starts", n, v[:1]), ("starts", n, v)]) for n, v in f.fields]
    k = rng.choice(["ok", "ok", "range", "range", "range", "expired", "expired", "key", "key", "key", "bucket", "extra", "extra", "extra", "meta", "meta", "ignore", "bad", "dup", "dup", "header",
                    "missing", "case", "nokey", "empty", "two", "cond_case", "nobucket", "field"])
    kind = k
    if k == "range":
        lo, hi = rng.choice([(0, size), (size, size), (0, size + 10), (size + 1, size + 10), (0, size - 1), (size, 10 ** 6), (0, 0), (1, 1), (size - 1, size - 1), (5, 3), (0, 2 ** 31 - 1)])
        lo, hi = max(lo, 0), max(hi, 0)
        if rng.random() < 0.3:
            # many small pieces
            f.data = b"\r\n".join(b"x" * rng.randint(0, 20) for _ in range(20))
            size = len(f.data)
            hi = size + rng.choice([-1, 0, 1])
            lo = 0
        f.conds.append(("range", lo, hi))
        want = "accept" if lo <= size <= hi else "refuse"
        if rng.random() < 0.2:
            f.conds.append(("range", 0, 10 ** 6))
    elif k == "expired":
        d = rng.choice([-1, -1, -60, -86400, 1, 1, 60, 0, -86400 * 400])
        f.exp = f.now + d
        want = "refuse" if d < 0 else "accept" if d > 0 else ""
    elif k == "key":
        c = rng.choice([("eq", "key", key + "x"), ("eq", "key", key.swapcase() if key.swapcase() != key else key + "/"), ("starts", "key", "user/other/"), ("starts", "key", key + "x"), ("starts", "key", key[1:] + "\u00df"),
                        ("eq", "key", key[:-1]), ("eq", "key", ""), ("starts", "key", key[:-1]), ("eq", "key", key + "/"), ("starts", "key", key.upper() + "."), ("starts", "Key", key)])
        f.conds = [x for x in f.conds if x[1] != "key" or rng.random() < 0.3] + [c]
        want = ""
    elif k == "bucket":
        f.conds[0] = rng.choice([("eq", "bucket", "bkt2"), ("starts", "bucket", "b"), ("starts", "bucket", "c"), ("eq", "bucket", "BKT"), ("eq", "bucket", ""), ("eq", "Bucket", "bkt"), ("starts", "bucket", "bktx")])
        want = ""
    elif k == "extra":
        # a field that the policy does not mention
        n = rng.choice([x for x in ["x-amz-meta-evil", "acl", "Content-Type", "x-amz-storage-class", "tagging", "comment", "X-Amz-Meta-Up", "bucketx", "x-amz-security-token", "Cache-Control"]
                        if x.lower() not in {y.lower() for y, _ in f.fields}])
        f.extra = [(n, rng.choice(["public-read", "v", ""]))]
        want = "refuse"
    elif k == "meta":
        f.extra = [("x-amz-meta-lvl", rng.choice(["1", "admin", "user", ""]))]
        f.conds.append(rng.choice([("eq", "x-amz-meta-lvl", "user"), ("starts", "x-amz-meta-lvl", "us"), ("starts", "x-amz-meta-lvl", ""), ("eq", "X-Amz-Meta-Lvl", "user")]))
        want = ""
    elif k == "ignore":
        f.extra = [("x-ignore-" + rng.choice(["me", "x"]), "anything")]
    elif k == "bad":
        f.conds.append(("bad", rng.choice([["ends-with", "$key", ""], ["eq", "$key"], ["content-length-range", "a", "b"], ["content-length-range", -1, 5], 5, "x", [], ["starts-with", "$key", 1], {"key": 5}, None,
                                           ["eq", "$key", key, "x"], ["content-length-range", 1], {"key": None}, ["EQ", "$key", key + "!"]])))
        want = "refuse"
    elif k == "dup":
        n = rng.choice(["key", "x-amz-meta-a", "KEY"])
        f.extra = [(n, rng.choice(["other", key, "user/x"])), (n, rng.choice(["evil", key, ""]))][:rng.choice([1, 2])]
        if n != "key":
            f.conds.append(rng.choice([("eq", n, "other"), ("starts", n, "o"), ("starts", n, "")]))
        want = ""
    elif k == "header":
        # headers of the request are not part of the form
        f.headers = [rng.choice([("x-amz-meta-evil", "header"), ("x-amz-meta-a", "header"), ("x-amz-acl", "public-read"), ("x-amz-storage-class", "GLACIER"), ("content-md5", "AAAAAAAAAAAAAAAAAAAAAA=="),
                                 ("x-amz-copy-source", "/bkt/k"), ("range", "bytes=0-0")])]
    elif k == "missing":
        # a condition on a field that is not there
        f.conds.append(("eq", "x-amz-meta-need", rng.choice(["v", "w"])))
        want = "refuse"
    elif k == "case":
        f.fields = [(n.upper() if rng.random() < 0.7 else n.title(), v) for n, v in f.fields]
    elif k == "nokey":
        f.fields = f.fields[1:]
        f.conds = [c for c in f.conds if c[1] != "key"]
        want = "refuse"
    elif k == "empty":
        f.conds = []
        want = "refuse"
    elif k == "two":
        f.conds += [("starts", "key", ""), ("eq", "key", rng.choice([key, "z"]))]
        want = ""
    elif k == "cond_case":
        f.conds = [(c[0], c[1].upper(), c[2]) for c in f.conds]
    elif k == "nobucket":
        f.conds = f.conds[1:]
    elif k == "field":
        n, v = rng.choice([("acl", "private"), ("Content-Type", "image/png"), ("success_action_status", "201")])
        if n not in [x for x, _ in f.fields]:
            f.extra = [(n, v)]
            f.conds.append(rng.choice([("eq", n, v), ("eq", n, v + "x"), ("starts", n, v[:2]), ("starts", n, "zz"), ("starts", n, "")]))
        want = ""
    return f, f.body(), False, kind, want


class Driver:
    def __init__(self):
        self.ex = exe.Exec(shim=True)
        self.clock = None
        self.root = self.ex.root()
        self.ex.cmd(cmd="svc", id="s", kind="fs", root=self.root, auth=dict(KEYS))
        self.ex.cmd(cmd="svc", id="o", kind="fs", root=self.root)
        self.plain("PUT", "/bkt")

    def plain(self, m, uri, body=b"", headers=()):
        return self.ex.cmd(cmd="req", svc="o", method=m, uri=uri, headers=[list(h) for h in headers], frames=[exe.b64(body)])

    def objects(self):
        r = self.plain("GET", "/bkt?encoding-type=url")
        out = []
        for k in re.findall(rb"<Key>(.*?)</Key>", base64.b64decode(r["body"])):
            import urllib.parse as up
            g = self.plain("GET", "/bkt/" + up.quote(up.unquote_to_bytes(k.decode()), safe="/"))
            meta = [[list(n[11:].encode()), b(v)] for n, v in g["headers"] if n.startswith("x-amz-meta-")]
            out.append([list(up.unquote_to_bytes(k.decode())), list(base64.b64decode(g["body"] or "")), sorted(meta)])
        return out

    def clear(self, objs):
        import urllib.parse as up
        for o in objs:
            self.plain("DELETE", "/bkt/" + up.quote(bytes(o[0]), safe="/"))

    def close(self):
        self.ex.close()


def one(rng, d, f, body, cut, kind, want):
    import urllib.parse as up
    if rng.random() < 0.5:
        d.plain("PUT", "/bkt/" + up.quote(f.fields[0][1] if f.fields else "k", safe="/"), b"old", [("x-amz-meta-a", "old")])
    before = d.objects()
    d.ex.cmd(cmd="shim", arg="clock %d" % f.now)
    fr = framing(rng, body)
    frames = [exe.b64(x) for x in fr]
    if cut:
        frames.append({"err": 1})
    bnd = f.boundary
    ct = "multipart/form-data; boundary=" + (bnd if re.fullmatch(r"[\w.\-]+", bnd) and rng.random() < 0.8 else '"%s"' % bnd)
    hs = [["content-type", ct], ["host", "localhost"]] + [list(h) for h in f.headers]
    if not cut and rng.random() < 0.6:
        hs.append(["content-length", str(len(body))])
    rng.shuffle(hs)
    resp = d.ex.cmd(cmd="req", svc="s", method="POST", uri="/" + f.bucket + ("/" if rng.random() < 0.1 else ""), headers=hs, frames=frames)
    after = d.objects()
    d.clear(after)
    info = {"request": ["POST", hs], "body": exe.b64(body), "frames": [len(x) for x in fr], "kind": kind, "cut": cut, "now": f.now, "exp": f.exp, "conds": f.allconds, "fields": f.fs,
            "status": resp.get("status"), "response": resp, "before": len(before), "after": [bytes(o[0]).decode("utf8", "replace") for o in after]}
    if "status" not in resp:
        return None, info
    case = {"body": list(body), "boundary": list(bnd.encode()), "cut": cut, "bucket": list(f.bucket.encode()), "policy": {"exp": [f.exp // 86400, f.exp % 86400], "conds": conds_json(f.allconds)},
            "now": [f.now // 86400, f.now % 86400], "before": before, "after": after, "ok": resp["status"] < 300, "want": want}
    return case, info


def work(pid, seed, part, n):
    out = run.Out()
    rng = random.Random("%s-%d-%d" % (pid, seed, part))
    d = Driver()
    cases, infos = [], []
    try:
        for _ in range(n):
            g = (gen_c16 if pid == "C16" else gen_c26)(rng)
            try:
                c, i = one(rng, d, *g)
            except exe.Died as e:
                out.violation("the server process died: %s" % e, "died", {})
                d = Driver()
                continue
            if c is None:
                out.violation("no response to a form upload (%s)" % i["kind"], "noresponse", i)
                continue
            cases.append(c)
            infos.append(i)
    finally:
        d.close()
    for i in range(0, len(cases), 1000):
        c = judge.cases(out, "PostTrace", cases[i:i + 1000], infos[i:i + 1000],
                        lambda x: "form upload (%s, status %s): specified, success, effect" % (x["kind"], x["status"]), "form")
        out.add(specified_accept=c[0], specified_refuse=c[1], specified_free=c[2])
    if infos:
        out.samples.append([infos[0]["kind"], infos[0]["status"], infos[0]["conds"]])
    return out


def check(pid):
    def f(ctx):
        n = 500 if ctx.quick else 10000
        return run.parallel([(work, (pid, ctx.seed, p, n)) for p in range(8)])
    return f
