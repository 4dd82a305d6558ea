"""C14: uploads whose body is a chain of signed chunks."""
import hashlib, json, random
from . import exe, gen, judge, run, sig
from .pauth import KEYS, STREAMING, T0, R, amz, sign_header, b, shuffle_headers
from .sig import hm, signing_key, EMPTY

OLD = b"the old content"


def chunk_sig(sk, date, region, prev, data, scope_region=None):
    scope = "%s/%s/s3/aws4_request" % (date[:8], scope_region or region)
    sts = "AWS4-HMAC-SHA256-PAYLOAD\n%s\n%s\n%s\n%s\n%s" % (date, scope, prev, EMPTY, hashlib.sha256(data).hexdigest())
    return hm(signing_key(sk, date[:8], region), sts).hex()


class Body:
    """the chunks of a body, each a list [size, keyword, signature, line end, data, end]"""

    def __init__(self, rng, sk, date, region, seed, datas):
        self.sk, self.date, self.region, self.seed = sk, date, region, seed
        self.terms, self.chunks = [], []
        prev = seed
        for d in datas + [b""]:
            s = self.sign(prev, d)
            self.chunks.append([b"%x" % len(d), b";chunk-signature=", s.encode(), b"\r\n", d, b"\r\n"])
            prev = s

    def sign(self, prev, data):
        s = chunk_sig(self.sk, self.date, self.region, prev, data)
        self.terms.append((s, prev, data))
        return s

    def bytes(self):
        return b"".join(b"".join(c) for c in self.chunks)


def data_of(rng, big=False):
    if big:
        return rng.randbytes(1) * rng.choice([4095, 8192, 20000, 65536])
    return rng.choice([b"x", b"\r\n", b"0;chunk-signature=" + b"0" * 64 + b"\r\n", b"\n", b"\r", b"a\r\nb", rng.randbytes(rng.randint(1, 40)),
                       rng.randbytes(rng.randint(1, 300)), b"\0" * 16, b"\r\n\r\n", b"1" * 17, rng.randbytes(16)])


def flip(rng, x):
    if not x:
        return b"x"
    i = rng.randrange(len(x))
    return x[:i] + bytes([x[i] ^ (1 << rng.randrange(8))]) + x[i + 1:]


def change(rng, bd):
    """-> (bytes, kind); the body changed in one way"""
    ch = [list(c) for c in bd.chunks]
    n = len(ch)
    i = rng.randrange(n)
    ops = ["drop", "drop_final", "drop_final", "swap", "repeat", "flip_data", "flip_sig", "truncate", "truncate", "size", "keyword", "line", "end", "resign_prev", "resign_key",
           "resign_date", "resign_region", "zero", "upper", "pad", "trail", "empty", "sig_swap", "grow", "shrink", "garbage", "sig_upper", "extension", "move_bytes", "insert", "dup_final",
           "flip_any", "delete_any", "split", "merge", "hash_only", "space", "unchained", "huge", "cut_at_chunk", "sig_len"]
    k = rng.choice(ops)
    if k == "drop" and n > 1:
        del ch[rng.randrange(n - 1)]
    elif k == "drop_final":
        ch.pop()
        if rng.random() < 0.3:
            return b"".join(b"".join(c) for c in ch) + rng.choice([b"\r\n", b"0\r\n\r\n", b"0", b"0;", b"0;chunk-signature="]), k
    elif k == "swap" and n > 1:
        j = rng.randrange(n)
        ch[i], ch[j] = ch[j], ch[i]
    elif k == "repeat":
        ch.insert(rng.randrange(n + 1), ch[i])
    elif k == "flip_data":
        ch[i][4] = flip(rng, ch[i][4]) if ch[i][4] else b""
    elif k == "flip_sig":
        s = ch[i][2]
        j = rng.randrange(64)
        ch[i][2] = s[:j] + (b"0" if s[j:j + 1] != b"0" else b"1") + s[j + 1:]
    elif k == "truncate":
        x = bd.bytes()
        return x[:rng.choice([rng.randrange(len(x)), len(x) - rng.randint(1, 5), max(0, len(x) - rng.randint(60, 90))])], k
    elif k == "size":
        v = int(ch[i][0], 16) + rng.choice([-1, 1, 2, -2, 16, 256])
        ch[i][0] = b"%x" % max(0, v)
    elif k == "keyword":
        ch[i][1] = rng.choice([b";chunk-signatur=", b";Chunk-Signature=", b"; chunk-signature=", b"chunk-signature=", b";chunk-signature:", b";", b";chunk-signature==", b" ;chunk-signature="])
    elif k == "line":
        ch[i][3] = rng.choice([b"\n", b"\r", b"", b"\r\r\n", b" \r\n", b"\n\r", b"\r\n\r\n"])
    elif k == "end":
        ch[i][5] = rng.choice([b"\n", b"\r", b"", b"\n\r", b"  ", b"\r\n\r\n", b"\rx"])
    elif k in ("resign_prev", "unchained"):
        # signed, but in another place of the chain
        prev = rng.choice([ch[j][2].decode() for j in range(n)] + [bd.seed]) if k == "resign_prev" else rng.choice(["", "0" * 64])
        ch[i][2] = bd.sign(prev, ch[i][4]).encode()
    elif k == "resign_key":
        prev = ch[i - 1][2].decode() if i else bd.seed
        ch[i][2] = chunk_sig(rng.choice([s for _, s in KEYS if s != bd.sk]), bd.date, bd.region, prev, ch[i][4]).encode()
    elif k == "resign_date":
        prev = ch[i - 1][2].decode() if i else bd.seed
        ch[i][2] = chunk_sig(bd.sk, amz(T0 + rng.choice([1, -1, 86400])), bd.region, prev, ch[i][4]).encode()
    elif k == "resign_region":
        prev = ch[i - 1][2].decode() if i else bd.seed
        ch[i][2] = chunk_sig(bd.sk, bd.date, bd.region + "x", prev, ch[i][4]).encode()
    elif k == "zero":
        # a signed empty chunk in the middle is a final chunk
        prev = ch[i - 1][2].decode() if i else bd.seed
        s = bd.sign(prev, b"")
        ch.insert(i, [b"0", b";chunk-signature=", s.encode(), b"\r\n", b"", b"\r\n"])
    elif k == "upper":
        ch[i][0] = ch[i][0].upper()
    elif k == "pad":
        ch[i][0] = b"0" * rng.choice([1, 2, 7, 8, 20]) + ch[i][0]
    elif k == "trail":
        return bd.bytes() + rng.choice([b"x", b"\r\n", b"\0", b"".join(ch[0]), rng.randbytes(20)]), k
    elif k == "empty":
        return rng.choice([b"", b"\r\n", b"x", b"0\r\n\r\n", b"0;chunk-signature=" + b"0" * 64 + b"\r\n\r\n"]), k
    elif k == "sig_swap":
        j = rng.randrange(n)
        ch[i][2], ch[j][2] = ch[j][2], ch[i][2]
    elif k == "grow":
        ch[i][4] += rng.choice([b"x", b"\r\n"])
        if rng.random() < 0.5:
            ch[i][0] = b"%x" % len(ch[i][4])
    elif k == "shrink" and ch[i][4]:
        ch[i][4] = ch[i][4][:-1]
        if rng.random() < 0.5:
            ch[i][0] = b"%x" % len(ch[i][4])
    elif k == "garbage":
        x = bd.bytes()
        j = rng.randrange(len(x) + 1)
        return x[:j] + rng.choice([b"\r\n", b"x", b"\n", b"0", b";"]) + x[j:], k
    elif k == "sig_upper":
        ch[i][2] = ch[i][2].upper()
    elif k == "extension":
        ch[i][3] = b";x=1\r\n"
    elif k == "move_bytes" and n > 2:
        a = rng.randrange(n - 2)
        x = ch[a][4]
        ch[a][4], ch[a + 1][4] = x[:-1], x[-1:] + ch[a + 1][4]
        ch[a][0], ch[a + 1][0] = b"%x" % len(ch[a][4]), b"%x" % len(ch[a + 1][4])
    elif k == "insert":
        d = data_of(rng)
        ch.insert(i, [b"%x" % len(d), b";chunk-signature=", rng.choice([b"0" * 64, ch[i][2], hashlib.sha256(d).hexdigest().encode()]), b"\r\n", d, b"\r\n"])
    elif k == "dup_final":
        ch.append(ch[-1])
    elif k in ("flip_any", "delete_any"):
        x = bd.bytes()
        j = rng.randrange(len(x))
        return (flip(rng, x[j:j + 1]) if k == "flip_any" else b"").join([x[:j], x[j + 1:]]), k
    elif k == "split" and len(ch[i][4]) > 1:
        d = ch[i][4]
        j = rng.randrange(1, len(d))
        ch[i:i + 1] = [[b"%x" % len(p)] + ch[i][1:4] + [p, b"\r\n"] for p in (d[:j], d[j:])]
    elif k == "merge" and n > 2:
        a = rng.randrange(n - 2)
        d = ch[a][4] + ch[a + 1][4]
        ch[a:a + 2] = [[b"%x" % len(d)] + ch[a + 1][1:4] + [d, b"\r\n"]]
    elif k == "hash_only":
        ch[i][2] = hashlib.sha256(ch[i][4]).hexdigest().encode()
    elif k == "space":
        ch[i][0] = rng.choice([b" " + ch[i][0], ch[i][0] + b" ", b"0x" + ch[i][0], b"+" + ch[i][0], b"-" + ch[i][0], b""])
    elif k == "huge":
        ch[i][0] = rng.choice([b"ffffffff", b"7fffffff", b"100000000", b"10000000000000000", b"80000000"])
    elif k == "cut_at_chunk":
        return b"".join(b"".join(c) for c in ch[:rng.randrange(n)]), k
    elif k == "sig_len":
        ch[i][2] = rng.choice([ch[i][2][:-1], ch[i][2] + b"0", b"", ch[i][2][:32], ch[i][2] + b"\t"])
    return b"".join(b"".join(c) for c in ch), k


def framing(rng, body):
    k = rng.randrange(7)
    n = len(body)
    if n == 0:
        return rng.choice([[], [b""]])
    if k == 0:
        return [body]
    if k == 1 and n < 700:
        return [body[i:i + 1] for i in range(n)]
    if k == 2:
        c = [i + rng.choice([0, 1]) for i in range(n) if body[i] in (10, 13, 59)]
    elif k == 3:
        s = rng.randint(1, 80)
        c = list(range(rng.randrange(s), n, max(s, n // 300)))
    else:
        c = [rng.randrange(n + 1) for _ in range(rng.choice([1, 1, 2, 3, 8]))]
    c = sorted(set([0, n] + c))
    fr = [body[i:j] for i, j in zip(c, c[1:])]
    if rng.random() < 0.1:
        fr.insert(rng.randrange(len(fr) + 1), b"")
    return fr


class Driver:
    def __init__(self, seed):
        self.ex = exe.Exec(shim=True)
        self.ex.cmd(cmd="shim", arg="clock %d" % (T0 + 5))
        self.root = self.ex.root()
        self.ex.cmd(cmd="svc", id="s", kind="fs", root=self.root, auth=dict(KEYS))
        self.ex.cmd(cmd="svc", id="o", kind="fs", root=self.root)
        self.plain("PUT", "/bkt")

    def plain(self, m, uri, body=b"", headers=()):
        return self.ex.cmd(cmd="req", svc="o", method=m, uri=uri, headers=[list(h) for h in headers], frames=[exe.b64(body)])

    def content(self, uri):
        import base64
        r = self.plain("GET", uri)
        if r.get("status") == 200:
            if "body" in r and r["body"] is not None:
                return base64.b64decode(r["body"])
            raise exe.ToolError("content too long")
        return None

    def close(self):
        self.ex.close()


def one(rng, d, big=False):
    """-> (case, info)"""
    ak, sk = rng.choice(KEYS)
    region = rng.choice(["us-east-1", "us-east-1", "eu-west-3"])
    part = rng.random() < 0.25
    key = "k%d" % rng.randrange(10 ** 9)
    uri = "/bkt/" + key
    datas = [data_of(rng, big) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5]) if not big else rng.choice([1, 2]))]
    q = None
    old = None
    if part:
        r = d.plain("POST", uri + "?uploads")
        import re, base64
        uid = re.search(r"<UploadId>(.*?)</UploadId>", base64.b64decode(r["body"]).decode()).group(1)
        q = "partNumber=1&uploadId=" + uid
        if rng.random() < 0.5:
            old = OLD
            d.plain("PUT", uri + "?" + q, OLD)
    elif rng.random() < 0.6:
        old = OLD
        d.plain("PUT", uri, OLD)
    total = sum(map(len, datas))
    r = R("PUT", uri, q, [("x-amz-decoded-content-length", str(total))])
    r.chunked = []
    sign_header(r, rng, ak, sk, T0, region, STREAMING)
    bd = Body(rng, sk, amz(T0), region, r.sig, datas)
    kind, want, cut = "whole", "ok", False
    body = bd.bytes()
    if rng.random() < 0.75:
        body, kind = change(rng, bd)
        want = "" if body != bd.bytes() else "ok"
    elif rng.random() < 0.15:
        cut = True
        kind = "cut"
        want = ""
        if rng.random() < 0.7:
            body = body[:rng.randrange(len(body) + 1)]
    fr = framing(rng, body)
    frames = [exe.b64(x) for x in fr]
    if cut:
        frames.append({"err": 1})
    hs = [[n, v] for n, v in r.headers]
    if rng.random() < 0.5 and not cut:
        hs.append(["content-length", str(len(body))])
    resp = d.ex.cmd(cmd="req", svc="s", method="PUT", uri=r.uri, headers=hs, frames=frames)
    if "status" not in resp:
        return None, {"request": [r.method, r.uri, hs], "body": exe.b64(body), "kind": kind, "response": resp}
    ok = resp["status"] < 300
    if part:
        c = d.plain("POST", uri + "?uploadId=" + uid, b"<CompleteMultipartUpload><Part><PartNumber>1</PartNumber></Part></CompleteMultipartUpload>")
        after = d.content(uri) if c["status"] == 200 else None
    else:
        after = d.content(uri)
    same = after == old
    # new data may equal the old
    if ok and same and old is not None:
        same = False
    case = {"body": list(body), "cut": cut, "seed": b(r.sig), "terms": [{"hex": b(h), "prev": b(p), "data": list(x)} for h, p, x in bd.terms],
            "ok": ok, "same": same, "data": list(after) if after is not None and not same else [], "want": want}
    return case, {"request": [r.method, r.uri, hs], "frames": [exe.b64(x) for x in fr] if len(body) < 3000 else len(fr), "kind": kind, "cut": cut, "part": part, "status": resp["status"],
                  "stored": "unchanged" if same else exe.b64(after or b"")[:200], "body": exe.b64(body)[:2000]}


def work(seed, part, n):
    out = run.Out()
    rng = random.Random("C14-%d-%d" % (seed, part))
    d = Driver(part)
    cases, infos = [], []
    try:
        for k in range(n):
            try:
                c, i = one(rng, d, big=k % 250 == 7)
            except exe.Died as e:
                out.violation("the server process died: %s" % e, "died", {})
                d = Driver(part)
                continue
            if c is None:
                out.violation("no response to a chunked upload (%s)" % i["kind"], "noresponse", i)
                continue
            cases.append(c)
            infos.append(i)
    finally:
        d.close()
    for i in range(0, len(cases), 1000):
        c = judge.cases(out, "ChunkTrace", cases[i:i + 1000], infos[i:i + 1000],
                        lambda x: "chunked upload (%s, status %d, stored %s): specified, success" % (x["kind"], x["status"], x["stored"][:20]), "chunk")
        out.add(specified_ok=c[0], specified_fail=c[1], specified_free=c[2])
    if infos:
        out.samples.append([infos[0]["kind"], infos[0]["status"]])
    return out


def check(ctx):
    n = 1000 if ctx.quick else 20000
    return run.parallel([(work, (ctx.seed, p, n)) for p in range(8)])
