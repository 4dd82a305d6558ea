"""Authentication (C11, C12, C13, C15): requests of all kinds, correctly signed, changed after signing, or not signed."""
import calendar, copy, datetime, hashlib, json, os, random, re, socket, subprocess, tempfile, time
import urllib.parse as up
from . import exe, gen, judge, run, sig, tlc
from .sig import hm, signing_key

KEYS = [("AKID", "topsecret"), ("AK2EXAMPLE", "wJalrXUtnFEMI/K7MDENG+bPxRfiCYEXAMPLEKEY"), ("AKID2", "topsecret2"), ("ak.with-odd_ch@rs", "s p/+=%"), ("AKI", "x"),
        # secrets around the block sizes of the hash and of buffers, and of any characters
        ("AK60", "k" * 60), ("AK61", "k" * 61), ("AK124", "Z" * 124), ("AK125", "Z" * 125), ("AKLONG" + "0" * 130, "0123456789abcdef" * 40), ("AKTEXT", " \u00e9\u4e16 "), ("AKSP", " lead and trail\t"), ("AWS4", "AWS4AWS4"), ("akid", "topsecret3")]
CANARY = "canary-Q7x"
UNSIGNED, STREAMING = "UNSIGNED-PAYLOAD", "STREAMING-AWS4-HMAC-SHA256-PAYLOAD"
SAFE = "-_.~"
T0 = 1796000000


def quote(b, safe=SAFE):
    return up.quote(b, safe=safe)


def amz(t):
    return datetime.datetime.fromtimestamp(t, datetime.timezone.utc).strftime("%Y%m%dT%H%M%SZ")


class R:
    """a request: method, path (encoded), query (encoded or None), headers [(name, value)], body"""

    def __init__(self, method, path, query=None, headers=(), body=b"", chunked=None):
        self.method, self.path, self.query = method, path, query
        self.headers, self.body = list(headers), body
        self.terms = []
        self.form = []
        self.isform = False
        self.polok = True
        self.now = None
        self.want = ""
        self.kind = ""
        self.chunked = chunked     # contents of the chunks of a chunk-signed body

    def copy(self):
        c = copy.copy(self)
        c.headers, c.terms, c.form = list(self.headers), list(self.terms), list(self.form)
        c.want = ""
        return c

    @property
    def uri(self):
        return self.path + ("?" + self.query if self.query is not None else "")

    def h(self, name):
        return [v for n, v in self.headers if n.lower() == name]

    def seth(self, name, value):
        """replace the (first) value of a header"""
        for i, (n, v) in enumerate(self.headers):
            if n.lower() == name:
                self.headers[i] = (n, value)
                return
        self.headers.append((name, value))

    def delh(self, name):
        self.headers = [x for x in self.headers if x[0].lower() != name]


# ---- signing, as a client does it ----

def pairs_of(q):
    """decoded pairs of a query that was produced by this generator"""
    out = []
    for p in (q or "").split("&"):
        if p:
            k, _, v = p.partition("=")
            out.append((up.unquote_to_bytes(k.replace("+", " ")), up.unquote_to_bytes(v.replace("+", " "))))
    return out


def canon(r, pairs, signed, payload):
    e = sorted((quote(k), quote(v)) for k, v in pairs)
    hs = ""
    for n in signed:
        hs += n + ":" + ",".join(re.sub(" +", " ", v.strip(" ")) for v in r.h(n)) + "\n"
    return "\n".join([r.method, quote(up.unquote_to_bytes(r.path), "/" + SAFE), "&".join("%s=%s" % x for x in e), hs,
                      ";".join(signed), payload]).encode("latin1")


def sign_term(r, sk, date, region, can, service="s3", alg="AWS4-HMAC-SHA256", term="aws4_request", scope_date=None):
    scope = "%s/%s/%s/%s" % (scope_date or date[:8], region, service, term)
    sts = "%s\n%s\n%s\n%s" % (alg, date, scope, hashlib.sha256(can).hexdigest())
    k = hm(hm(hm(hm(("AWS4" + sk).encode(), date[:8]), region), service), term)
    h = hm(k, sts).hex()
    if (service, alg, term) == ("s3", "AWS4-HMAC-SHA256", "aws4_request") and scope_date is None:
        r.terms.append((h, sk, date, region, can))
    return h


def authz(ak, date, region, signed, s, service="s3"):
    return "AWS4-HMAC-SHA256 Credential=%s/%s/%s/%s/aws4_request, SignedHeaders=%s, Signature=%s" % (
        ak, date[:8], region, service, ";".join(signed), s)


def shuffle_headers(rng, r):
    """another order of the headers, but not of those with the same name"""
    hs = r.headers
    order = [n.lower() for n, _ in hs]
    rng.shuffle(order)
    left = {n: [x for x in hs if x[0].lower() == n] for n in order}
    r.headers = [left[n].pop(0) for n in order]


def sign_header(r, rng, ak, sk, t, region="us-east-1", payload=None, extra=(), **kw):
    date = amz(t)
    if not r.h("host"):
        r.headers.append(("host", "localhost"))
    r.headers.append(("x-amz-date", date))
    if payload is None:
        payload = hashlib.sha256(r.body).hexdigest()
    r.headers.append(("x-amz-content-sha256", payload))
    names = {n.lower() for n, _ in r.headers}
    signed = sorted(n for n in names if n == "host" or n.startswith("x-amz-") or n in extra)
    can = canon(r, pairs_of(r.query), signed, payload)
    s = sign_term(r, sk, date, region, can, **kw)
    r.headers.append(("authorization", authz(ak, date, region, signed, s, kw.get("service", "s3"))))
    shuffle_headers(rng, r)
    if payload == STREAMING:
        sigs = sig.chunk_sigs(sk, date, s, r.chunked + [b""], region)
        r.body = b"".join(sig.chunk_bytes(c, x) for c, x in zip(r.chunked + [b""], sigs))
    r.ak, r.sk, r.t, r.region, r.signed, r.sig = ak, sk, t, region, signed, s
    return r


def sign_query(r, rng, ak, sk, t, region="us-east-1", expires=300, extra=(), shuffle=True, **kw):
    date = amz(t)
    if not r.h("host"):
        r.headers.append(("host", "localhost"))
    signed = sorted({n.lower() for n, _ in r.headers if n.lower() == "host" or n.lower().startswith("x-amz-") or n.lower() in extra})
    own = [("X-Amz-Algorithm", "AWS4-HMAC-SHA256"), ("X-Amz-Credential", "%s/%s/%s/%s/aws4_request" % (ak, date[:8], region, kw.get("service", "s3"))),
           ("X-Amz-Date", date), ("X-Amz-Expires", str(expires)), ("X-Amz-SignedHeaders", ";".join(signed))]
    can = canon(r, pairs_of(r.query) + [(a.encode(), b.encode()) for a, b in own], signed, UNSIGNED)
    s = sign_term(r, sk, date, region, can, **kw)
    ps = [p for p in (r.query or "").split("&") if p] + ["%s=%s" % (a, quote(b)) for a, b in own + [("X-Amz-Signature", s)]]
    if shuffle:
        rng.shuffle(ps)
    r.query = "&".join(ps)
    r.ak, r.sk, r.t, r.region, r.signed, r.sig, r.expires = ak, sk, t, region, signed, s, expires
    return r


def sign_form(r, rng, ak, sk, t, region="us-east-1", bucket="bkt", key="k", **kw):
    date = amz(t)
    exp = datetime.datetime.fromtimestamp(t + 3600, datetime.timezone.utc).strftime("%Y-%m-%dT%H:%M:%S.000Z")
    pol = json.dumps({"expiration": exp, "conditions": [{"bucket": bucket}, ["starts-with", "$key", ""], ["starts-with", "$x-amz-meta-a", ""],
                      ["starts-with", "$x-amz-credential", ""], ["starts-with", "$x-amz-date", ""], ["starts-with", "$x-amz-algorithm", ""]]})
    import base64
    p = base64.b64encode(pol.encode()).decode()
    s = hm(signing_key(sk, date[:8], region), p).hex()
    r.terms.append((s, sk, date[:8], region, p.encode()))
    r.form = [("key", key), ("policy", p), ("x-amz-algorithm", "AWS4-HMAC-SHA256"),
              ("x-amz-credential", "%s/%s/%s/s3/aws4_request" % (ak, date[:8], region)), ("x-amz-date", date), ("x-amz-signature", s)]
    if rng.random() < 0.5:
        r.form.append(("x-amz-meta-a", "v%d" % rng.randrange(99)))
    rng.shuffle(r.form)
    r.isform = True
    r.ak, r.sk, r.t, r.region, r.sig = ak, sk, t, region, s
    return r


def form_body(r, data=b"file data"):
    body, ct = sig.multipart(r.form, data, "bndry")
    r.body = body + b"\r\n"
    r.delh("content-type")
    r.headers.append(("content-type", ct))


# ---- base requests ----

def rnd_enc(rng, s, slash="/"):
    """percent-encode in one of the ways clients do"""
    b = s.encode()
    mode = rng.random()
    if mode < 0.6:
        return quote(b, slash + SAFE)
    if mode < 0.8:
        return quote(b, slash + SAFE + "!$'()*,;:@" + ("" if slash == "" else "&=+"))
    out = ""
    for x in b:
        c = chr(x)
        if c.isascii() and c.isalnum() and rng.random() < 0.8 or (c in slash and slash):
            out += c
        else:
            out += ("%%%02x" if rng.random() < 0.5 else "%%%02X") % x
    return out


def rnd_text(rng, n=8):
    return "".join(rng.choice(["a", "B", "7", " ", "+", "%", "=", "&", "/", "\u00e9", "\u6587", "~", "-", "_", ".", "?", "#", ";", ":", "@", "\"", "'", "<", "\U0001f600",
                               "*", "!", "(", ")", ",", "%20", "%2F", "$", "[", "]", "^", "|", "\\", "{", "}"]) for _ in range(rng.randint(1, n)))


def rnd_key(rng):
    for _ in range(50):
        r = rng.random()
        k = rng.choice(gen.PLAIN) if r < 0.25 else rng.choice(gen.ODD) if r < 0.65 else rnd_text(rng)
        if rng.random() < 0.05:
            k = k + "/"
        if not any(ord(c) < 32 for c in k) and len(k.encode()) < 1000:
            return k
    return "k"


def rnd_params(rng, r=None):
    """parameters without meaning to the server"""
    out = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        n = rng.choice(["x", "x-id", "foo", "A", "a", "zz", "response-content-type", "x", "marker", "prefix2", "\u00fc", "q q", "a+b", "a=b", "a&b", "Z", "~", "X-Amz-Foo", "aa", "a-b", "a_b", "0"])
        v = rng.choice(["", "1", "v", rnd_text(rng), rnd_text(rng), "a=b", "=", "&", "%", "true"])
        out.append((n, v))
        if rng.random() < 0.2:
            out.append((n, rng.choice([v, v + "2", ""])))
    return out


def enc_query(rng, pairs, bare=()):
    """bare: names that may be written without '='"""
    ps = list(pairs)
    rng.shuffle(ps)
    out = []
    for n, v in ps:
        e = rnd_enc(rng, n, "")
        if v == "" and rng.random() < (0.5 if n in bare else 0.3):
            out.append(e)
        else:
            out.append(e + "=" + rnd_enc(rng, v, ""))
    q = "&".join(out)
    if rng.random() < 0.05:
        q = rng.choice(["&" + q, q + "&", q.replace("&", "&&", 1)])
    return q


DELXML = b"<Delete><Object><Key>k1</Key></Object><Object><Key>k2</Key></Object></Delete>"
CMPXML = b'<CompleteMultipartUpload><Part><PartNumber>1</PartNumber><ETag>"x"</ETag></Part></CompleteMultipartUpload>'


def base(rng, op=None):
    """a request for one of the operations, with its body"""
    b = rng.choice(["bkt", "b2x", "bucket.with-dots", "a0b"])
    key = rnd_key(rng)
    bp, op_ = "/" + b + ("/" if rng.random() < 0.1 else ""), None
    kp = "/" + b + "/" + rnd_enc(rng, key)
    extra = rnd_params(rng)
    ops = ["CreateBucket", "DeleteBucket", "HeadBucket", "GetBucketLocation", "ListObjects", "ListObjectsV2", "ListBuckets", "PutObject", "GetObject",
           "HeadObject", "DeleteObject", "DeleteObjects", "CreateMultipartUpload", "UploadPart", "CompleteMultipartUpload", "CopyObject"]
    op = op or rng.choice(ops + ["PutObject", "GetObject", "ListObjects", "ListObjectsV2", "DeleteObject"])
    data = rng.choice([b"", b"x", rng.randbytes(20), rng.randbytes(200), b"\r\n\0", b"\xff\xfe"])
    large = rng.random() < 0.03
    if large:
        data = rng.randbytes(rng.choice([4097, 65536, 65537, 150000]))
    hs = []
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 3)):
            hs.append(rng.choice([("x-amz-meta-" + rng.choice("abc"), rng.choice(["v", "two  words", "a,b", "x   y  z", ""])),
                                  ("content-type", rng.choice(["text/plain", "application/octet-stream", "text/html; charset=utf-8", "multipart/mixed; boundary=x", "application/x-www-form-urlencoded", "MULTIPART"])),
                                  ("user-agent", rng.choice(["s3-client/1.0", "aws-sdk  (x;  y)", "Mozilla/5.0 (X11;   Linux)"])),
                                  ("x-amz-foo", "bar"), ("cache-control", "no-cache"), ("accept", "*/*"), ("x-other", "q  r"),
                                  ("x-amz-security-token", "tok==")]))
    seen = set()
    hs = [x for x in hs if not (x[0] in ("content-type", "user-agent") and x[0] in seen or seen.add(x[0]))]
    q = []
    body = b""
    m = "GET"
    p = bp
    if op == "CreateBucket": m = "PUT"
    elif op == "DeleteBucket": m = "DELETE"
    elif op == "HeadBucket": m = "HEAD"
    elif op == "GetBucketLocation": q = [("location", "")]
    elif op == "ListObjects": q = rng.choice([[], [("prefix", rnd_text(rng))], [("prefix", ""), ("encoding-type", "url")], [("delimiter", "/")], [("max-keys", "7")]])
    elif op == "ListObjectsV2": q = [("list-type", "2")] + rng.choice([[], [("prefix", rnd_text(rng))], [("start-after", rnd_text(rng))], [("fetch-owner", "true")]])
    elif op == "ListBuckets": p = "/"
    else:
        p = kp
        m = dict(PutObject="PUT", GetObject="GET", HeadObject="HEAD", DeleteObject="DELETE", UploadPart="PUT", CopyObject="PUT").get(op, "POST")
        if op == "PutObject": body = data
        elif op == "GetObject" and rng.random() < 0.3: hs.append(("range", "bytes=0-1"))
        elif op == "DeleteObjects": p, q, body = bp, [("delete", "")], DELXML if not large else DELXML.replace(b"<Object>", b"<Object><Key>%s</Key></Object>" % (b"k" * 80) * rng.choice([100, 800]) + b"<Object>", 1)
        elif op == "CreateMultipartUpload": q = [("uploads", "")]
        elif op == "UploadPart": q, body = [("partNumber", str(rng.randint(1, 10000))), ("uploadId", rng.choice(["u1", rnd_text(rng)]))], data
        elif op == "CompleteMultipartUpload": q, body = [("uploadId", rng.choice(["u1", rnd_text(rng)]))], CMPXML if not large else CMPXML.replace(b"<Part>", b"\n" * 70000 + b"<Part>", 1)
        elif op == "CopyObject": hs.append(("x-amz-copy-source", "/" + b + "/" + rnd_enc(rng, rnd_key(rng).rstrip("/") or "k")))
    if body and rng.random() < 0.15:
        import base64
        hs.append(("content-md5", base64.b64encode(hashlib.md5(body).digest()).decode()))
    # (only a POST of this type is a form)
    hs = [(n, ("text/plain" if m == "POST" else "multipart/form-data; boundary=x") if v == "MULTIPART" else v) for n, v in hs]
    names = {n for n, _ in q}
    q += [x for x in extra if x[0] not in names]
    # spaces in header values, as one may write them
    if rng.random() < 0.4:
        hs = [(n, rng.choice(["", " ", "  "]) + v.replace("  ", " " * rng.randint(1, 4)) + rng.choice(["", " ", "   "])) if n not in ("content-type", "range", "x-amz-copy-source", "content-md5") else (n, v)
              for n, v in hs]
    hs = [("".join(c.upper() if rng.random() < 0.2 else c for c in n), v) for n, v in hs]
    r = R(m, p, enc_query(rng, q, ("location", "delete", "uploads")) if q or rng.random() < 0.1 else None, hs, body)
    r.op = op
    r.kind = op
    return r


def good(rng, how=None, op=None, t=None):
    """a correctly signed request"""
    t = T0 if t is None else t
    how = how or rng.choice(["header"] * 5 + ["query"] * 4 + ["form"])
    ak, sk = rng.choice(KEYS)
    region = rng.choice(["us-east-1", "eu-central-1", "r", "us east", "EU", "Mars-1"]) if rng.random() < 0.4 else "us-east-1"
    if how == "form":
        r = R("POST", "/bkt", None, [("host", "localhost")])
        r.op = "PutObject"
        sign_form(r, rng, ak, sk, t, region, key=rnd_key(rng).rstrip("/") or "k")
        form_body(r, rng.choice([b"", b"data", rng.randbytes(50)]))
    else:
        r = base(rng, op)
        extra = {"content-type", "range", "user-agent", "cache-control", "content-md5"} if rng.random() < 0.7 else set()
        extra |= {n.lower() for n, _ in r.headers} if rng.random() < 0.3 else set()
        if how == "header":
            payload = None
            x = rng.random()
            if x < 0.25:
                payload = UNSIGNED
            elif x < 0.4 and r.op in ("PutObject", "UploadPart"):
                payload = STREAMING
                n = rng.randint(0, 3)
                r.chunked = [rng.randbytes(rng.choice([1, 5, 100])) for _ in range(n)]
                r.headers.append(("x-amz-decoded-content-length", str(sum(map(len, r.chunked)))))
            sign_header(r, rng, ak, sk, t, region, payload, extra)
        else:
            sign_query(r, rng, ak, sk, t, region, rng.choice([30, 60, 300, 86400, 604800]), extra)
    r.how = how
    r.want = "accept"
    return r


# ---- changes after signing ----

def near(rng, s, uni=False):
    """another string that a careless comparison takes for s"""
    for _ in range(30):
        v = rng.choice([s.lower(), s.upper(), s.swapcase(), s.title(), s + " ", " " + s, s + "x", "x" + s, s[:-1], s[1:], s + s, s[::-1], s.replace("-", "_"), s.replace("-", ""),
                        s.replace(".", "-"), s + "\0", s + "\t", s.lstrip("X-"), s.replace("A", "\u0391", 1), s.replace("K", "\u212a", 1), s + "*", "*", s + "%20", s[:1], s + "2", s + ","])
        if v != s and (uni or v.isascii() and v.isprintable() and v == v.strip()):
            return v
    return s + "x"


OWN = ["X-Amz-Algorithm", "X-Amz-Credential", "X-Amz-Date", "X-Amz-Expires", "X-Amz-SignedHeaders", "X-Amz-Signature"]
EXPIRES = ["", "-1", "+300", "1.5", "300.0", "1e9", " 300", "300 ", "0300", "00000300", "0x12c", "abc", "300s", "3oo", "4294967295", "4294967296", "4294967596", "18446744073709551616", "99999999999999999999999",
           "-300", "--5", "\uff13\uff10\uff10", "inf", "NaN", "null", "1_000", "604801", "86400000", "0", "300,", "1;2", "\u0663"]


def flip(rng, s, alphabet=None):
    """another string of the same length"""
    if not s:
        return rng.choice("ab1")
    i = rng.randrange(len(s))
    while True:
        c = rng.choice(alphabet or "abcdefghijklmnopqrstuvwxyz0123456789ABC-_")
        if c != s[i]:
            return s[:i] + c + s[i + 1:]


def mutate(rng, r0, other=None):
    """change one thing"""
    r = r0.copy()
    how = r0.how
    ms = ["method", "path"]
    if how == "form":
        return mutate_form(rng, r)
    ms += ["query"] * 4 + ["header"] * 4 + ["cred"] * 3 + ["signed"] * 2 + ["sig"] * 2
    if how == "header":
        ms += ["payload"] * 3 + ["date"] * 2
    if other is not None and other.how == how:
        ms += ["steal"] * 2
    m = rng.choice(ms)
    r.kind = how + ":" + m
    if m == "method":
        r.method = rng.choice([x for x in ("GET", "PUT", "POST", "DELETE", "HEAD", "PATCH", "OPTIONS", "put", "gET") if x != r.method])
    elif m == "path":
        p = r.path
        r.path = rng.choice([lambda: p + "x", lambda: p[:-1] if len(p) > 2 else p + "y", lambda: p + "/", lambda: p + "%20", lambda: "/b2x" + p,
                             lambda: p.replace("/", "//", 1), lambda: p.swapcase(), lambda: p + "%00", lambda: "/victim/" + p[1:], lambda: p + "/../x",
                             lambda: p.replace("%2F", "%252F") if "%2F" in p else p + "%25", lambda: "/./" + p[1:], lambda: p[0] + flip(rng, p[1:]) if len(p) > 1 else "/bkt",
                             lambda: quote(p, "/"), lambda: p + ";x=1"])()
    elif m == "query":
        ps = [x for x in (r.query or "").split("&") if x]
        own = {"X-Amz-Signature"}
        c = rng.randrange(9)
        i = rng.randrange(len(ps)) if ps else 0
        if not ps or c == 0:
            ps.insert(i, quote(near(rng, rng.choice(OWN), True)) + rng.choice(["=1", "=", "", "=" + "0" * 64, "=2592000"]) if rng.random() < 0.35 else rng.choice(["x=1", "acl", "uploads", "delete", "versionId=1", "a", "partNumber=1", "uploadId=u", "list-type=2", "response-content-type=text%2Fhtml",
                                     "X-Amz-Foo=1", "%20=", "=", "=x", "location", "x-id=GetObject"]))
        elif c == 1:
            del ps[i]
        elif c == 2:
            n, e, v = ps[i].partition("=")
            ps[i] = n + "=" + flip(rng, v)
        elif c == 3:
            n, e, v = ps[i].partition("=")
            ps[i] = flip(rng, n) + e + v
        elif c == 4:
            ps.insert(rng.randrange(len(ps) + 1), ps[i])
        elif c == 5 and len(ps) > 1:
            j = rng.randrange(len(ps))
            a, b = ps[i].partition("="), ps[j].partition("=")
            ps[i], ps[j] = a[0] + "=" + b[2], b[0] + "=" + a[2]
        elif c == 6:
            n, e, v = ps[i].partition("=")
            ps.insert(rng.randrange(len(ps) + 1), n + "=" + flip(rng, v))
        elif c == 7:
            n, e, v = ps[i].partition("=")
            ps[i] = n + "=" + v + rng.choice(["%20", "0", "%00", "%26", "%3D", "x"])
        else:
            n, e, v = ps[i].partition("=")
            ps[i] = rng.choice([n + "%3D" + v, n.swapcase() + e + v, n + e + v.swapcase(), n + "=", v + "=" + n])
        r.query = "&".join(ps)
    elif m == "header":
        names = [n for n in r.signed if n not in ("x-amz-date", "x-amz-content-sha256")] or ["host"]
        n = rng.choice(names)
        vs = r.h(n)
        v = vs[0] if vs else ""
        c = rng.randrange(9)
        if c == 0:
            r.delh(n)
        elif c == 1:
            r.seth(n, flip(rng, v))
        elif c == 2:
            r.headers.append((n, rng.choice(["x", v, "", "b"])))
        elif c == 3:
            r.headers.insert(0, (n, rng.choice(["x", v, ""])))
        elif c == 4:
            r.headers.append((rng.choice(["x-amz-meta-zz", "x-amz-copy-source", "x-amz-acl", "x-amz-metadata-directive", "x-amz-storage-class", "X-Amz-Meta-New",
                                          "x-amz-security-token", "x-amz-server-side-encryption", "x-amz-tagging"]), rng.choice(["/b2x/victim", "x", "REPLACE", "public-read"])))
        elif c == 5:
            r.seth(n, v.swapcase())
        elif c == 6:
            r.seth(n, v + rng.choice([",", ", x", " x", "x", ";q=1"]))
        elif c == 7 and len(names) > 1:
            a, b = rng.sample(names, 2)
            va, vb = r.h(a), r.h(b)
            if va and vb:
                r.seth(a, vb[0])
                r.seth(b, va[0])
        else:
            # the same header in another way: not a change
            if n not in ("content-type", "range", "x-amz-copy-source", "host"):
                r.seth(n, rng.choice([" ", ""]) + v.replace(" ", "  ") + " ")
    elif m in ("cred", "signed", "sig", "date", "steal"):
        ak, t, region, signed, s = r.ak, r.t, r.region, list(r.signed), r.sig
        date = amz(t)
        cdate, service, term, alg = date[:8], "s3", "aws4_request", "AWS4-HMAC-SHA256"
        xdate = None
        if m == "cred":
            c = rng.randrange(7)
            if c == 0: ak = rng.choice([k for k, _ in KEYS if k != ak])
            elif c == 1: ak = rng.choice([flip(rng, ak), near(rng, ak), near(rng, ak), "", "unknown"])
            elif c == 2: cdate = rng.choice([amz(t + 86400)[:8], amz(t - 86400)[:8], flip(rng, cdate, "0123456789"), ""])
            elif c == 3: region = rng.choice([flip(rng, region), "", "us-west-2", region + "x", region.upper()])
            elif c == 4: service = rng.choice(["ec2", "S3", "", "s3x", "iam"])
            elif c == 5: term = rng.choice(["aws4_requesT", "", "aws4_request2", "aws3_request"])
            else: alg = rng.choice(["AWS4-HMAC-SHA1", "aws4-hmac-sha256", "AWS4-HMAC-SHA256-PAYLOAD", "AWS4-ECDSA-P256-SHA256", "AWS4-HMAC-SHA512", "X"])
        elif m == "signed":
            c = rng.randrange(6)
            if c == 0 and len(signed) > 1: signed.pop(rng.randrange(len(signed)))
            elif c == 1: signed.append(rng.choice(["x-foo", "accept", "content-length", "connection", "x-amz-foo", "authorization", "", "range"]))
            elif c == 2 and len(signed) > 1: signed.reverse()
            elif c == 3: signed.append(signed[0])
            elif c == 4: signed = [x.upper() for x in signed]
            else: signed = [x for x in signed if x != "host"] or [""]
        elif m == "sig":
            s = rng.choice([flip(rng, s, "0123456789abcdef"), s.upper(), s[:-1], s[:-2] + "00", s + "0", "", "0" * 64, s[::-1], s[1:] + s[0], flip(rng, s, "0123456789abcdef"),
                            hashlib.sha256(s.encode()).hexdigest(), "x" + s[1:], " " + s, s[:32]])
        elif m == "date":
            t2 = t + rng.choice([1, -1, 60, 86400, -86400, 3600])
            xdate = amz(t2)
            if rng.random() < 0.6:
                cdate = xdate[:8]
        else:
            # somebody else's signature
            s = other.sig
            if rng.random() < 0.5:
                signed = list(other.signed)
            r.terms = r.terms + other.terms
        if how == "header":
            r.seth("authorization", "%s Credential=%s/%s/%s/%s/%s, SignedHeaders=%s, Signature=%s" % (alg, ak, cdate, region, service, term, ";".join(signed), s))
            if xdate:
                r.seth("x-amz-date", xdate)
        else:
            new = {"X-Amz-Algorithm": alg, "X-Amz-Credential": "/".join([ak, cdate, region, service, term]), "X-Amz-SignedHeaders": ";".join(signed), "X-Amz-Signature": s}
            r.query = "&".join(n + "=" + quote(new[n]) if n in new and (m, n) != ("steal", "X-Amz-Algorithm") else n + e + v
                               for n, e, v in (p.partition("=") for p in r.query.split("&")))
    elif m == "payload":
        c = rng.randrange(7)
        if r.op not in ("PutObject", "UploadPart") and r.h("x-amz-content-sha256") == [UNSIGNED]:
            c = rng.choice([4, 5])      # a document that can not be read would be refused for another reason
        if c == 0 and r.body: r.body = flip_bytes(rng, r.body)
        elif c == 1: r.body = r.body + rng.choice([b"x", b"\0", b"\n", rng.randbytes(3)])
        elif c == 2: r.body = b"" if r.body else b"new"
        elif c == 3: r.body = r.body[:-1] if r.body else b"n"
        elif c == 4: r.seth("x-amz-content-sha256", hashlib.sha256(r.body + b"!").hexdigest())
        elif c == 5: r.seth("x-amz-content-sha256", UNSIGNED if r.h("x-amz-content-sha256") != [UNSIGNED] else hashlib.sha256(r.body).hexdigest())
        else:
            r.body = r.body + b"?"
            r.seth("x-amz-content-sha256", hashlib.sha256(r.body).hexdigest())
    return r


def flip_bytes(rng, b):
    i = rng.randrange(len(b))
    return b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:]


def mutate_form(rng, r):
    f = dict(r.form)
    n = rng.choice(["policy", "x-amz-algorithm", "x-amz-credential", "x-amz-date", "x-amz-signature", "policy", "x-amz-signature", "x-amz-credential"])
    r.kind = "form:" + n
    v = f[n]
    c = rng.randrange(5)
    if n == "policy" and c < 3:
        import base64
        p = json.loads(base64.b64decode(v))
        if c == 0: p["conditions"] = []
        elif c == 1: p["expiration"] = "2099-01-01T00:00:00Z"
        else: p["conditions"].append({"acl": "private"})
        new = base64.b64encode(json.dumps(p).encode()).decode()
    elif n == "x-amz-credential" and c < 4:
        s = v.split("/")
        i = rng.randrange(len(s))
        s[i] = rng.choice([flip(rng, s[i]), "", s[i] + "x", rng.choice(KEYS)[0] if i == 0 else "q"])
        new = "/".join(s)
    elif n == "x-amz-date" and c < 3:
        new = amz(r.t + rng.choice([1, -1, 86400, -86400]))
    elif c == 3:
        new = None
    else:
        new = rng.choice([flip(rng, v), v + "x", v[:-1], "", v.upper(), v + "="])
    r.form = [x for x in r.form if x[0] != n]
    if new is not None:
        r.form.insert(rng.randrange(len(r.form) + 1), (n, new))
    if rng.random() < 0.1 and new is not None:
        r.form.append((n, v))
    form_body(r)
    return r


# ---- requests without valid credentials ----

METHODS = ["GET", "PUT", "POST", "DELETE", "HEAD", "OPTIONS", "PATCH", "TRACE", "CONNECT", "PROPFIND", "get", "X"]


def anon(rng):
    """something without valid credentials"""
    c = rng.random()
    if c < 0.35:
        r = base(rng)
        r.how = "none"
        if rng.random() < 0.3:
            r.method = rng.choice(METHODS)
    elif c < 0.5:
        # any target
        p = "/" + rng.choice(["", "bkt", "bkt/", "bkt/k", "BKT", "..", "bkt/../x", "a/b/c", "%2e%2e/x", "b" * 70, "bkt/" + "k" * 1100, "bkt//", "%ff", "%zz", "bkt/%00", "x", "bkt/a%2Fb"])
        q = rng.choice([None, "", "x", "acl", "delete", "uploads", "uploadId=1", "uploadId=1&partNumber=1", "list-type=2", "location", "X-Amz-Signature=", "X-Amz-Signature=" + "0" * 64,
                        "X-Amz-Credential=AKID/20260101/us-east-1/s3/aws4_request", "a=%zz", "AWSAccessKeyId=AKID&Signature=x&Expires=9999999999", "%"])
        r = R(rng.choice(METHODS), p, q, [("host", "localhost")], rng.choice([b"", b"x", DELXML]))
        r.op, r.how = "?", "none"
    elif c < 0.6:
        # a form without fields, or with invented ones
        r = R("POST", rng.choice(["/bkt", "/bkt/", "/bkt/k", "/"]), None, [("host", "localhost")])
        r.op, r.how, r.isform = "PutObject", "form", True
        sign_form(r, rng, rng.choice(["AKID", "nobody", ""]), rng.choice(["guess", "", "AKID"]), T0)
        for n in rng.sample(["policy", "x-amz-signature", "x-amz-credential", "x-amz-date", "x-amz-algorithm"], rng.choice([0, 0, 1, 2, 5])):
            r.form = [x for x in r.form if x[0] != n]
        form_body(r)
    elif c < 0.75:
        # wrong secret
        r = base(rng)
        ak = rng.choice([k for k, _ in KEYS] + ["nobody", "", "root", "AKID "])
        sk = rng.choice(["", "guess", "AWS4", "topsecre", "topsecret ", "TOPSECRET", ak])
        if dict(KEYS).get(ak) == sk:
            sk = "guess"
        if rng.random() < 0.4:
            # the secret of a key whose id is almost the same
            k, sk = rng.choice(KEYS)
            ak = near(rng, k)
            if ak in dict(KEYS) or not ak.isascii() or "," in ak or "\0" in ak:
                ak = k.lower() + "z"
        r.how = rng.choice(["header", "query"])
        if r.how == "header":
            sign_header(r, rng, ak, sk, T0, payload=rng.choice([None, UNSIGNED]))
        else:
            sign_query(r, rng, ak, sk, T0)
    elif c < 0.765:
        # a form that is signed correctly allows an upload to the bucket, and nothing else
        r = good(rng, "form")
        r.path, r.query = rng.choice([("/bkt/k", None), ("/bkt/k", "uploads"), ("/bkt/k", "uploads="), ("/bkt/k", "uploadId=u1"), ("/bkt/a/b", None), ("/", None), ("/bkt/k", "delete"),
                                      ("/bkt//k", "uploads"), ("/b2x/k", "uploadId=u1&x=y")])
        r.want = "refuse"
    elif c < 0.79:
        # a form signed with the secret of a key whose id is almost the same
        k, sk = rng.choice(KEYS)
        r = R("POST", "/bkt", None, [("host", "localhost")])
        r.op, r.how = "PutObject", "form"
        ak = near(rng, k)
        sign_form(r, rng, ak if ak.isascii() and ak.isprintable() else "z" + k, sk, T0)
        form_body(r)
    elif c < 0.9:
        # incomplete credentials
        r = good(rng, rng.choice(["header", "query"]))
        if r.how == "header":
            x = rng.randrange(6)
            a = r.h("authorization")[0]
            if x == 0: r.delh("authorization")
            elif x == 1: r.seth("authorization", re.sub(r"(, )?(SignedHeaders|Signature)=[^,]*", "", a, count=1))
            elif x == 2: r.seth("authorization", rng.choice(["Basic QUtJRDp0b3BzZWNyZXQ=", "Bearer x", "AWS AKID:c2ln", "AWS4-HMAC-SHA256", "", "AWS4-HMAC-SHA256 ", "x" * 300, a.split(",")[0],
                                                         "AWS4-HMAC-SHA256 Credential=AKID/20260101/us-east-1/s3/aws4_request, SignedHeaders=, Signature="]))
            elif x == 3: r.delh("x-amz-date")
            elif x == 4: r.delh("x-amz-content-sha256")
            else: r.seth("authorization", re.sub(r"Signature=.*", "Signature=" + rng.choice(["", "0" * 64, "null"]), a))
        else:
            n = rng.choice(["X-Amz-Algorithm", "X-Amz-Credential", "X-Amz-Date", "X-Amz-Expires", "X-Amz-SignedHeaders", "X-Amz-Signature"])
            r.query = "&".join(p for p in r.query.split("&") if not p.startswith(n + "="))
            if rng.random() < 0.3:
                r.query += "&%s=%s" % (n, rng.choice(["", "x", "0", "-1", "%20"]))
        r.want = ""
    else:
        r = mutate(rng, good(rng))
    r.kind = "anon:" + r.how
    return r


def timed(rng):
    """a presigned URL close to the end of its validity"""
    t = T0 + rng.choice([0, 1, -86400 * 30, 86400 * 60, rng.randrange(-10 ** 8, 10 ** 8), calendar.timegm((2028, 2, 29, 23, 59, rng.randrange(60))), calendar.timegm((2027, 12, 31, 23, 59, 59))])
    exp = rng.choice([1, 2, 59, 60, 300, 3600, 86400, 604800, rng.randint(1, 604800)])
    r = base(rng)
    ak, sk = rng.choice(KEYS)
    if rng.random() < 0.2:
        # not a number of seconds, or a strange one
        sign_query(r, rng, ak, sk, t, expires=rng.choice(EXPIRES))
        r.how = "query"
        r.now = t + rng.choice([0, 1, 299, 301, 3600, 604799, 604801, 10 ** 7, 86400001])
        r.kind = "time:form"
        return r
    sign_query(r, rng, ak, sk, t, expires=exp)
    r.how = "query"
    d = rng.choice([-1, -1, -2, 0, 1, 1, 2, 60, 899, 900, 901, 3600, 86400, 10 ** 7, -exp, -exp + 1, -(exp // 2), exp, rng.randint(-exp, exp)])
    r.now = t + exp + d
    r.kind = "time:%s" % ("before" if d < 0 else "after" if d > 0 else "end")
    r.want = "" if d == 0 else "accept" if -exp <= d < 0 else "refuse" if d > 0 else ""
    return r


# ---- execution ----

MOCK = {"GetObject": {"body": [exe.b64(CANARY.encode())], "content_length": len(CANARY), "e_tag": '"%s"' % CANARY, "metadata": {"a": CANARY}},
        "HeadObject": {"content_length": 7, "e_tag": '"%s"' % CANARY, "metadata": {"a": CANARY}},
        "ListObjects": {"name": CANARY, "contents": [{"key": CANARY}]}, "ListObjectsV2": {"name": CANARY, "contents": [{"key": CANARY}]},
        "ListBuckets": {"buckets": [{"name": CANARY}]}, "GetBucketLocation": {"location_constraint": CANARY}}


def b(x):
    return list(x.encode("latin1") if isinstance(x, str) else x)


def case_of(r, now):
    """the request as TLC gets it"""
    return {"method": b(r.method), "path": list(r.path.encode()), "query": list((r.query or "").encode()), "hasq": r.query is not None,
            "headers": [[list(n.lower().encode()), b(v.strip(" \t"))] for n, v in r.headers],
            "bodyhash": b(hashlib.sha256(r.body).hexdigest()), "now": [int(now) // 86400, int(now) % 86400],
            "terms": [{"hex": b(h), "sk": list(sk.encode()), "date": b(d), "region": list(g.encode()), "canon": list(c)} for h, sk, d, g, c in r.terms],
            "form": [[list(n.encode()), list(v.encode()) if isinstance(v, str) else list(v)] for n, v in r.form], "isform": r.isform, "polok": r.polok,
            "want": r.want}


def observe(resp, calls):
    if "badreq" in resp:
        return None
    if "status" not in resp:
        return "no response: %s" % json.dumps(resp)[:100]
    st = resp["status"]
    if len(calls) == 1 and st < 300:
        return "accepted"
    if not calls and st >= 400:
        import base64
        body = base64.b64decode(resp.get("body") or "")
        text = body.decode("latin1") + json.dumps(resp["headers"])
        if CANARY in text:
            return "revealed"
        return "refused"
    return "status %d with %d calls" % (st, len(calls))


class Driver:
    def __init__(self, shim=True):
        self.ex = exe.Exec(shim=shim)
        self.n = 0
        self.new()

    def new(self):
        self.ex.cmd(cmd="svc", id="m", kind="mock", root="", auth=dict(KEYS))
        for k, v in MOCK.items():
            self.ex.cmd(cmd="mock", svc="m", op=k, result=v)
        self.ex.cmd(cmd="calls", svc="m")

    def run(self, rng, r):
        """-> (case, observation)"""
        now = r.now if r.now is not None else T0 + 5
        self.ex.cmd(cmd="shim", arg="clock %d" % now)
        body = r.body
        frames = None
        if body:
            k = rng.choice([1, 1, 2, 5])
            cuts = sorted(rng.randrange(len(body) + 1) for _ in range(k - 1))
            frames = [exe.b64(body[i:j]) for i, j in zip([0] + cuts, cuts + [len(body)])]
        hs = list(r.headers)
        if body and not r.h("content-length") and rng.random() < 0.7:
            hs.append(("content-length", str(len(body))))
        req = dict(cmd="req", svc="m", method=r.method, uri=r.uri, headers=[[n, v] for n, v in hs])
        if frames is not None:
            req["frames"] = frames
        resp = self.ex.cmd(**req)
        calls = self.ex.cmd(cmd="calls", svc="m")["calls"]
        obs = observe(resp, calls)
        if obs is None:
            return None
        c = case_of(r, now)
        c["obs"] = obs
        return c, {"request": [r.method, r.uri, hs], "body": exe.b64(body), "now": now, "kind": r.kind, "response": resp, "calls": calls}

    def close(self):
        self.ex.close()


def generate(pid, rng, n):
    out = []
    if pid == "C13":
        out = [good(rng) for _ in range(n)]
    elif pid == "C15":
        out = [timed(rng) for _ in range(n)]
    elif pid == "C11":
        for _ in range(n):
            out.append(good(rng) if rng.random() < 0.06 else anon(rng))
    else:
        while len(out) < n:
            a, o = good(rng), good(rng)
            if rng.random() < 0.2:
                o = good(rng, a.how)
            if rng.random() < 0.1:
                out.append(a)
            for _ in range(5):
                out.append(mutate(rng, a, o))
                if rng.random() < 0.1:
                    out.append(mutate(rng, out[-1], o) if out[-1].how != "form" and hasattr(out[-1], "sig") and out[-1].query is not None else out[-1].copy())
    return out


def judge_cases(out, cases, infos, keys=KEYS, label="request"):
    c = judge.cases(out, "AuthTrace", {"keys": [[list(a.encode()), list(s.encode())] for a, s in keys], "cases": cases}, infos,
                    lambda i: "%s %s %s (%s): specified, observed" % (label, i["request"][0], i["request"][1][:200], i["kind"]), "auth")
    if c:
        out.add(specified_accept=c[0], specified_refuse=c[1], specified_free=c[2])
    if infos:
        out.samples.append([infos[0]["kind"], infos[0]["request"], infos[0]["response"].get("status")])


def work(pid, seed, part, n):
    out = run.Out()
    rng = random.Random("%s-%d-%d" % (pid, seed, part))
    d = Driver()
    cases, infos = [], []
    try:
        for r in generate(pid, rng, n):
            try:
                x = d.run(rng, r)
            except exe.Died as e:
                out.violation("the server process died: %s" % e, "died", {"request": [r.method, r.uri, r.headers]})
                d = Driver()
                continue
            if x:
                cases.append(x[0])
                infos.append(x[1])
    finally:
        d.close()
    for i in range(0, len(cases), 1500):
        judge_cases(out, cases[i:i + 1500], infos[i:i + 1500])
    return out


COUNT = {"C11": (2000, 25000), "C12": (3000, 40000), "C13": (2500, 25000), "C15": (1500, 20000)}


def check(pid):
    def f(ctx):
        n = COUNT[pid][0 if ctx.quick else 1]
        jobs = [(work, (pid, ctx.seed, p, n)) for p in range(8)]
        if pid == "C11":
            jobs = jobs[:7] + [(program, (ctx.seed, 150 if ctx.quick else 2000))]
        return run.parallel(jobs)
    return f


# ---- the server program ----

def raw(port, r, timeout=20):
    s = socket.create_connection(("127.0.0.1", port), timeout)
    try:
        msg = ("%s %s HTTP/1.1\r\n" % (r.method, r.uri)).encode()
        for n, v in r.headers:
            msg += n.encode() + b": " + v.encode("latin1") + b"\r\n"
        if not r.h("host"):
            msg += b"host: localhost\r\n"
        msg += b"content-length: %d\r\nconnection: close\r\n\r\n" % len(r.body)
        s.sendall(msg + r.body)
        data = b""
        while True:
            try:
                x = s.recv(65536)
            except OSError:
                break
            if not x:
                break
            data += x
        return data
    finally:
        s.close()


def snapshot(root):
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for n in sorted(ds):
            out.append((os.path.join(d, n), None))
        for n in sorted(fs):
            p = os.path.join(d, n)
            out.append((p, hashlib.md5(open(p, "rb").read()).hexdigest()))
    return sorted(out)


def program(seed, n):
    """the real server program, started with an access key and a secret key, over TCP"""
    out = run.Out()
    rng = random.Random("program-%d" % seed)
    top = exe.scratch()
    cases, infos = [], []
    exepath = os.path.join(exe.HARNESS, "target", "debug", "s3-server")
    kw = dict(user=exe.NOBODY, group=exe.NOBODY, extra_groups=[]) if os.geteuid() == 0 else {}
    try:
        for ak, sk in [("AKID", "topsecret"), ("a.b-c", "s3cr/et+=")]:
            root = os.path.join(top, "root-" + ak)
            os.mkdir(root)
            for d in ("bkt", "b2x", "bkt/dir"):
                os.mkdir(os.path.join(root, d))
            for f in ("bkt/a", "bkt/dir/x", "bkt/k1", "b2x/victim"):
                open(os.path.join(root, f), "w").write(CANARY)
            for d, ds, fs in os.walk(root):
                os.chown(d, exe.NOBODY, exe.NOBODY)
                for x in fs:
                    os.chown(os.path.join(d, x), exe.NOBODY, exe.NOBODY)
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            port = s.getsockname()[1]
            s.close()
            p = subprocess.Popen([exepath, "--fs-root", root, "--host", "127.0.0.1", "--port", str(port), "--access-key", ak, "--secret-key", sk],
                                 env={"PATH": "/usr/bin:/bin", "RUST_LOG": "off"}, cwd=top, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, **kw)
            try:
                for _ in range(500):
                    try:
                        socket.create_connection(("127.0.0.1", port), 1).close()
                        break
                    except OSError:
                        if p.poll() is not None:
                            raise exe.ToolError("the server program ended")
                        time.sleep(0.02)
                before = snapshot(root)
                for i in range(n // 2):
                    t = int(time.time()) - 5
                    good_one = rng.random() < 0.2
                    if good_one:
                        r = base(rng, rng.choice(["GetObject", "HeadObject", "ListObjects", "ListBuckets", "HeadBucket"]))
                        r.path = {"GetObject": "/bkt/a", "HeadObject": "/bkt/dir/x", "ListBuckets": "/"}.get(r.op, "/bkt")
                        r.query = None
                        r.headers = []
                        r.how = rng.choice(["header", "query"])
                        (sign_header if r.how == "header" else sign_query)(r, rng, ak, sk, t)
                        r.want = "accept"
                    else:
                        r = anon(rng)
                        if (ak, sk) == KEYS[0] and r.terms:
                            # signed in the past: still valid for this key
                            r = base(rng)
                            r.how = "none"
                        if rng.random() < 0.5 and r.how == "none":
                            r.path = rng.choice(["/bkt/a", "/bkt/dir/x", "/bkt", "/", "/b2x/victim"])
                        if not r.method.isascii() or any(ord(c) > 126 or ord(c) < 33 or c in "\"<>\\^`{|}" for c in r.uri):
                            continue
                    r.kind = "program:" + r.how
                    if r.method in ("CONNECT",):
                        continue
                    data = raw(port, r)
                    head, _, body = data.partition(b"\r\n\r\n")
                    m = re.match(rb"HTTP/1.1 (\d+)", head)
                    st = int(m.group(1)) if m else 0
                    after = snapshot(root)
                    resp = {"status": st, "head": head.decode("latin1"), "bodyhead": body[:200].decode("latin1")}
                    if st == 0:
                        obs = "no response"
                    elif after != before:
                        obs = "accepted and changed"
                        before = after
                    elif st >= 400:
                        obs = "revealed" if CANARY in data.decode("latin1") else "refused"
                    else:
                        obs = "accepted"
                    c = case_of(r, t + 5)
                    c["obs"] = obs
                    if not good_one:
                        c["want"] = ""
                    cases.append(c)
                    infos.append({"request": [r.method, r.uri, r.headers], "kind": r.kind, "response": resp, "body": exe.b64(r.body), "keys": [ak, sk]})
            finally:
                p.kill()
                p.wait()
            judge_cases(out, cases, infos, keys=[(ak, sk)], label="server program:")
            cases, infos = [], []
        # half of a key pair is not accepted on the command line
        for args in (["--access-key", "x"], ["--secret-key", "y"]):
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            port = s.getsockname()[1]
            s.close()
            p = subprocess.Popen([exepath, "--fs-root", top, "--host", "127.0.0.1", "--port", str(port)] + args, env={"PATH": "/usr/bin:/bin", "RUST_LOG": "off"}, cwd=top,
                                 stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, **kw)
            try:
                deadline = time.time() + 3
                while time.time() < deadline and p.poll() is None:
                    try:
                        socket.create_connection(("127.0.0.1", port), 0.2).close()
                    except OSError:
                        time.sleep(0.05)
                        continue
                    r = R("GET", "/", None, [("host", "localhost")])
                    if b" 200 " in raw(port, r)[:20]:
                        out.violation("the server program serves anonymous requests when started with %s" % " ".join(args), "halfkey", {"args": args})
                    break
            finally:
                p.kill()
                p.wait()
    finally:
        exe.drop_scratch(top)
    return out
