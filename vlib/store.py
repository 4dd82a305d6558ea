"""Builds the HTTP requests of S3 operations and reads their responses into the terms of S3Store.tla.

Nothing here knows what a response should be: that is S3Store.tla's business.
"""
import base64, calendar, hashlib, json, os, random, re, time
import urllib.parse as up
import xml.etree.ElementTree as ET
from . import sig
from .exe import b64

UNRES = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~")


def enc(b, safe=b"/", rng=None):
    """percent-encode bytes; with rng in one of the many equivalent ways"""
    if isinstance(b, str):
        b = b.encode()
    out = []
    extra = b"!$'()*,:;=@&+" if rng is not None and rng.random() < 0.3 else b""
    mode = rng.random() if rng is not None else 0
    for c in b:
        if c in UNRES or c in safe or c in extra:
            if mode > 0.95 and c not in b"/" and rng.random() < 0.5:
                out.append("%%%02X" % c)
            else:
                out.append(chr(c))
        elif mode > 0.8:
            out.append("%%%02x" % c)
        else:
            out.append("%%%02X" % c)
    return "".join(out)


def xml_escape(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\r", "&#13;")


def strip_ns(t):
    return t.split("}")[-1]


def harmless(rng, method):
    """headers that change nothing"""
    ct = ["text/plain", "application/octet-stream", "text/html; charset=utf-8", "application/xml", "application/x-www-form-urlencoded", "multipart/mixed; boundary=x", "multipart/related; boundary=\"a b\"",
          "image/svg+xml", "application/json; q=\"a;b\""]
    if method != "POST":
        ct += ["multipart/form-data; boundary=x", "multipart/form-data"]
    hs = [["content-type", rng.choice(ct)], ["user-agent", "client/1.0 (x; y)"], ["accept", "*/*"], ["accept-encoding", "gzip, identity"], ["cache-control", "no-cache"],
          ["origin", "http://localhost:8080"], ["referer", "http://localhost/?uploads&delete"], ["x-forwarded-for", "10.0.0.1"], ["x-request-id", "1"], ["accept-language", "de"], ["pragma", "no-cache"],
          ["cookie", "a=b; c=d"], ["x-meta-a", "b"], ["amz-meta-a", "b"], ["content-language", "en"], ["content-disposition", "attachment; filename=\"x.txt\""], ["x-amz-request-payer", "requester"]]
    if method == "PUT":
        hs += [["x-amz-storage-class", "STANDARD"], ["x-amz-storage-class", "REDUCED_REDUNDANCY"]]
    out = [list(x) for x in rng.sample(hs, rng.choice([1, 1, 2, 3]))]
    return [x for i, x in enumerate(out) if x[0] not in [y[0] for y in out[:i]]]


class World:
    """the tables that histories share: keys, segments of content, known contents"""

    def __init__(self):
        self.keys, self.keyid = [], {}
        self.segs, self.segid = [], {}
        self.prefix8 = {}
        self.md5 = {}
        self.unknown = {}
        self.note([])

    def key(self, k):
        if isinstance(k, str):
            k = k.encode("utf-8", "surrogatepass")
        if k not in self.keyid:
            self.keys.append(k)
            self.keyid[k] = len(self.keys)
        return self.keyid[k]

    def kb(self, i):
        return self.keys[i - 1]

    def seg(self, b):
        """the content with bytes b: one segment, or one for each byte if there are few (joined parts may then be the
        same bytes as a short content that was sent whole, and must be the same content)"""
        if not b:
            return []
        if 1 < len(b) <= 16:
            c = [i for x in b for i in self.seg(bytes([x]))]
            self.note(c)
            return c
        if b not in self.segid:
            self.segs.append(b)
            self.segid[b] = len(self.segs)
            if len(b) >= 8:
                self.prefix8.setdefault(b[:8], []).append(len(self.segs))
        c = [self.segid[b]]
        self.note(c)
        return c

    def bytes(self, c):
        return b"".join(self.segs[i - 1] for i in c)

    def note(self, c):
        h = hashlib.md5(self.bytes(c)).hexdigest()
        self.md5.setdefault(h, list(c))
        return h

    def decode(self, b=None, md5=None):
        """the content that some bytes are"""
        h = md5 or hashlib.md5(b).hexdigest()
        if h in self.md5:
            return list(self.md5[h])
        if b is not None:
            c, i = [], 0
            while i < len(b):
                for s in self.prefix8.get(b[i:i + 8], []):
                    if b.startswith(self.segs[s - 1], i):
                        c.append(s)
                        i += len(self.segs[s - 1])
                        break
                else:
                    break
            else:
                self.note(c)
                return c
        return [-(self.unknown.setdefault(h, len(self.unknown) + 1))]

    def etag(self, v):
        """the content an ETag names"""
        if v is None:
            return [-1000001]
        m = re.fullmatch(r'"([0-9a-f]{32})"', v)
        if not m:
            return [-1000002]
        return self.decode(md5=m.group(1))


def http_time(v):
    try:
        return time.strftime("%Y-%m-%dT%H:%M:%S", time.strptime(v, "%a, %d %b %Y %H:%M:%S GMT"))
    except (ValueError, TypeError):
        return "?%s" % v


def iso_time(v):
    """the instant, whatever the zone it is written in"""
    m = re.fullmatch(r"(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d)(\.\d+)?(Z|[+-]\d\d:\d\d)", v or "")
    if not m:
        return "?%s" % v
    t, z = calendar.timegm(time.strptime(m.group(1), "%Y-%m-%dT%H:%M:%S")), m.group(3)
    if z != "Z":
        t -= (1 if z[0] == "+" else -1) * (3600 * int(z[1:3]) + 60 * int(z[4:6]))
    return time.strftime("%Y-%m-%dT%H:%M:%S", time.gmtime(t))


def canon_meta(m):
    return json.dumps(sorted(m.items())) if m else ""


def etag_of(w, c):
    return '"%s"' % w.note(c)


class Hist:
    """one history of requests against one fresh store"""

    def __init__(self, world, ex, rng, keep=None, svc=None):
        self.w, self.ex, self.rng = world, ex, rng
        self.root = keep or ex.root()
        self.id = "s%d" % ex.n
        self.auth = {"AKID": "topsecret"}
        if svc is None:
            ex.cmd(cmd="svc", id=self.id, kind="fs", root=self.root)
            ex.cmd(cmd="svc", id=self.id + "a", kind="fs", root=self.root, auth=self.auth)
        self.ev = []
        self.quiet = False
        self.reqlog = []
        self.n = 0
        self.parts = {}       # (uid, n) -> contents uploaded so far
        self.contents = []    # contents of this history, for range reads

    # ---- requests -------------------------------------------------------------------------
    def path(self, b, k=None, vary=True):
        rng = self.rng if vary else None
        p = "/" + enc(b)
        if k is not None:
            kb = self.w.kb(k)
            p += "/" + enc(kb, rng=rng)
        return p

    def frames(self, data, cut=None):
        """cut data into frames"""
        rng = self.rng
        if cut is None:
            cut = rng.choice(["one", "one", "two", "many", "empty"])
        if cut == "one" or len(data) == 0:
            return [b64(data)] if data or rng.random() < 0.5 else []
        if cut == "bytes" and len(data) <= 300:
            return [b64(data[i:i + 1]) for i in range(len(data))]
        n = {"two": 1, "empty": 2}.get(cut, rng.randint(2, 6))
        pts = sorted(rng.randint(0, len(data)) for _ in range(n))
        out, prev = [], 0
        for p in pts + [len(data)]:
            if p > prev or cut == "empty":
                out.append(b64(data[prev:p]))
            prev = p
        return out

    def meta_headers(self, m):
        return [["x-amz-meta-" + k, v] for k, v in m.items()]

    def make(self, a):
        """the HTTP request of an operation"""
        w, op = self.w, a["op"]
        svc = self.id
        hs, body, q = [], None, ""
        if op == "createbucket":
            r = dict(method="PUT", uri=self.path(a["b"]))
        elif op == "deletebucket":
            r = dict(method="DELETE", uri=self.path(a["b"]))
        elif op == "headbucket":
            r = dict(method="HEAD", uri=self.path(a["b"]))
        elif op == "location":
            r = dict(method="GET", uri=self.path(a["b"]) + "?location")
        elif op == "listbuckets":
            r = dict(method="GET", uri="/")
        elif op in ("put", "part"):
            if op == "part":
                q = "?partNumber=%s&uploadId=%s" % (a["n"], up.quote(a["u"], safe=""))
                if self.rng.random() < 0.2:
                    q = "?uploadId=%s&partNumber=%s" % (up.quote(a["u"], safe=""), a["n"])
            body = w.bytes(a["c"])
            if op == "put":
                hs += self.meta_headers(a["_meta"])
            if a["md5"] == "good":
                hs.append(["content-md5", b64(hashlib.md5(body).digest())])
            elif a["md5"] == "bad":
                other = bytearray(hashlib.md5(body).digest())
                i = self.rng.randrange(128)
                other[i // 8] ^= 1 << (i % 8)
                hs.append(["content-md5", b64(bytes(other))])
            elif a["md5"] == "invalid":
                good = b64(hashlib.md5(body).digest())
                hs.append(["content-md5", self.rng.choice(
                    [good[:-4], "", "x", good[:-1], hashlib.md5(body).hexdigest(), b64(b"short"), "!" + good[1:],
                     good + "A=", b64(hashlib.md5(body).digest() + b"x")])])
            hs += [] if a.get("_nolen") else self.length(body)
            r = dict(method="PUT", uri=self.path(a["b"], a["k"]) + q)
        elif op == "form":
            svc = self.id + "a"
            data, ct = self.form_body(a)
            hs.append(["content-type", ct])
            hs += self.length(data)
            r = dict(method="POST", uri=self.path(a["b"]), frames=self.frames(data, a.get("_cut")))
            if a["broken"]:
                bnd = ct.split("boundary=")[1].encode()
                keep = min(a["_keep"], data.rfind(b"\r\n--" + bnd) + 3 + len(bnd))
                r["frames"] = self.frames(data[:keep]) + ([{"err": 1}] if a["_how"] == "err" else [])
        elif op in ("get", "head"):
            if a.get("hasrange"):
                hs.append(["range", bytes(a["range"]).decode("latin1")])
            r = dict(method=op.upper(), uri=self.path(a["b"], a["k"]))
        elif op == "list":
            qs = []
            if a["v"] == 2:
                qs.append("list-type=2")
            if a["prefix"] or self.rng.random() < 0.2:
                qs.append("prefix=" + enc(bytes(a["prefix"]), safe=b"", rng=self.rng).replace("+", "%2B").replace("&", "%26").replace("=", "%3D"))
            if a["_enc"]:
                qs.append("encoding-type=url")
            self.rng.shuffle(qs)
            r = dict(method="GET", uri=self.path(a["b"]) + ("?" + "&".join(qs) if qs else ""))
        elif op == "delete":
            r = dict(method="DELETE", uri=self.path(a["b"], a["k"]))
        elif op == "deletes":
            objs = "".join("<Object><Key>%s</Key></Object>" % xml_escape(w.kb(k).decode()) for k in a["ks"])
            quiet = "<Quiet>true</Quiet>" if a["quiet"] else self.rng.choice(["", "<Quiet>false</Quiet>"])
            body = ('<?xml version="1.0" encoding="UTF-8"?><Delete>%s%s</Delete>' % (objs, quiet)).encode()
            if self.rng.random() < 0.3:
                body = ('<Delete xmlns="http://s3.amazonaws.com/doc/2006-03-01/">%s%s</Delete>' % (objs, quiet)).encode()
            hs += self.length(body)
            r = dict(method="POST", uri=self.path(a["b"]) + "?delete")
        elif op == "copy":
            src = enc(a["sb"]) + "/" + enc(w.kb(a["sk"]), rng=self.rng)
            if self.rng.random() < 0.5:
                src = "/" + src
            hs.append(["x-amz-copy-source", src])
            if a["replace"]:
                hs.append(["x-amz-metadata-directive", "REPLACE"])
            elif self.rng.random() < 0.4:
                hs.append(["x-amz-metadata-directive", "COPY"])
            hs += self.meta_headers(a["_meta"])
            r = dict(method="PUT", uri=self.path(a["b"], a["k"]))
        elif op == "create":
            hs += self.meta_headers(a["_meta"])
            r = dict(method="POST", uri=self.path(a["b"], a["k"]) + "?uploads")
        elif op == "complete":
            ps = []
            for p in a["parts"]:
                e = ""
                if p["e"] == "some":
                    t = etag_of(w, p["c"])
                    e = "<ETag>%s</ETag>" % self.rng.choice([xml_escape(t), t.replace('"', "&quot;"), t.replace('"', "")])
                elif p["e"] == "bogus":
                    e = "<ETag>&quot;%032x&quot;</ETag>" % self.rng.getrandbits(128)
                n = "<PartNumber>%d</PartNumber>" % p["n"]
                ps.append("<Part>%s</Part>" % "".join(self.rng.sample([n, e], 2)))
            body = ("<CompleteMultipartUpload>%s</CompleteMultipartUpload>" % "".join(ps)).encode()
            hs += self.length(body)
            r = dict(method="POST", uri=self.path(a["b"], a["k"]) + "?uploadId=" + up.quote(a["u"], safe=""))
        elif op in ("refuse", "free", "fail"):
            r = dict(a["_req"])
            hs = list(r.pop("headers", []))
            svc = r.pop("svc", svc)
        else:
            raise ValueError(op)
        hs += a.get("_more", [])
        if op not in ("refuse", "free", "fail", "form") and self.rng.random() < 0.15:
            # what the operations do not depend on
            hs += harmless(self.rng, r["method"])
        if body is not None:
            if a.get("_chunked"):
                svc = self.id + "a"
                r["headers"] = hs
                r["frames"] = self.chunked(r, body, a["_chunked"])
                hs = []
            elif a.get("broken"):
                r["frames"] = self.frames(body[:a["_keep"]]) + [{"err": 1}]
            else:
                r["frames"] = self.frames(body, a.get("_cut"))
        r.setdefault("headers", [])
        r["headers"] = r["headers"] + hs
        r["svc"] = svc
        return r

    def length(self, body):
        """with Content-Length, or (rarely) with a transfer encoding that does without"""
        return [] if self.rng.random() < 0.12 else [["content-length", str(len(body))]]

    def chunked(self, r, body, how):
        """chunk-signed payload; all kinds but "good" are not complete and correctly signed"""
        rng = self.rng
        r["headers"] += [["x-amz-decoded-content-length", str(len(body))], ["content-encoding", "aws-chunked"]]
        ak, sk = list(self.auth.items())[0]
        d = sig.amz_date()
        r["headers"].append(["x-amz-date", d])
        seed = sig.sign_headers(r, ak, sk, payload="STREAMING-AWS4-HMAC-SHA256-PAYLOAD")
        n = rng.choice([0, 1, 2, 3]) if body else 0
        pts = sorted(set(rng.randint(1, len(body)) for _ in range(n)) | {0, len(body)}) if body else [0]
        data = [body[x:y] for x, y in zip(pts, pts[1:])] + [b""]
        sigs = sig.chunk_sigs(sk, d, seed, data)
        raw = [sig.chunk_bytes(x, y) for x, y in zip(data, sigs)]
        if how == "nofinal":
            raw = raw[:-1]
        elif how == "drop" and len(raw) > 1:
            raw.pop(rng.randrange(len(raw) - 1))
        elif how == "cut":
            whole = b"".join(raw)
            # before the end of the signature of the final chunk
            raw = [whole[:rng.randint(0, len(whole) - 5)]]
        elif how == "flip" and len(body):
            i = rng.randrange(len(raw) - 1)
            x = bytearray(raw[i])
            j = len(x) - 3 - rng.randrange(len(data[i]))
            x[j] ^= 1 << rng.randrange(8)
            raw[i] = bytes(x)
        elif how == "sig":
            i = rng.randrange(len(raw))
            raw[i] = sig.chunk_bytes(data[i], "%064x" % rng.getrandbits(256))
        elif how == "swap" and len(raw) > 2:
            raw[0], raw[1] = raw[1], raw[0]
        elif how == "dup" and len(raw) > 1:
            raw.insert(1, raw[0])
        elif how == "err":
            raw = raw[:-1]
            return self.frames(b"".join(raw)) + [{"err": 1}]
        elif how != "good":
            raw = raw[:-1]
        return self.frames(b"".join(raw))

    def sign(self, req, how="good", presign=False):
        """send a request to the service which authenticates; wrong signatures with how = bad, secret, ..."""
        rng = self.rng
        req["svc"] = self.id + "a"
        ak, sk = list(self.auth.items())[0]
        body = b"".join(base64.b64decode(f) for f in req.get("frames") or [] if isinstance(f, str))
        kw = {}
        if how == "secret":
            sk = sk + "x"
        elif how == "key":
            ak = "NOSUCHKEY"
        elif how == "none":
            return req
        if presign:
            sig.presign(req, ak, sk)
            if how == "bad":
                s = req["uri"]
                req["uri"] = s[:-1] + ("0" if s[-1] != "0" else "1")
        else:
            sig.sign_headers(req, ak, sk, body=body if how != "payload" else body + b"x")
            if how == "bad":
                v = req["headers"][-1][1]
                req["headers"][-1][1] = v[:-1] + ("0" if v[-1] != "0" else "1")
        return req

    def form_body(self, a):
        w = self.w
        data = w.bytes(a["c"])
        fields = [("key", w.kb(a["k"]).decode())] + [("x-amz-meta-" + k, v) for k, v in a["_meta"].items()]
        ak, sk = list(self.auth.items())[0]
        fields += sig.form_fields(ak, sk, conditions=[["starts-with", "$key", ""], {"bucket": a["b"]}] +
                                  [["starts-with", "$x-amz-meta-" + k, ""] for k in a["_meta"]])
        self.rng.shuffle(fields)
        bs = ["b", "----WebKitFormBoundary7MA4YWxk", "x" * 60]
        self.rng.shuffle(bs)
        bs.append("%032x" % self.rng.getrandbits(128))
        bnd = [x for x in bs if x.encode() not in data and not any(x in v or x in n for n, v in fields)][0]
        return sig.multipart(fields, data, bnd,
                             epilogue=self.rng.choice([b"", b"\r\n"]))

    # ---- responses ------------------------------------------------------------------------
    def parse(self, a, v):
        """the response as a record of S3Store.tla"""
        w, op = self.w, a["op"]
        if "status" not in v:
            if v.get("badreq"):
                raise ValueError("request can not be sent: %r" % v)
            return {"st": "err", "code": "!" + ("panic" if "panic" in v else "none"), "http": 0}
        h = {}
        for n, x in v["headers"]:
            h.setdefault(n, x)
        status = v["status"]
        body = base64.b64decode(v["body"]) if "body" in v else None
        if status >= 300:
            code = ""
            if body:
                try:
                    code = ET.fromstring(body).findtext("Code") or "?"
                except ET.ParseError:
                    code = "?"
            return {"st": "err", "code": code, "http": status}
        r = {"st": "ok", "http": status}
        meta = {n[len("x-amz-meta-"):]: x.encode("latin1").decode("utf-8", "replace")
                for n, x in v["headers"] if n.startswith("x-amz-meta-")}
        if v.get("body_err"):
            body = None
            v = dict(v, md5="body-error")
        if op in ("get", "head"):
            r["meta"] = canon_meta(meta)
            r["etag"] = w.etag(h.get("etag"))
            r["noetag"] = "etag" not in h
            r["mtime"] = http_time(h.get("last-modified"))
            cl = h.get("content-length", "")
            r["clen"] = int(cl) if cl.isdigit() and len(cl) < 9 else -1
            if op == "get":
                r["body"] = w.decode(body, v["md5"])
                if r["clen"] == -1:
                    r["clen"] = v["len"]       # chunked
                m = re.fullmatch(r"bytes (\d{1,8})-(\d{1,8})/(\d{1,8})", h.get("content-range", ""))
                r["part"] = bool(m) or status == 206
                if r["part"]:
                    f, l, t = map(int, m.groups()) if m else (-1, -1, -1)
                    r.update(first=f, last=l, total=t)
                    r["match"] = [c for c in self.contents if (w.bytes(c)[f:l + 1] == body if body is not None else f >= 0 and l < len(w.bytes(c)) and
                                                                   hashlib.md5(w.bytes(c)[f:l + 1]).hexdigest() == v["md5"])]
                    if v["len"] != r["clen"]:
                        r["clen"] = -2
                elif v["len"] != r["clen"]:
                    r["clen"] = -2
        elif op in ("put", "part", "form"):
            r["etag"] = w.etag(h.get("etag"))
        elif op in ("copy", "complete", "create", "list", "listbuckets", "deletes"):
            try:
                root = ET.fromstring(body)
            except (ET.ParseError, TypeError):
                return {"st": "err", "code": "!xml", "http": status}
            for e in root.iter():
                e.tag = strip_ns(e.tag)
            T = lambda n: root.findtext(n) or ""
            if op == "copy":
                r["etag"] = w.etag(T("ETag"))
            elif op == "complete":
                r["etag"] = w.etag(T("ETag"))
                r["b"], r["k"] = T("Bucket"), w.key(T("Key"))
            elif op == "create":
                r["u"], r["b"], r["k"] = T("UploadId"), T("Bucket"), w.key(T("Key"))
            elif op == "list":
                dec = (lambda s: up.unquote(s)) if a["_enc"] else (lambda s: s)
                r["keys"] = [w.key(dec(e.findtext("Key") or "")) for e in root.iter("Contents")]
                r["sizes"] = [int(e.findtext("Size") or -1) for e in root.iter("Contents")]
                r["mtimes"] = [iso_time(e.findtext("LastModified")) for e in root.iter("Contents")]
                r["count"] = int(T("KeyCount") or -1)
            elif op == "listbuckets":
                r["buckets"] = [e.findtext("Name") or "" for e in root.iter("Bucket")]
            elif op == "deletes":
                r["deleted"] = [w.key(e.findtext("Key") or "") for e in root.iter("Deleted")]
                r["errors"] = [w.key(e.findtext("Key") or "") for e in root.iter("Error")]
        return r

    # ---- running --------------------------------------------------------------------------
    def prepare(self, a):
        """note what the tables need to know about an operation"""
        w = self.w
        if "c" in a:
            self.contents.append(list(a["c"]))
            w.note(a["c"])
        if a["op"] == "part" and not a["broken"] and a["md5"] in ("none", "good"):
            self.parts.setdefault((a["u"], a["n"]), []).append(list(a["c"]))
        if a["op"] == "complete":
            # the contents that the upload may have, so that ETags can be read
            cands = [[]]
            for p in a["parts"]:
                # the latest first
                cs = self.parts.get((a["u"], p["n"]), [])[::-1]
                cs = ([c for c in cs if c == p["c"]][:1] if p["e"] == "some" else []) + cs[:8]
                cands = [x + y for x in cands for y in cs][:400]
            for c in cands:
                w.note(c)
                self.contents.append(c)

    def do(self, a, timeout=15000):
        """run an operation to its end"""
        self.prepare(a)
        req = self.make(a)
        v = self.ex.cmd(cmd="req", timeout=timeout, **req)
        if v.get("pending"):
            v = {"hang": True}
        r = self.parse(a, v)
        self.add(a, r)
        self.reqlog.append([len(self.ev) - 1, short(req), brief(v)])
        if v.get("hang"):
            raise Hang("no response to %s %s" % (req["method"], req["uri"]))
        return r

    def add(self, a, r, t="op", **kw):
        if self.quiet:
            kw["q"] = True
        self.ev.append(dict(t=t, a=clean(a), r=clean(r), **kw))

    # ---- operations -----------------------------------------------------------------------
    def createbucket(self, b): return self.do(dict(op="createbucket", b=b))
    def deletebucket(self, b): return self.do(dict(op="deletebucket", b=b))
    def headbucket(self, b): return self.do(dict(op="headbucket", b=b))
    def location(self, b): return self.do(dict(op="location", b=b))
    def listbuckets(self): return self.do(dict(op="listbuckets"))

    def put_a(self, b, k, c, meta=None, md5="none", **kw):
        return dict(dict(op="put", b=b, k=k, c=c, m=canon_meta(meta or {}), _meta=meta or {}, md5=md5, broken=False), **kw)

    def put(self, *x, **kw): return self.do(self.put_a(*x, **kw))
    def form(self, *x, **kw): return self.do(dict(self.put_a(*x, **kw), op="form"))

    def get_a(self, b, k, rng=None):
        return dict(op="get", b=b, k=k, range=list(rng.encode("latin1")) if rng is not None else [], hasrange=rng is not None)

    def get(self, *x, **kw): return self.do(self.get_a(*x, **kw))
    def head(self, b, k): return self.do(dict(op="head", b=b, k=k))

    def list_a(self, b, prefix=b"", v=2, enc=False):
        return dict(op="list", b=b, prefix=list(prefix), v=v, _enc=enc)

    def list(self, *x, **kw): return self.do(self.list_a(*x, **kw))
    def delete(self, b, k): return self.do(dict(op="delete", b=b, k=k))
    def deletes(self, b, ks, quiet=False): return self.do(dict(op="deletes", b=b, ks=ks, quiet=quiet))

    def copy_a(self, sb, sk, b, k, replace=False, meta=None):
        return dict(op="copy", sb=sb, sk=sk, b=b, k=k, replace=replace, m=canon_meta(meta or {}), _meta=meta or {})

    def copy(self, *x, **kw): return self.do(self.copy_a(*x, **kw))
    def create(self, b, k, meta=None):
        return self.do(dict(op="create", b=b, k=k, m=canon_meta(meta or {}), _meta=meta or {}))

    def part_a(self, u, b, k, n, c, md5="none", **kw):
        return dict(dict(op="part", u=u, b=b, k=k, n=n, c=c, md5=md5, broken=False), **kw)

    def part(self, *x, **kw): return self.do(self.part_a(*x, **kw))

    def complete_a(self, u, b, k, parts):
        return dict(op="complete", u=u, b=b, k=k, parts=parts)

    def complete(self, *x): return self.do(self.complete_a(*x))
    def refuse(self, req): return self.do(dict(op="refuse", _req=req))
    def free(self, req): return self.do(dict(op="free", _req=req))

    def sweep(self, bs, ks, heads=False):
        """read back everything"""
        self.listbuckets()
        for b in bs:
            self.headbucket(b)
            self.list(b, v=2)
            for k in ks:
                self.get(b, k)
                if heads:
                    self.head(b, k)

    # ---- what lies outside of the storage root ----------------------------------------------
    def plant(self, data):
        d = os.path.dirname(self.root)
        for _ in range(4):
            with open(os.path.join(d, "canary"), "wb") as f:
                f.write(data)
            os.chmod(os.path.join(d, "canary"), 0o666)
            os.makedirs(os.path.join(d, "b2x"), mode=0o777, exist_ok=True)
            os.chown(os.path.join(d, "b2x"), 65534, 65534)
            d = os.path.dirname(d)
        self.before = self.tree()

    def tree(self):
        top = os.path.abspath(self.root)
        while os.path.dirname(top) != "/tmp":
            top = os.path.dirname(top)
        out = {}
        for d, ds, fs in os.walk(top):
            if d == self.root:
                ds[:] = []
                continue
            out[d] = ""
            for f in fs:
                with open(os.path.join(d, f), "rb") as x:
                    out[os.path.join(d, f)] = x.read()
        return out

    def outside(self):
        now = self.tree()
        self.add(dict(op="outside"), dict(st="ok", same=now == self.before))

    def record(self):
        return {"ev": self.ev}


def clean(d):
    return {k: v for k, v in d.items() if not k.startswith("_")}


class Hang(Exception):
    """a request was not answered"""


def short(req):
    req = dict(req)
    fs = req.get("frames") or []
    if sum(len(f) for f in fs if isinstance(f, str)) > 4000:
        req["frames"] = "%d frames, md5 %s" % (len(fs), hashlib.md5(json.dumps(fs).encode()).hexdigest())
    return req


def brief(v):
    v = dict(v)
    if len(v.get("body", "")) > 600:
        v["body"] = v["body"][:600] + "..."
    return v
