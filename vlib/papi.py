"""C17, C18, C24, C28: the HTTP interface, with a storage that records and with the one in the file system."""
import base64, json, os, random, re, sys
import urllib.parse as up
import xml.etree.ElementTree as ET
from . import exe, judge, pauth, run
from .pauth import KEYS, T0
from .pchunk import framing
from .ppost import Form

sys.path.insert(0, os.path.join(exe.VERIF, "tools"))
import gen_api as A

H = {op: A.rows(t["h"]) for op, t in A.TABLES.items()}
Q = {op: A.rows(t["q"]) for op, t in A.TABLES.items()}
OUT = {op: A.rows(t["out"]) for op, t in A.TABLES.items()}
OPS = sorted(A.TABLES)
SUBS = sorted(set((A.BUCKET_SUBS + " " + A.OBJECT_SUBS).split()))
CODES = [c for st, cs in A.STATUS.items() for c in cs.split() if c != "ObjectNotInActiveTierError" and st >= 400] + A.FREE.split()
# method, kind of resource, query
SHAPE = {
    "CompleteMultipartUpload": ("POST", "object", ["uploadId=u1"]), "CopyObject": ("PUT", "object", []), "CreateBucket": ("PUT", "bucket", []),
    "CreateMultipartUpload": ("POST", "object", ["uploads"]), "DeleteBucket": ("DELETE", "bucket", []), "DeleteObject": ("DELETE", "object", []),
    "DeleteObjects": ("POST", "bucket", ["delete"]), "GetBucketLocation": ("GET", "bucket", ["location"]), "GetObject": ("GET", "object", []),
    "HeadBucket": ("HEAD", "bucket", []), "HeadObject": ("HEAD", "object", []), "ListBuckets": ("GET", "root", []), "ListObjects": ("GET", "bucket", []),
    "ListObjectsV2": ("GET", "bucket", ["list-type=2"]), "PutObject": ("PUT", "object", []), "UploadPart": ("PUT", "object", ["partNumber=1", "uploadId=u1"]),
}
OPERR = {"CopyObject": ["ObjectNotInActiveTierError"], "CreateBucket": ["BucketAlreadyExists", "BucketAlreadyOwnedByYou"], "GetObject": ["NoSuchKey", "InvalidObjectState"],
         "HeadBucket": ["NoSuchBucket"], "ListObjects": ["NoSuchBucket"], "ListObjectsV2": ["NoSuchBucket"], "HeadObject": ["NoSuchKey"]}


# ---- Rust's Debug output ----

class Debug:
    def __init__(self, s):
        self.s, self.i = s, 0

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] in " \n,":
            self.i += 1

    def value(self):
        self.ws()
        s, c = self.s, self.s[self.i]
        if c == '"':
            return self.text()
        if c == "[":
            self.i += 1
            out = []
            while True:
                self.ws()
                if s[self.i] == "]":
                    self.i += 1
                    return out
                out.append(self.value())
        if c == "{":
            self.i += 1
            out = {}
            while True:
                self.ws()
                if s[self.i] == "}":
                    self.i += 1
                    return out
                k = self.value()
                self.ws()
                assert s[self.i] == ":", s[self.i:]
                self.i += 1
                out[k] = self.value()
        m = re.compile(r"-?\d+(\.\d+)?|\w+").match(s, self.i)
        self.i = m.end()
        w = m.group(0)
        if w in ("true", "false"):
            return w == "true"
        if re.fullmatch(r"-?\d+", w):
            return int(w)
        if w == "None":
            return None
        if w == "Some":
            self.i += 1
            v = self.value()
            self.ws()
            assert s[self.i] == ")"
            self.i += 1
            return v
        j = self.i
        self.ws()
        if self.i < len(s) and s[self.i] == "{":
            self.i += 1
            out = {}
            while True:
                self.ws()
                if s[self.i] == "}":
                    self.i += 1
                    return out
                m = re.compile(r"(\w+): ").match(s, self.i)
                self.i = m.end()
                out[m.group(1)] = self.value()
        self.i = j
        return {}

    def text(self):
        s, i, out = self.s, self.i + 1, []
        while s[i] != '"':
            if s[i] == "\\":
                c = s[i + 1]
                if c == "u":
                    e = s.index("}", i)
                    out.append(chr(int(s[i + 3:e], 16)))
                    i = e + 1
                    continue
                out.append({"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(c, c))
                i += 2
            else:
                out.append(s[i])
                i += 1
        self.i = i + 1
        return "".join(out)


def atom(v):
    if isinstance(v, bool):
        return b"true" if v else b"false"
    return str(v).encode() if isinstance(v, int) else v.encode("utf8", "surrogatepass")


def flat(prefix, v, out):
    if v is None:
        return
    if isinstance(v, dict):
        for k, x in v.items():
            flat(prefix + "." + k, x, out)
    elif isinstance(v, list):
        for n, x in enumerate(v):
            flat("%s.%d" % (prefix, n + 1), x, out)
    else:
        out.append([prefix, "x", list(atom(v))])


XFIELDS = ("delete", "multipart_upload", "create_bucket_configuration")


def call(c):
    fields = []
    for k, v in Debug(c["input"]).value().items():
        if v is None or k == "body":
            continue
        if k == "metadata":
            fields += [[n, "m", list(atom(x))] for n, x in v.items()]
        elif k in XFIELDS:
            flat(k, v, fields)
        else:
            fields.append([k, "b" if isinstance(v, bool) else "i" if isinstance(v, int) else "s", list(atom(v))])
    b = c["body"]
    body = {"none": b is None, "err": bool(b and "err" in b), "bytes": list(base64.b64decode(b["b64"])) if b else []}
    return {"op": c["op"], "fields": fields, "body": body}


# ---- responses ----

INDEXED = {"ListBucketResult.Contents", "ListBucketResult.CommonPrefixes", "DeleteResult.Deleted", "DeleteResult.Error", "ListAllMyBucketsResult.Buckets.Bucket"}


def leaves(e, path, out):
    kids = list(e)
    if not kids:
        out.append([path, e.text or ""])
        return
    n = {}
    for k in kids:
        t = k.tag.split("}")[-1]
        p = path + "." + t
        if p in INDEXED:
            n[t] = n.get(t, 0) + 1
            p += ".%d" % n[t]
        leaves(k, p, out)


def response(r, method):
    if "status" not in r:
        return {"kind": "none", "status": 0, "headers": [], "xml": [], "xmlkind": "none", "code": "", "message": "", "body": [], "bodyerr": False}
    body = base64.b64decode(r.get("body") or "")
    hs = [[n.lower(), v] for n, v in r["headers"]]
    names = [n for n, _ in hs]
    obj = r["status"] in (200, 206) and method == "GET" and ("x-test-object" in names or r.get("isobject"))
    kind, xml, code, msg = "none", [], "", ""
    if body and not obj:
        try:
            root = ET.fromstring(body)
            kind = "xml"
            leaves(root, root.tag.split("}")[-1], xml)
            if r["status"] >= 300:
                d = dict((p, t) for p, t in xml)
                code, msg = d.get("Error.Code", ""), d.get("Error.Message", "")
        except ET.ParseError:
            kind = "broken"
    return {"kind": "response", "status": r["status"], "headers": hs, "xml": xml, "xmlkind": kind, "code": code, "message": msg,
            "body": list(body) if obj else [], "bodyerr": bool(r.get("body_err"))}


# ---- values ----

WORDS = ["a", "private", "x y", "STANDARD", "aws:kms", "W/\"abc\"", "\"q\"", "a=b&c=d", "Tue, 03 Mar 2020 10:00:00 GMT", "no-cache", "0", "1", "true", "k/e", "a,b", "a;b", "x" * 70, "~!@#$%^&*()_+", "<x>", "\\", "'"]


def ascii_(rng):
    if rng.random() < 0.7:
        return rng.choice(WORDS)
    return ("".join(chr(rng.randint(33, 126)) for _ in range(rng.randint(1, 12))))


def metaval(rng):
    return "" if rng.random() < 0.1 else ascii_(rng)


UNI = "abz09 .-_/+%&=?<>\"'\u00e9\u6587\u20ac\U0001f600\t"


def text(rng, xml=True):
    x = rng.random()
    if x < 0.4:
        return rng.choice(["a", "a/b", "a b", "k<1>", "a&amp;b", "&", "x\"y'", "\u00e9\u6587", "a+b%20c", "]]>", " lead", "trail ", "  ", "", "a\tb", "a\nb", "a\r\nb", "\r"])
    return "".join(rng.choice(UNI + ("\n\r" if xml else "")) for _ in range(rng.randint(1, 12)))


def ival(rng):
    x = rng.random()
    if x < 0.6:
        return str(rng.choice([0, 1, 2, 5, 7, 10, 99, 1000, 10000, 4294967296, 123456789012345678]))
    return rng.choice(["007", "+5", "-1", "-0", "00", "9223372036854775807", "9223372036854775808", "99999999999999999999999", "abc", "", "1.5", "1e3", " 1", "0x10", "-", "1 ", "--1", "\u00b2"])


def bval(rng):
    return rng.choice(["true", "false", "true", "false", "TRUE", "False", "1", "0", "yes", "", "tru", " true"])


def value(rng, t, good=False):
    if t == "i":
        v = ival(rng)
        return v if not good or re.fullmatch(r"\d{1,17}", v) and (v == "0" or v[0] != "0") else "3"
    if t == "b":
        v = bval(rng)
        return v if not good or v in ("true", "false") else "true"
    return ascii_(rng)


def q(s, safe="-_.~"):
    return up.quote(s if isinstance(s, bytes) else s.encode("utf8"), safe=safe)


def qval(rng, t, good):
    v = value(rng, t, good) if t != "s" else (text(rng) if rng.random() < 0.6 else ascii_(rng))
    e = q(v, rng.choice(["-_.~", "-_.~/", "-_.~!*'():@$,;"]))
    return e.replace("%20", rng.choice(["%20", "+"]))


def date(rng):
    if rng.random() < 0.2:
        # not in UTC
        return "%04d-%02d-%02dT%02d:%02d:%02d%s" % (rng.randint(1971, 2100), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59),
                                                    rng.choice(["+00:00", "+09:00", "-05:00", "+05:45", "-11:30", "+14:00", "-00:00"]))
    return "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ" % (rng.randint(1970, 2100), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.randint(0, 999))


# ---- what the storage answers ----

def answer(rng, op):
    """-> what the mock is told, and the same for the specification"""
    x = rng.random()
    if x < 0.12:
        c, m = rng.choice(CODES), text(rng)
        return {"error": {"code": c, "message": m}}, {"kind": "error", "code": c, "message": m, "fields": [], "meta": [], "lists": [], "body": [], "bodyerr": False}
    if x < 0.2 and op in OPERR:
        c, m = rng.choice(OPERR[op]), text(rng)
        return {"op_error": {"variant": c, "message": m}}, {"kind": "error", "code": c, "message": m, "fields": [], "meta": [], "lists": [], "body": [], "bodyerr": False}
    r, fields, meta, lists, body, bodyerr = {}, [], [], [], [], False
    dens = rng.choice([0.1, 0.5, 0.9])

    def put(d, name, v):
        k = name.split(".")
        for p in k[:-1]:
            d = d.setdefault(p, {})
        d[k[-1]] = v

    def txt(v):
        return ("true" if v else "false") if isinstance(v, bool) else str(v)
    for f, t, h in OUT[op]:
        if rng.random() < dens:
            v = date(rng) if f == "last_modified" else rng.choice([True, False]) if t == "b" else rng.choice([0, 1, 5, 1000, 2 ** 40]) if t == "i" else ascii_(rng)
            if f == "content_length":
                continue
            put(r, f, v)
            fields.append([f, txt(v)])
    ints = {"size", "max_keys", "key_count"}
    bools = {"is_truncated", "delete_marker"}

    def val(f):
        return rng.choice([0, 1, 5, 1000, 2 ** 40]) if f in ints else rng.choice([True, False]) if f in bools else date(rng) if f in ("last_modified", "creation_date") else text(rng)
    if op in A.XML:
        for f, e in A.pairs(A.XML[op][1]):
            if rng.random() < dens:
                v = val(f.split(".")[-1])
                put(r, f, v)
                fields.append([f, txt(v)])
        if op == "CopyObject" and "copy_object_result" not in r:
            r["copy_object_result"] = {}
        for l, e, fs in A.LISTS.get(op, []):
            items, spec = [], []
            for _ in range(rng.choice([0, 1, 2, 3])):
                it, sp = {}, []
                for f, x in A.pairs(fs):
                    if rng.random() < max(dens, 0.5):
                        v = val(f.split(".")[-1])
                        put(it, f, v)
                        sp.append([f, txt(v)])
                items.append(it)
                spec.append(sp)
            if items or rng.random() < 0.5:
                r[l] = items
                lists.append([l, spec])
    if op in ("GetObject", "HeadObject"):
        m = {}
        for _ in range(rng.choice([0, 0, 1, 3])):
            m[rng.choice(["a", "b-c", "x1", "long-name-of-metadata", "a.b"])] = metaval(rng)
        if m or rng.random() < 0.3:
            r["metadata"] = m
        meta = [[k, v] for k, v in m.items()]
    if op == "GetObject" and rng.random() < 0.85:
        data = rng.randbytes(rng.choice([0, 1, 10, 100]))
        fr = [exe.b64(x) for x in framing(rng, data)] if data else []
        bodyerr = rng.random() < 0.1
        r["body"] = fr + ([None] if bodyerr else [])
        body = list(data)
    if op == "GetObject" and not bodyerr and rng.random() < 0.5:
        r["content_length"] = len(body)
        fields.append(["content_length", str(len(body))])
    if op == "HeadObject" and rng.random() < 0.5:
        n = rng.choice([0, 5, 2 ** 40])
        r["content_length"] = n
        fields.append(["content_length", str(n)])
    return r, {"kind": "ok", "code": "", "message": "", "fields": fields, "meta": meta, "lists": lists, "body": body, "bodyerr": bodyerr}


# ---- documents ----

def esc(rng, s):
    out = ""
    for c in s:
        if c in "<&":
            out += {"<": "&lt;", "&": "&amp;"}[c]
        elif c == ">":
            out += "&gt;"
        elif c in "\r\n\t" or rng.random() < 0.05:
            out += rng.choice(["&#%d;" % ord(c), "&#x%x;" % ord(c)])
        elif c in "\"'" and rng.random() < 0.3:
            out += {"\"": "&quot;", "'": "&apos;"}[c]
        else:
            out += c
    return out


def nl(rng):
    return rng.choice(["", "", "\n", "\n  ", " "])


NS = ' xmlns="http://s3.amazonaws.com/doc/2006-03-01/"'


def document(rng, kind):
    """-> bytes, fields"""
    fields = []
    head = rng.choice(["", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"])
    ns = rng.choice(["", NS])
    if kind == "delete":
        parts = []
        for n in range(rng.choice([0, 1, 1, 2, 3, 5])):
            k = text(rng) or "k"
            e = ["<Key>%s</Key>" % esc(rng, k)]
            fields.append(["delete.objects.%d.key" % (n + 1), list(k.encode())])
            if rng.random() < 0.3:
                v = rng.choice(["v1", "null", "3/L4kqtJlcpXroDTDmJ"])
                e.append("<VersionId>%s</VersionId>" % v)
                fields.append(["delete.objects.%d.version_id" % (n + 1), list(v.encode())])
            rng.shuffle(e)
            parts.append("<Object>" + nl(rng) + nl(rng).join(e) + nl(rng) + "</Object>")
        if rng.random() < 0.4:
            b = rng.choice(["true", "false"])
            qe = "<Quiet>%s</Quiet>" % b
            parts = [qe] + parts if rng.random() < 0.5 else parts + [qe]
            fields.append(["delete.quiet", list(b.encode())])
        root = "Delete"
    elif kind == "complete":
        parts = []
        for n in range(rng.choice([0, 1, 1, 2, 3])):
            e = []
            num = rng.choice([1, 2, 3, 10000, 7])
            if rng.random() < 0.9:
                t = rng.choice(["\"0cc175b9c0f1b6a831c399e269772661\"", "abc", "\"a\""])
                e.append("<ETag>%s</ETag>" % (t.replace("\"", "&quot;") if rng.random() < 0.5 else t))
                fields.append(["multipart_upload.parts.%d.e_tag" % (n + 1), list(t.encode())])
            e.append("<PartNumber>%d</PartNumber>" % num)
            fields.append(["multipart_upload.parts.%d.part_number" % (n + 1), list(str(num).encode())])
            rng.shuffle(e)
            parts.append("<Part>" + nl(rng) + nl(rng).join(e) + nl(rng) + "</Part>")
        root = "CompleteMultipartUpload"
    else:
        parts = []
        if rng.random() < 0.9:
            v = rng.choice(["us-east-1", "EU", "eu-west-1"])
            parts.append("<LocationConstraint>%s</LocationConstraint>" % v)
            fields.append(["create_bucket_configuration.location_constraint", list(v.encode())])
        root = "CreateBucketConfiguration"
    b = head + "<%s%s>" % (root, ns) + nl(rng) + nl(rng).join(parts) + nl(rng) + "</%s>" % root
    return b.encode(), fields


def bad_document(rng, kind):
    """-> bytes, "bad" (not well formed) or "other" (something else)"""
    b, _ = document(rng, kind)
    x = rng.randrange(5)
    if x == 0:
        c = b[:rng.randrange(len(b))].rstrip()
        root = {"delete": b"Delete", "complete": b"CompleteMultipartUpload", "config": b"CreateBucketConfiguration"}[kind]
        return c, ("bad" if re.search(b"<" + root + b"[^>]*>", c) and b"</" + root not in c else "other")
    if x == 1:
        return rng.choice([b"<a></b>", b"<Delete><Object></Delete>", b"<Delete><Object><Key>a</Object></Key></Delete>"]), "bad"
    if x == 2:
        return b.replace(b"</", b"<", 1), "bad"
    if x == 3:
        return rng.choice([b"<Delete><Object><Foo>a</Foo></Object></Delete>", b"<Delete><Object/></Delete>", b"<CompleteMultipartUpload><Part><PartNumber>x</PartNumber></Part></CompleteMultipartUpload>"]), "other"
    return rng.choice([b"<Delete><Object><Key>" + b"\xff\xfe" + b"</Key></Object></Delete>", b"garbage", b"<", b"<a", b"{\"a\":1}", b"\xff\xfe"]), "other"


# ---- requests ----

class R:
    def __init__(self):
        self.method, self.path, self.query, self.headers = "GET", "/", None, []
        self.body, self.cut, self.xmlkind, self.xml = b"", False, "none", []
        self.form = None
        self.kind = ""
        self.freepath = False
        self.answers = None
        self.onauth = False

    @property
    def uri(self):
        return self.path + ("" if self.query is None else "?" + self.query)


BUCKETS = ["bkt", "b.x-1", "0abc", "my-bucket.example", "a" * 63, "abc"]
KEYSET = ["k", "a/b", "a b", "a+b", "%41", "\u00e9", "a/", "/x", "a//b", "..", ".", "x" * 1024, "a=b", "a&b", "q?x", "#f", "\t", "a\\b", "~", "*'()", "\U0001f600", "k\n"]


def path(rng, kind):
    if kind == "root":
        return "/"
    p = "/" + rng.choice(BUCKETS)
    if kind == "bucket":
        return p + rng.choice(["", "/"])
    k = rng.choice(KEYSET)
    e = q(k, rng.choice(["-_.~/", "-_.~/", "-_.~", "-_.~/+=&*'()!:@$,;"]))
    if rng.random() < 0.1:
        e = "".join("%%%02x" % c for c in k.encode())
    return p + "/" + e


def base(rng, op, kind=None):
    r = R()
    r.method, k, qs = SHAPE[op]
    r.path = path(rng, k)
    if op == "ListBuckets":
        r.path = rng.choice(["/", "/", "/", ""]) or "/"
    qs = list(qs)
    if "uploads" in qs or "delete" in qs or "location" in qs:
        qs = [x + rng.choice(["", "", "="]) for x in qs]
    if op == "CopyObject":
        r.headers.append(("x-amz-copy-source", copysource(rng)))
    if op in ("DeleteObjects", "CompleteMultipartUpload", "CreateBucket"):
        kd = {"DeleteObjects": "delete", "CompleteMultipartUpload": "complete", "CreateBucket": "config"}[op]
        x = rng.random()
        if op == "CreateBucket" and x < 0.5:
            pass
        elif x < 0.85:
            r.xmlkind = kd
            r.body, r.xml = document(rng, kd)
        elif x < 0.95:
            r.body, r.xmlkind = bad_document(rng, kd)
            if op == "CreateBucket":
                r.xmlkind = "other"
    if op in ("PutObject", "UploadPart"):
        r.body = rng.randbytes(rng.choice([0, 0, 1, 5, 100, 3000]))
    return r, qs


def copysource(rng):
    s = rng.choice(BUCKETS) + "/" + rng.choice(KEYSET[:12])
    return rng.choice(["", "", "/"]) + q(s, "-_.~/")


def finish(rng, r, qs):
    rng.shuffle(qs)
    if qs or rng.random() < 0.1:
        r.query = "&".join(qs)
    rng.shuffle(r.headers)
    if rng.random() < 0.7:
        r.headers.append(("host", "localhost"))
    if r.method not in ("PUT", "POST") and rng.random() < 0.05:
        r.body = b"ignored"
    if r.body and rng.random() < 0.05:
        r.cut = True
    return r


def form(rng):
    r = R()
    f = Form(rng)
    f.bucket = "bkt"
    have = {n.lower() for n, _ in f.fields}
    for _ in range(rng.choice([0, 1, 2, 5])):
        _, n = rng.choice(A.rows(A.FORM))
        if n.lower() not in have and n.lower() not in ("policy",):
            have.add(n.lower())
            f.fields.append((rng.choice([n, n, n.title()]), rng.choice([ascii_(rng), ascii_(rng), "", "\u00e9"]) if not n.startswith("x-amz-meta") else metaval(rng)))
    r.form = f
    r.method, r.path = "POST", "/bkt" + rng.choice(["", "/"])
    r.body = f.body()
    bnd = f.boundary
    r.headers = [("content-type", "multipart/form-data; boundary=" + (bnd if re.fullmatch(r"[\w.\-]+", bnd) and rng.random() < 0.8 else '"%s"' % bnd))]
    for _ in range(rng.choice([0, 0, 1, 2])):
        f_, t, h = rng.choice(H["PutObject"])
        if h not in ("content-length", "content-type"):
            r.headers.append((h, value(rng, t)))
    r.headers.append(("host", "localhost"))
    r.kind = "form"
    return r


def gen_fields(rng):
    """C28: an operation with any of its fields, and some of other operations"""
    if rng.random() < 0.1:
        return form(rng)
    op = rng.choice(OPS)
    r, qs = base(rng, op)
    r.kind = op
    dens = rng.choice([0.05, 0.3, 0.8])
    good = rng.random() < 0.75
    for f, t, h in H[op]:
        if h != "x-amz-copy-source" and rng.random() < dens:
            if h == "content-length":
                v = str(len(r.body)) if good else value(rng, t)
            elif h == "content-type":
                v = rng.choice(["text/plain", "application/octet-stream", "text/html; charset=utf-8", "multipart/form-data; boundary=x", "image/png", "a/b", "application/x-www-form-urlencoded"])
                if r.method == "POST" and v.startswith("multipart"):
                    v = "text/plain"
            else:
                v = value(rng, t, good)
            r.headers.append((h, v))
    for f, t, n in Q[op]:
        if n == "partNumber" and op == "UploadPart" or n == "uploadId":
            qs = [x for x in qs if not x.startswith(n + "=")]
            qs.append("%s=%s" % (n, qval(rng, t, good)))
        elif rng.random() < dens:
            qs.append("%s=%s" % (n, qval(rng, t, good)))
    if rng.random() < 0.3:
        o = rng.choice(OPS)
        for f, t, h in H[o]:
            if rng.random() < 0.2 and h not in ("x-amz-copy-source", "content-type", "content-length") and h not in [x for _, _, x in H[op]]:
                r.headers.append((h, value(rng, t, True)))
        for f, t, n in Q[o]:
            if rng.random() < 0.2 and n not in ("uploadId", "partNumber") and n not in [x for _, _, x in Q[op]]:
                qs.append("%s=%s" % (n, qval(rng, t, True)))
    for _ in range(rng.choice([0, 0, 1, 2])):
        r.headers.append(("x-amz-meta-" + rng.choice(["a", "b-c", "x", "a.b", "longer-name", "x-amz-meta-a", "meta-", "x-amz-"]) + str(rng.randrange(3)), metaval(rng)))
    seen = set()
    r.headers = [h for h in r.headers if not (h[0] in seen or seen.add(h[0]))]
    if rng.random() < 0.05 and r.headers:
        r.headers.append((rng.choice(r.headers)[0], value(rng, "s")))
    return finish(rng, r, qs)


def gen_select(rng):
    """C18: any method, resource, sub-resources and selecting headers"""
    r = R()
    r.kind = "select"
    r.method = rng.choice(["GET", "PUT", "POST", "DELETE", "HEAD"] * 4 + ["OPTIONS", "PATCH", "TRACE", "FOO", "get", "LIST", "CONNECT"])
    k = rng.choice(["root", "bucket", "bucket", "object", "object", "object"])
    r.path = path(rng, k) if rng.random() < 0.3 else {"root": "/", "bucket": rng.choice(["/bkt", "/bkt/"]), "object": "/bkt/" + rng.choice(["k", "a/b"])}[k]
    qs = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
        n = rng.choice(SUBS + ["uploads", "uploadId", "uploadId", "partNumber", "partNumber", "delete", "location", "list-type", "list-type", "versionId", "x-id", "Acl", "UPLOADS", "uploadid", "prefix", "acl ", "foo"])
        v = {"list-type": rng.choice(["2", "2", "1", "", "02", "x"]), "partNumber": rng.choice(["1", "2", "x", ""])}.get(n, rng.choice(["", "", "1", "x"]))
        e = "".join("%%%02X" % ord(c) if rng.random() < 0.1 else c for c in n).replace(" ", "%20")
        qs.append(e + ("=" + v if v or rng.random() < 0.4 else ""))
    if rng.random() < 0.35:
        r.headers.append(("x-amz-copy-source", copysource(rng) if rng.random() < 0.8 else rng.choice(["", "x", "bkt", "bkt/", "/", "%zz/a", "BAD/k"])))
    if rng.random() < 0.2:
        r.headers.append(("range", "bytes=0-1"))
    if rng.random() < 0.2:
        r.headers.append(("x-amz-copy-source-range", "bytes=0-1"))
    if rng.random() < 0.3:
        r.headers.append(("content-type", rng.choice(["text/plain", "application/xml", "multipart/form-data; boundary=x", "multipart/form-data", "multipart/mixed; boundary=x"])))
    if r.method == "POST":
        r.headers = [h for h in r.headers if not h[1].startswith("multipart/form-data")]
    x = rng.random()
    if x < 0.3 or (r.method == "POST" and x < 0.9):
        kd = rng.choice(["delete", "complete", "config"]) if x < 0.1 else "delete" if k == "bucket" else "complete"
        if r.method != "POST":
            kd = "config" if rng.random() < 0.7 else kd
        r.xmlkind = kd
        r.body, r.xml = document(rng, kd)
        if kd != ("config" if r.method == "PUT" else "delete" if k == "bucket" else "complete"):
            r.xmlkind, r.xml = "other", []
    elif x < 0.35:
        r.xmlkind, r.body = "other", b"garbage"
    return finish(rng, r, qs)


SINGLE = [(m, p, s) for m in ("GET", "PUT", "POST", "DELETE", "HEAD") for p in ("/", "/bkt", "/bkt/k") for s in [None] + SUBS]


def gen_single(i):
    """every method, kind of resource and sub-resource"""
    rng = random.Random(i)
    m, p, s = SINGLE[i % len(SINGLE)]
    r = R()
    r.kind = "single"
    r.method, r.path = m, p
    qs = [] if s is None else [s + rng.choice(["", "=", "=1"])]
    if m == "PUT" and rng.random() < 0.3:
        qs.append("partNumber=1")
    if m == "POST":
        kd = "complete" if p.count("/") > 1 else "delete"
        r.xmlkind = kd
        r.body, r.xml = document(rng, kd)
    if m == "PUT" and p.count("/") > 1:
        r.body = rng.choice([b"", b"x"])
        if rng.random() < 0.3:
            r.headers.append(("x-amz-copy-source", "/bkt/src"))
    return finish(rng, r, qs)


NAMECH = "abz059.-" + "AZ_@ ~\u00e9"


def bucket_name(rng):
    x = rng.random()
    if x < 0.35:
        return "".join(rng.choice("az09.-") for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 8, 62, 63, 64, 65])))
    if x < 0.5:
        n = list("".join(rng.choice("az09") for _ in range(rng.choice([3, 4, 10, 63]))))
        n[rng.choice([0, -1, rng.randrange(len(n))])] = rng.choice(NAMECH + "\n\t/%:+\\*\0\x7f")
        return "".join(n)
    if x < 0.75:
        n = [str(rng.choice([0, 1, 10, 127, 192, 199, 255, 256, 249, 250, 260, 300, 999, 1000, "00", "01", "", "a", "1a", "-1"])) for _ in range(rng.choice([4, 4, 4, 4, 3, 5]))]
        return ".".join(n)
    if x < 0.85:
        return rng.choice(["xn--", "xn-", "xn", "Xn--", "xn--a", "axn--", "xn--80ak6aa92e", "xn---", "xn--0.b"]) + rng.choice(["", "a", "abc"])
    return rng.choice(["a..b", "a.-b", "a-.b", "a--b", "-ab", "ab-", ".ab", "ab.", "...", "---", "a.b", "ab", "abc", "a" * 63, "a" * 64, "a" * 62 + "-", "ABC", "abC", "a_b", "a b", "\u00e9bc", "bkt\n", "\nbkt", "bkt\r", "abc\0", "bkt\u3002x",
                       "\uff41bc", "ab\u0661", "a\u0301bc", "0" * 3, "1.1.1.1.", "0.0.0.0", "255.255.255.255", "256.1.1.1", "1.2.3", "1.2.3.4.5", "1.2.3.4a", "01.2.3.4", "localhost", "bkt.s3", "..", "."])


def key_len(rng):
    """a key around the limit"""
    n = rng.choice([1, 2, 100, 1000, 1023, 1024, 1025, 1026, 1030, 2000, 3000, 512, 342, 341])
    ch = rng.choice(["a", "a", "\u00e9", "\u6587", "\U0001f600", "ab", " ", "+", "%"])
    s = ch * (n // len(ch.encode()))
    b = s.encode() + b"x" * (n - len(s.encode()))
    if rng.random() < 0.6:
        # components of a size that a file system can have
        k = rng.choice([100, 50, 200])
        s = b.decode()
        out, ln = "", 0
        for c in s:
            if ln + len(c.encode()) > k:
                out, ln = out[:-1] + "/", 0
            out += c
            ln += len(c.encode())
        b = out.encode()
        d = n - len(b)
        b += b"y" * d if d > 0 else b""
    return b


def gen_name(rng, fs=False):
    """C24"""
    r = R()
    r.kind = "name"
    x = rng.random()
    if x < 0.5:
        b = bucket_name(rng)
        e = q(b, rng.choice(["-_.~", "-_.~", "-_.~@:+*"])) if rng.random() < 0.85 else "".join("%%%02X" % c for c in b.encode())
        r.path = "/" + e + rng.choice(["", "", "/", "/k", "/a/b"])
        r.method = rng.choice(["PUT", "PUT", "PUT", "GET", "HEAD", "DELETE"])
        if r.method == "PUT" and rng.random() < 0.1:
            r.headers.append(("x-amz-copy-source", "/bkt/src"))
    elif x < 0.75:
        r.path = "/bkt/" + q(key_len(rng), rng.choice(["-_.~/", "-_.~"]))
        r.method = rng.choice(["PUT", "PUT", "GET", "HEAD", "DELETE"])
    elif x < 0.87:
        b, k = (bucket_name(rng), "k") if rng.random() < 0.5 else ("bkt", None)
        k = key_len(rng) if k is None else k.encode()
        r.method, r.path = "PUT", "/bkt/dst"
        r.headers.append(("x-amz-copy-source", rng.choice(["", "/"]) + q(b) + "/" + q(k, "-_.~/")))
    else:
        r = R()
        f = Form(rng)
        f.fields = [("key", key_len(rng).decode())]
        f.conds = [("eq", "bucket", "bkt"), ("starts", "key", "")]
        r.form = f
        r.method, r.path = "POST", "/bkt"
        r.body = f.body()
        r.headers = [("content-type", 'multipart/form-data; boundary="%s"' % f.boundary)]
        r.kind = "form name"
    return finish(rng, r, []) if r.form is None else r


def blob(rng, n):
    return bytes(rng.choice(b"\0\t \n\r%&?=/;:,.-_+<>\"'aAzZ019~\x7f\x80\xc3\xa9\xff") for _ in range(n))


def hostile(rng):
    """bodies in the formats that the server reads itself, broken: forms, chunk-signed payloads"""
    r = R()
    r.onauth = True
    if rng.random() < 0.7:
        f = form(rng)
        body, bnd = f.body, f.form.boundary
        d = b"--" + bnd.encode()
        hs = [x for x in f.headers if x[0] == "content-type"]
        r.method, r.path, r.headers = "POST", f.path, hs + [("host", "localhost")]
        if rng.random() < 0.3:
            cd = b"Content-Disposition: form-data; name="
            body = b"".join(rng.choice([d, d + b"--", b"\r\n", b"\n", b"\r", b"", b" ", b":", cd + b"\"key\"", cd + b"key", cd + b"\"file\"; filename=\"\"", cd + b"\"file\"; filename=\"a\"", cd + b"\"", cd, b"Content-Disposition: ",
                                        b"Content-Type: text/plain", b"Content-Type: ", b"x" * 40, b"\r\n\r\n", b"\xff\xfe", b"\0", b"Content-Disposition: form-data; filename=\"x\"", b": : :", b"a: b\r\n" * 40,
                                        b"Content-Length: 99999999999999999999"]) + rng.choice([b"\r\n", b"\r\n", b"\n", b""]) for _ in range(rng.randint(0, 14)))
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            lines = body.split(b"\r\n")
            i = rng.randrange(len(lines))
            x = rng.randrange(12)
            if x == 0: body = body[:rng.randrange(len(body) + 1)]
            elif x == 1: body = rng.choice([b"\n", b"\r\n", b"\r", b"\n\n", b"\0", b"\r\n\r\n", d + b"\r\n", d, b"x"]) + body
            elif x == 2: lines.insert(i, rng.choice([b"", b"", d, d + b"--", b"\n", b"\r", b"a", b"\xff", b"x" * 9000, b":", b"Content-Type: \"", b"\nContent-Type: x"])); body = b"\r\n".join(lines)
            elif x == 3: del lines[i]; body = b"\r\n".join(lines)
            elif x == 4: lines[i] = blob(rng, rng.randint(0, 20)); body = b"\r\n".join(lines)
            elif x == 5: lines[i] = rng.choice([b"\n", b"\r", b" "]) + lines[i]; body = b"\r\n".join(lines)
            elif x == 6: body = body.replace(b"\r\n", rng.choice([b"\n", b"\r", b"\n\r", b"\r\r\n", b"\r\n\n"]), rng.choice([1, 2, 3, -1]))
            elif x == 7: lines.insert(i, lines[rng.randrange(len(lines))]); body = b"\r\n".join(lines)
            elif x == 8: lines[i] = lines[i].replace(b"\"", rng.choice([b"", b"'", b"\\\""])); body = b"\r\n".join(lines)
            elif x == 9: lines[i] = lines[i].replace(rng.choice([b"name", b"form-data", b";", b"=", b":"]), rng.choice([b"", b"x", b"  ", b"\t"])); body = b"\r\n".join(lines)
            elif x == 10 and body: k = rng.randrange(len(body)); body = body[:k] + bytes([rng.choice(b"\n\r\0-\xff \"")]) + body[k + 1:]
            else: body = body + body[:rng.randrange(len(body) + 1)]
        r.body = body
        if rng.random() < 0.15:
            r.headers[0] = ("content-type", "multipart/form-data; boundary=" + rng.choice(["", "\"\"", "-", "--", bnd + "x", bnd[:-1] or "y", "\" \"", "a" * 300, "\"\\\"\""]))
    else:
        # chunk-signed: the header is right, the body is not
        a = pauth.base(rng, rng.choice(["PutObject", "UploadPart"]))
        a.chunked = [rng.randbytes(rng.choice([1, 5, 100])) for _ in range(rng.randint(0, 3))]
        ak, sk = rng.choice(KEYS)
        pauth.sign_header(a, rng, ak, sk, T0, payload=pauth.STREAMING)
        body = a.body
        for _ in range(rng.choice([0, 1, 1, 2])):
            x = rng.randrange(8)
            k = rng.randrange(len(body) + 1)
            if x == 0: body = body[:k]
            elif x == 1: body = body[:k] + rng.choice([b"\n", b"\r", b"\0", b";", b"\r\n", b"0", b"f"]) + body[k:]
            elif x == 2: body = body[k:]
            elif x == 3: body = rng.choice([b"ffffffffffffffff", b"fffffffffffffffff", b"7fffffffffffffff", b"-1", b"", b"zz", b"80000000", b"100000000"]) + b";chunk-signature=" + b"0" * 64 + b"\r\n" + body
            elif x == 4: body = body.replace(b"chunk-signature", rng.choice([b"", b"chunk-signatur", b"Chunk-Signature", b"x"]), 1)
            elif x == 5: body = body.replace(b"\r\n", rng.choice([b"\n", b"", b"\r"]), rng.choice([1, 2, -1]))
            elif x == 6: body = blob(rng, rng.randint(0, 50))
            else: body = body + body
        r.method, r.path, r.query, r.body = a.method, a.path, a.query, body
        r.headers = [(n.lower(), v) for n, v in a.headers]
    r.cut = rng.random() < 0.1
    return r


def gen_garbage(rng):
    """C17: anything that HTTP can carry"""
    x = rng.random()
    if x > 0.85:
        r = hostile(rng)
        r.kind, r.freepath, r.xmlkind = "hostile", True, "other"
        return r
    r = gen_fields(rng) if x < 0.35 else gen_select(rng) if x < 0.6 else gen_name(rng) if x < 0.7 else R()
    r.kind = "garbage"
    r.freepath = True
    if rng.random() < 0.3:
        r.method = rng.choice(["GET", "PUT", "POST", "DELETE", "HEAD", "OPTIONS", "PATCH", "TRACE", "X-Y", "M-SEARCH", "get", "CONNECT"])
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        x = rng.random()
        if x < 0.25:
            p = "".join(rng.choice(["/", "/", "bkt", "a", "%", "%2", "%zz", "%2F", "%00", "%ff", "%C3%A9", "%e6%96", "..", ".", "+", "\\", "%0a", "%25", ";", "=", "*", "x" * 300, "b"]) for _ in range(rng.randint(0, 8)))
            r.path = "/" + p if rng.random() < 0.9 else rng.choice(["*", "/", "http://localhost/bkt/k", "http://host:99/", "//", "///", "/?", "/bkt//", "localhost:80"])
        elif x < 0.45:
            r.query = "".join(rng.choice(["&", "&", "=", "uploadId", "partNumber", "list-type", "2", "prefix", "max-keys", "%", "%zz", "%ff", "+", "X-Amz-Signature", "X-Amz-Expires", "acl", "delete", "99999999999999999999", "-1", "%00", "versionId", "a" * 200, "uploads", "encoding-type=url", "?", "/", "X-Amz-Algorithm=AWS4-HMAC-SHA256", "\u00e9"]) for _ in range(rng.randint(0, 8)))
        elif x < 0.8:
            n = rng.choice(["range", "content-length", "content-md5", "content-type", "x-amz-copy-source", "x-amz-content-sha256", "authorization", "x-amz-date", "host", "x-amz-decoded-content-length", "x-amz-meta-a", "x-amz-meta-", "x-amz-metadata-directive",
                            "if-match", "if-modified-since", "expect", "transfer-encoding", "accept", "x-amz-bypass-governance-retention", "x-amz-bucket-object-lock-enabled", "x-amz-server-side-encryption-bucket-key-enabled", "content-encoding"])
            v = rng.choice(["", " ", "bytes=0-", "bytes=-", "bytes=5-1", "bytes=99999999999999999999-", "bytes=-0", "bytes=0-0,5-9", "items=1-2", "0", "-1", "18446744073709551616", "AAAA", "****", "multipart/form-data", "multipart/form-data; boundary=", "multipart/form-data; boundary=\"a b\"", "a/b; charset",
                            "text/plain; x=\"", "AWS4-HMAC-SHA256 Credential=a/20200101/x/s3/aws4_request, SignedHeaders=, Signature=", "AWS4-HMAC-SHA256", "AWS a:b", "Basic YTpi", "20200101T000000Z", "20201301T000000Z", "2020", "STREAMING-AWS4-HMAC-SHA256-PAYLOAD", "UNSIGNED-PAYLOAD", "e3b0c4", "REPLACE", "COPY", "copy",
                            "true", "maybe", "/", "bkt/", "/bkt/%ff", "bkt/%zz", "bkt/k?versionId=1", "arn:aws:s3:us-east-1:1:accesspoint/x/object/k", blob(rng, rng.randint(1, 20)).decode("latin1"), "x" * 5000, "\u00e9"])
            r.headers.append((n, v))
        else:
            r.body = rng.choice([b"", blob(rng, 30), b"<" * 50, b"<a>" * 500, b"--x\r\n", b"--x--\r\n", bad_document(rng, rng.choice(["delete", "complete", "config"]))[0], b"5;chunk-signature=0\r\nhello\r\n0\r\n\r\n", b"<!DOCTYPE a [<!ENTITY x \"y\"><!ENTITY z \"&x;&x;\">]><Delete><Object><Key>&z;</Key></Object></Delete>",
                                 b"<Delete>" + b"<Object><Key>a</Key></Object>" * 50 + b"</Delete>", b"<Delete><Object><Key>a</Key><Key>b</Key></Object></Delete>", b"<Delete><Quiet>maybe</Quiet></Delete>"])
            r.cut = rng.random() < 0.3
    r.xmlkind = "other"
    r.form = None
    return r


# ---- running ----

class Driver:
    def __init__(self, fs):
        self.fs = fs
        self.ex = exe.Exec(shim=True)
        if fs:
            self.root = self.ex.root()
            self.ex.cmd(cmd="svc", id="m", kind="fs", root=self.root)
            self.ex.cmd(cmd="svc", id="a", kind="fs", root=self.root, auth=dict(KEYS))
            self.reset()
        else:
            self.ex.cmd(cmd="svc", id="m", kind="mock")
            self.ex.cmd(cmd="svc", id="a", kind="mock", auth=dict(KEYS))
        self.ex.cmd(cmd="shim", arg="clock %d" % (T0 + 5))

    def snap(self):
        out = {}
        for d, ds, fs in os.walk(self.root):
            for n in ds:
                out[os.path.join(d, n)] = None
            for n in fs:
                p = os.path.join(d, n)
                out[p] = (os.stat(p).st_mtime_ns, os.stat(p).st_size)
        return out

    def reset(self):
        import shutil
        for n in os.listdir(self.root):
            p = os.path.join(self.root, n)
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        for m, u, b in (("PUT", "/bkt", b""), ("PUT", "/bkt/src", b"source"), ("PUT", "/bkt/dd/e", b"hello world"), ("PUT", "/bkt/k", b"k")):
            self.ex.cmd(cmd="req", svc="m", method=m, uri=u, headers=[["x-amz-meta-a", "v"]], frames=[exe.b64(b)])
        self.before = self.snap()

    def close(self):
        self.ex.close()


def nsrc(d, r):
    """the source of a copy exists (file system): put it there if its name permits it"""
    for n, v in r.headers:
        if n == "x-amz-copy-source" and r.kind == "name":
            if any(x not in ("bkt",) for x in os.listdir(d.root) if not x.startswith(".")) or sorted(os.listdir(os.path.join(d.root, "bkt"))) != ["dd", "k", "src"]:
                d.reset()
            s = up.unquote_to_bytes(v).lstrip(b"/")
            b, _, k = s.partition(b"/")
            if b == b"bkt" and 0 < len(k) <= 1024:
                d.ex.cmd(cmd="req", svc="m", method="PUT", uri="/bkt/" + up.quote(k, safe="/-_.~"), headers=[], frames=[exe.b64(b"s")])
                d.before = d.snap()
            elif re.fullmatch(rb"[a-z0-9.\-]{3,63}", b):
                d.ex.cmd(cmd="req", svc="m", method="PUT", uri="/" + b.decode(), headers=[], frames=[])
                d.ex.cmd(cmd="req", svc="m", method="PUT", uri="/" + b.decode() + "/k", headers=[], frames=[exe.b64(b"s")])
                d.before = d.snap()


def one(rng, d, r):
    svc = "a" if r.form is not None or r.onauth else "m"
    out = {"kind": "ok", "code": "", "message": "", "fields": [], "meta": [], "lists": [], "body": [], "bodyerr": False}
    outs, buckets, src = {}, [], False
    if not d.fs:
        ops = r.answers if r.answers is not None else OPS
        for op in ops:
            m, s = answer(rng, op)
            d.ex.cmd(cmd="mock", svc=svc, op=op, result=m)
            outs[op] = s
    else:
        nsrc(d, r)
        src = any(n == "x-amz-copy-source" and os.path.isfile(os.path.join(d.root.encode(), up.unquote_to_bytes(v).lstrip(b"/").replace(b"\0", b""))[:4000]) and len(v) < 4000 for n, v in r.headers)
        buckets = [n for n in os.listdir(d.root) if os.path.isdir(os.path.join(d.root, n))]
    frames = [exe.b64(x) for x in framing(rng, r.body)] if r.body else []
    if r.cut:
        frames.append({"err": 1})
    hs = [list(h) for h in r.headers]
    resp = d.ex.cmd(cmd="req", svc=svc, method=r.method, uri=r.uri, headers=hs, frames=frames)
    info = {"request": [r.method, r.uri, hs, exe.b64(r.body), r.cut], "frames": [len(x) for x in frames], "kind": r.kind, "status": resp.get("status"), "response": resp}
    if "badreq" in resp:
        return None, None, None
    if d.fs:
        calls = []
        resp["isobject"] = r.method == "GET" and any(n == "last-modified" for n, _ in resp.get("headers", []))
        after = d.snap()
        changed = after != d.before
        if changed:
            d.reset()
    else:
        calls = d.ex.cmd(cmd="calls", svc=svc)["calls"]
        info["calls"] = calls
        calls = [call(c) for c in calls]
        resp["isobject"] = bool(calls) and calls[0]["op"] == "GetObject"
        if calls:
            out = outs[calls[0]["op"]]
        changed = False
    ff = [[n.lower(), list(v.encode())] for n, v in r.form.fs] if r.form is not None else []
    data = r.form.data if r.form is not None else r.body
    # (latin-1: how the executor takes the values)
    case = {"method": r.method, "path": list(r.path.encode()), "query": list((r.query or "").encode()), "headers": [[n.lower(), list(v.encode("latin1", "replace"))] for n, v in r.headers],
            "form": r.form is not None, "formfields": ff, "filelen": list(str(len(data)).encode()), "body": list(data), "bodyerr": r.cut, "xmlkind": r.xmlkind, "xml": r.xml,
            "freepath": r.freepath, "calls": calls, "out": out, "resp": response(resp, r.method), "fs": d.fs, "changed": changed, "source": src, "buckets": [list(b.encode()) for b in buckets]}
    info["out"] = out
    return case, info, resp


ASPECTS = {"C17": ["response", "output"], "C18": ["operation"], "C24": ["name", "address"], "C28": ["operation", "address", "data", "output"]}


def names(n):
    """every name of up to n characters of these classes"""
    import itertools
    for k in range(1, n + 1):
        for t in itertools.product("a1.-A_", repeat=k):
            yield "".join(t)


def requests(pid, rng, n, part, parts, fs):
    if pid == "C18":
        for i in range(part, len(SINGLE), parts):
            yield gen_single(i)
        for _ in range(n):
            yield gen_select(rng) if rng.random() < 0.8 else gen_fields(rng)
    elif pid == "C24":
        if not fs:
            for i, b in enumerate(names(4 if n > 1000 else 3)):
                if i % parts == part:
                    r = R()
                    r.kind, r.method, r.path = "every short name", "PUT", "/" + b
                    yield r
        for _ in range(n):
            yield gen_name(rng, fs)
    elif pid == "C28":
        for _ in range(n):
            yield gen_fields(rng)
    else:
        for _ in range(n):
            yield gen_garbage(rng) if fs or rng.random() < 0.75 else gen_fields(rng)


def gist(i):
    return "%s %s (%s) answered %s" % (i["request"][0], i["request"][1][:120], i["kind"], i["status"])


def work(pid, seed, part, parts, n, fs):
    out = run.Out()
    rng = random.Random("%s-%d-%d-%s" % (pid, seed, part, fs))
    d = Driver(fs)
    cases, infos = [], []
    try:
        for r in requests(pid, rng, n, part, parts, fs):
            try:
                c, i, resp = one(rng, d, r)
            except exe.Died as e:
                out.violation("the server process died: %s on %s %s" % (e, r.method, r.uri[:200]), "died", {"request": [r.method, r.uri, r.headers, exe.b64(r.body)]})
                d = Driver(fs)
                continue
            if c is None:
                continue
            if c["resp"]["kind"] != "response" and pid != "C17":
                continue
            cases.append(c)
            infos.append(i)
        if pid == "C17":
            # it still serves
            c, i, _ = one(rng, d, plain())
            cases.append(c)
            infos.append(i)
    finally:
        d.close()
    for k in range(0, len(cases), 500):
        c = judge.cases(out, "ApiTrace", {"cases": cases[k:k + 500], "aspects": ASPECTS[pid]}, infos[k:k + 500], gist, "api", timeout=850)
        out.add(operations_invoked=c[0], refused_or_without_operation=c[1], bad_addresses=c[2])
    if infos:
        out.samples.append([infos[0]["request"][:2], infos[0]["status"]])
    return out


def plain():
    r = R()
    r.method, r.path, r.kind = "GET", "/bkt/dd/e", "after all"
    r.answers = OPS
    return r


def check(pid):
    def f(ctx):
        n = 500 if ctx.quick else 6000
        jobs = [(work, (pid, ctx.seed, p, 8, n, False)) for p in range(8)]
        if pid in ("C17", "C24"):
            jobs += [(work, (pid, ctx.seed, p, 8, n if pid == "C17" else n // 3, True)) for p in range(8)]
        return run.parallel(jobs)
    return f
