"""A client's AWS Signature V4 (header, presigned URL, POST form, chunked payload) and multipart forms."""
import base64, datetime, hashlib, hmac, json, time
import urllib.parse as up

SAFE = "-_.~"


def hm(k, m):
    return hmac.new(k, m.encode() if isinstance(m, str) else m, hashlib.sha256).digest()


def amz_date(t=None):
    return datetime.datetime.fromtimestamp(time.time() if t is None else t, datetime.timezone.utc).strftime("%Y%m%dT%H%M%SZ")


def signing_key(sk, date, region="us-east-1", service="s3"):
    k = hm(("AWS4" + sk).encode(), date)
    return hm(hm(hm(k, region), service), "aws4_request")


def signature(sk, amzdate, canonical, region="us-east-1", service="s3", alg="AWS4-HMAC-SHA256"):
    scope = "%s/%s/%s/aws4_request" % (amzdate[:8], region, service)
    sts = "%s\n%s\n%s\n%s" % (alg, amzdate, scope, hashlib.sha256(canonical).hexdigest())
    return hm(signing_key(sk, amzdate[:8], region, service), sts).hex()


def canon_query(pairs):
    e = sorted((up.quote(k, safe=SAFE), up.quote(v, safe=SAFE)) for k, v in pairs)
    return "&".join("%s=%s" % kv for kv in e)


def parse_query(q):
    out = []
    for p in q.split("&"):
        if not p:
            continue
        k, _, v = p.partition("=")
        out.append((up.unquote_plus(k), up.unquote_plus(v)))
    return out


def canonical(method, path, pairs, headers, signed, payload):
    """path: decoded bytes; headers: list of pairs"""
    hs = ""
    for n in signed:
        vs = [" ".join(v.split()) for k, v in headers if k.lower() == n]
        hs += "%s:%s\n" % (n, ",".join(vs))
    return ("%s\n%s\n%s\n%s\n%s\n%s" % (method, up.quote(path, safe="/" + SAFE), canon_query(pairs), hs,
                                       ";".join(signed), payload)).encode("latin1")


def sign_headers(req, ak="AKID", sk="topsecret", t=None, payload=None, body=b"", region="us-east-1",
                 sign=None, host="localhost", extra=()):
    """add an Authorization header to a request of the executor; returns the signature"""
    d = amz_date(t)
    if payload is None:
        payload = hashlib.sha256(body).hexdigest()
    path, _, q = req["uri"].partition("?")
    hs = [h for h in req.get("headers", [])]
    names = [h[0].lower() for h in hs]
    if "x-amz-date" in names:
        d = hs[names.index("x-amz-date")][1]
    if "host" not in names:
        hs.append(["host", host])
    if "x-amz-date" not in names:
        hs.append(["x-amz-date", d])
    if "x-amz-content-sha256" not in names:
        hs.append(["x-amz-content-sha256", payload])
    signed = sorted(set(n.lower() for n, _ in hs if n.lower() in ("host", "content-type", "range", "content-md5")
                        or n.lower().startswith("x-amz-")) | set(extra)) if sign is None else sign
    can = canonical(req["method"], up.unquote_to_bytes(path), parse_query(q), hs, signed, payload)
    s = signature(sk, d, can, region)
    hs.append(["authorization", "AWS4-HMAC-SHA256 Credential=%s/%s/%s/s3/aws4_request, SignedHeaders=%s, Signature=%s"
               % (ak, d[:8], region, ";".join(signed), s)])
    req["headers"] = hs
    return s


def presign(req, ak="AKID", sk="topsecret", t=None, expires=300, region="us-east-1", host="localhost", signed=("host",)):
    d = amz_date(t)
    path, _, q = req["uri"].partition("?")
    hs = [h for h in req.get("headers", [])]
    if "host" not in [h[0].lower() for h in hs]:
        hs.append(["host", host])
    signed = sorted(signed)
    pairs = [("X-Amz-Algorithm", "AWS4-HMAC-SHA256"),
             ("X-Amz-Credential", "%s/%s/%s/s3/aws4_request" % (ak, d[:8], region)),
             ("X-Amz-Date", d), ("X-Amz-Expires", str(expires)), ("X-Amz-SignedHeaders", ";".join(signed))]
    can = canonical(req["method"], up.unquote_to_bytes(path), parse_query(q) + pairs, hs, signed, "UNSIGNED-PAYLOAD")
    s = signature(sk, d, can, region)
    qs = [q] if q else []
    qs += ["%s=%s" % (k, up.quote(v, safe=SAFE)) for k, v in pairs + [("X-Amz-Signature", s)]]
    req["uri"] = path + "?" + "&".join(qs)
    req["headers"] = hs
    return s


def form_fields(ak, sk, conditions, t=None, exp=3600, region="us-east-1", policy=None):
    d = amz_date(t)
    cred = "%s/%s/%s/s3/aws4_request" % (ak, d[:8], region)
    if policy is None:
        e = datetime.datetime.fromtimestamp((time.time() if t is None else t) + exp, datetime.timezone.utc)
        conds = list(conditions) + [{"x-amz-algorithm": "AWS4-HMAC-SHA256"}, {"x-amz-credential": cred}, {"x-amz-date": d}]
        policy = json.dumps({"expiration": e.strftime("%Y-%m-%dT%H:%M:%S.000Z"), "conditions": conds})
    p = base64.b64encode(policy.encode()).decode()
    s = hm(signing_key(sk, d[:8], region), p).hex()
    return [("policy", p), ("x-amz-algorithm", "AWS4-HMAC-SHA256"), ("x-amz-credential", cred), ("x-amz-date", d),
            ("x-amz-signature", s)]


def multipart(fields, data, boundary, filename="f.bin", ctype="application/octet-stream", epilogue=b"", close=True):
    out = b""
    for k, v in fields:
        out += ('--%s\r\nContent-Disposition: form-data; name="%s"\r\n\r\n' % (boundary, k)).encode()
        out += (v.encode() if isinstance(v, str) else v) + b"\r\n"
    out += ('--%s\r\nContent-Disposition: form-data; name="file"; filename="%s"\r\nContent-Type: %s\r\n\r\n'
            % (boundary, filename, ctype)).encode()
    out += data
    if close:
        out += b"\r\n--" + boundary.encode() + b"--" + epilogue
    return out, "multipart/form-data; boundary=" + boundary


EMPTY = hashlib.sha256(b"").hexdigest()


def chunk_sigs(sk, amzdate, seed, chunks, region="us-east-1"):
    """the signatures of the chunks, each chained to the previous one"""
    key = signing_key(sk, amzdate[:8], region)
    scope = "%s/%s/s3/aws4_request" % (amzdate[:8], region)
    prev, out = seed, []
    for c in chunks:
        sts = "AWS4-HMAC-SHA256-PAYLOAD\n%s\n%s\n%s\n%s\n%s" % (amzdate, scope, prev, EMPTY, hashlib.sha256(c).hexdigest())
        prev = hm(key, sts).hex()
        out.append(prev)
    return out


def chunk_bytes(data, s):
    return b"%x;chunk-signature=%s\r\n" % (len(data), s.encode()) + data + b"\r\n"
