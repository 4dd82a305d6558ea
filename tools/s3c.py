"""A small S3 client and launcher of the server program for demonstrations."""
import datetime, hashlib, hmac, os, re, shutil, socket, subprocess, sys, tempfile, time
import urllib.parse as up

AK, SK = "AKDEMO", "sk-demo-secret"


class Server:
    def __init__(self, auth=False, env=None, prefix=()):
        self.dir = tempfile.mkdtemp(prefix="s3demo-")
        self.root = os.path.join(self.dir, "root")
        os.mkdir(self.root)
        self.auth, self.env, self.prefix = auth, env, list(prefix)
        os.chmod(self.dir, 0o777)
        self.start()

    def start(self):
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        self.port = s.getsockname()[1]
        s.close()
        a = self.prefix + [os.path.abspath("target/debug/s3-server"), "--fs-root", self.root, "--host", "127.0.0.1", "--port", str(self.port)]
        if self.auth:
            a += ["--access-key", AK, "--secret-key", SK]
        e = dict(os.environ, RUST_LOG="off", **(self.env or {}))
        self.p = subprocess.Popen(a, env=e, cwd=self.dir, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for _ in range(400):
            try:
                socket.create_connection(("127.0.0.1", self.port), 1).close()
                return
            except OSError:
                time.sleep(0.02)
        raise SystemExit("server did not start")

    def stop(self):
        self.p.kill()
        self.p.wait()

    def close(self):
        self.stop()
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def connect(self, timeout=20):
        s = socket.create_connection(("127.0.0.1", self.port), timeout)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        return s

    def head(self, method, target, headers=(), length=0):
        h = dict(host="127.0.0.1:%d" % self.port)
        hs = list(headers.items()) if isinstance(headers, dict) else list(headers)
        names = {k.lower() for k, _ in hs}
        out = b("%s %s HTTP/1.1\r\n" % (method, target))
        if "host" not in names:
            out += b("host: %s\r\n" % h["host"])
        if length is not None and "content-length" not in names and "transfer-encoding" not in names:
            out += b("content-length: %d\r\n" % length)
        for k, v in hs:
            out += b(k) + b": " + b(v) + b"\r\n"
        return out + b"connection: close\r\n\r\n"

    def req(self, method, target, headers=(), body=b"", frames=None, pause=0.03):
        """-> (status, headers, body); status 0 if the connection was dropped"""
        s = self.connect()
        try:
            body = b(body) if frames is None else b"".join(frames)
            s.sendall(self.head(method, target, headers, len(body)))
            try:
                for f in ([body] if frames is None else frames):
                    s.sendall(f)
                    if frames is not None:
                        time.sleep(pause)
            except OSError:
                pass
            return read(s, method)
        finally:
            s.close()

    def signed(self, method, path, query=(), headers=(), body=b"", payload=None, **kw):
        """path: decoded str; query: decoded pairs"""
        q, hs = sign(method, path, query, list(dict(headers).items()) if isinstance(headers, dict) else list(headers), b(body), "127.0.0.1:%d" % self.port, payload, **kw)
        t = up.quote(path, safe="/-_.~")
        return self.req(method, t + ("?" + q if q else ""), hs, body)


def b(x):
    return x.encode() if isinstance(x, str) else x


def read(s, method="GET"):
    d = b""
    while True:
        try:
            x = s.recv(65536)
        except OSError:
            break
        if not x:
            break
        d += x
        if method == "HEAD" and b"\r\n\r\n" in d:
            break
    if b"\r\n\r\n" not in d:
        return 0, {}, b""
    h, _, body = d.partition(b"\r\n\r\n")
    ls = h.split(b"\r\n")
    hs = {}
    for l in ls[1:]:
        k, _, v = l.partition(b":")
        hs[k.strip().lower().decode("latin1")] = v.strip().decode("latin1")
    if hs.get("transfer-encoding") == "chunked":
        o, body = body, b""
        while o:
            n, _, o = o.partition(b"\r\n")
            n = int(n or b"0", 16)
            body += o[:n]
            o = o[n + 2:]
            if n == 0:
                break
    return int(ls[0].split()[1]), hs, body


def hm(k, m):
    return hmac.new(b(k), b(m), hashlib.sha256).digest()


def now(dt=0):
    return (datetime.datetime.now(datetime.timezone.utc) + datetime.timedelta(seconds=dt)).strftime("%Y%m%dT%H%M%SZ")


def key(sk, date, region="us-east-1"):
    return hm(hm(hm(hm("AWS4" + sk, date), region), "s3"), "aws4_request")


def quote(x):
    return up.quote(x, safe="-_.~")


def cquery(pairs):
    return "&".join("%s=%s" % p for p in sorted((quote(k), quote(v)) for k, v in pairs))


def sts(date, creq, region="us-east-1"):
    return "AWS4-HMAC-SHA256\n%s\n%s/%s/s3/aws4_request\n%s" % (date, date[:8], region, hashlib.sha256(b(creq)).hexdigest())


def sign(method, path, query, headers, body, host, payload=None, sk=SK, ak=AK, date=None):
    date = date or now()
    payload = payload or hashlib.sha256(body).hexdigest()
    hs = headers + [("host", host), ("x-amz-date", date), ("x-amz-content-sha256", payload)]
    names = sorted({k.lower() for k, _ in hs})
    ch = "".join("%s:%s\n" % (n, ",".join(" ".join(v.split()) for k, v in hs if k.lower() == n)) for n in names)
    creq = "\n".join([method, up.quote(path, safe="/-_.~"), cquery(query), ch, ";".join(names), payload])
    sig = hm(key(sk, date[:8]), sts(date, creq)).hex()
    hs = hs + [("authorization", "AWS4-HMAC-SHA256 Credential=%s/%s/us-east-1/s3/aws4_request, SignedHeaders=%s, Signature=%s" % (ak, date[:8], ";".join(names), sig))]
    return "&".join("%s=%s" % (quote(k), quote(v)) for k, v in query), hs


def presign(method, path, query, host, expires=60, date=None, sk=SK, ak=AK):
    """-> target"""
    date = date or now()
    q = list(query) + [("X-Amz-Algorithm", "AWS4-HMAC-SHA256"), ("X-Amz-Credential", "%s/%s/us-east-1/s3/aws4_request" % (ak, date[:8])),
                       ("X-Amz-Date", date), ("X-Amz-Expires", str(expires)), ("X-Amz-SignedHeaders", "host")]
    creq = "\n".join([method, up.quote(path, safe="/-_.~"), cquery(q), "host:%s\n" % host, "host", "UNSIGNED-PAYLOAD"])
    sig = hm(key(sk, date[:8]), sts(date, creq)).hex()
    return up.quote(path, safe="/-_.~") + "?" + "&".join("%s=%s" % (quote(k), quote(v)) for k, v in q + [("X-Amz-Signature", sig)])


def form(fields, content, boundary="----bnd7MA", name="f.bin", ctype="application/octet-stream"):
    out = b""
    for k, v in fields:
        out += b"--" + b(boundary) + b'\r\nContent-Disposition: form-data; name="' + b(k) + b'"\r\n\r\n' + b(v) + b"\r\n"
    out += b"--" + b(boundary) + b'\r\nContent-Disposition: form-data; name="file"; filename="' + b(name) + b'"\r\nContent-Type: ' + b(ctype) + b"\r\n\r\n"
    return out + b(content) + b"\r\n--" + b(boundary) + b"--\r\n", {"content-type": "multipart/form-data; boundary=" + boundary}


def check(ok, what):
    if not ok:
        print("FAIL:", what)
        sys.exit(1)
