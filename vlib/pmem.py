"""How much memory the server program needs for large objects (C32), judged by MemoryTrace.tla."""
import hashlib, importlib.util, os, random, re, socket, subprocess, time
from . import exe, judge, run, tlc
from .pprog import explore

_spec = importlib.util.spec_from_file_location("s3c", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools", "s3c.py"))
s3c = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(s3c)
WAIT = 120


class Program:
    def __init__(self, top, auth):
        self.root = os.path.join(top, "root%d" % len(os.listdir(top)))
        os.mkdir(self.root)
        os.chown(self.root, exe.NOBODY, exe.NOBODY)
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        self.port = s.getsockname()[1]
        s.close()
        self.host = "127.0.0.1:%d" % self.port
        self.auth = auth
        kw = dict(user=exe.NOBODY, group=exe.NOBODY, extra_groups=[]) if os.geteuid() == 0 else {}
        self.p = subprocess.Popen([os.path.join(exe.HARNESS, "target", "debug", "s3-server"), "--fs-root", self.root, "--host", "127.0.0.1",
                                   "--port", str(self.port)] + (["--access-key", s3c.AK, "--secret-key", s3c.SK] if auth else []),
                                  env={"PATH": "/usr/bin:/bin", "RUST_LOG": "off", "MALLOC_ARENA_MAX": "1", "MALLOC_MMAP_THRESHOLD_": "65536", "MALLOC_TRIM_THRESHOLD_": "65536"}, cwd=top, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, **kw)
        for _ in range(500):
            try:
                socket.create_connection(("127.0.0.1", self.port), 1).close()
                return
            except OSError:
                if self.p.poll() is not None:
                    raise exe.ToolError("the server program ended")
                time.sleep(0.02)

    def peak(self):
        """kilobytes"""
        with open("/proc/%d/status" % self.p.pid) as f:
            return int(re.search(r"VmHWM:\s+(\d+) kB", f.read()).group(1))

    def begin(self, method, target, headers=(), length=0):
        c = socket.create_connection(("127.0.0.1", self.port), WAIT)
        names = {k.lower() for k, _ in headers}
        out = "%s %s HTTP/1.1\r\nconnection: close\r\n" % (method, target)
        if "host" not in names:
            out += "host: %s\r\n" % self.host
        out += "transfer-encoding: chunked\r\n" if length is None else "content-length: %d\r\n" % length
        out += "".join("%s: %s\r\n" % h for h in headers) + "\r\n"
        c.sendall(out.encode())
        return c

    def req(self, method, target, headers=(), pieces=(), length=None, te=False):
        """-> (status, number of bytes of the body, begin of the body)"""
        if length is None:
            pieces = list(pieces)
            length = sum(len(x) for x in pieces)
        c = self.begin(method, target, headers, None if te else length)
        try:
            try:
                for x in pieces:
                    c.sendall(b"%x\r\n%s\r\n" % (len(x), x) if te else x)
                if te:
                    c.sendall(b"0\r\n\r\n")
            except OSError:
                pass
            head, n, first = b"", 0, b""
            while b"\r\n\r\n" not in head:
                x = c.recv(65536)
                if not x:
                    return 0, 0, b""
                head += x
            head, _, first = head.partition(b"\r\n\r\n")
            n = len(first)
            while True:
                x = c.recv(1 << 20)
                if not x:
                    break
                n += len(x)
                if len(first) < 10000:
                    first += x
            return int(head.split()[1]), n, first
        except OSError:
            return 0, 0, b""
        finally:
            c.close()

    def signed(self, method, path, query=(), headers=(), payload=None):
        q, hs = s3c.sign(method, path, list(query), list(headers), b"", self.host, payload)
        return path + ("?" + q if q else ""), hs


def blocks(rng, n):
    """n bytes"""
    x = rng.randbytes(1 << 20)
    while n > 0:
        yield x[:n]
        n -= len(x)


def chunks(rng, n, hs, date):
    """a chain of signed chunks, and its length"""
    x = rng.randbytes(65536)
    hx = hashlib.sha256(x).hexdigest()
    e = hashlib.sha256(b"").hexdigest()
    k = s3c.key(s3c.SK, date[:8])
    prev = [v for a, v in hs if a == "authorization"][0].rsplit("Signature=", 1)[1]
    for i in range(n // len(x) + 1):
        d, hd = (x, hx) if i < n // len(x) else (b"", e)
        prev = s3c.hm(k, "AWS4-HMAC-SHA256-PAYLOAD\n%s\n%s/us-east-1/s3/aws4_request\n%s\n%s\n%s" % (date, date[:8], prev, e, hd)).hex()
        yield b"%x;chunk-signature=%s\r\n%s\r\n" % (len(d), prev.encode(), d)


class Run:
    def __init__(self, out, seed, auth, top):
        self.out, self.rng = out, random.Random("memory-%d-%s" % (seed, auth))
        self.s = Program(top, auth)
        self.ev, self.log = [], []

    def did(self, what, ok, conc=1):
        self.log.append([what, bool(ok)])
        if not ok:
            self.out.violation("server program: %s fails" % what, "memory-request", {"log": self.log[-5:]})
        self.ev.append({"t": "mem", "peak": self.s.peak(), "conc": conc})

    def upload(self, n, parts):
        """a multipart upload"""
        s = self.s
        def go(method, query, pieces=(), size=0):
            q = "&".join("%s=%s" % x if x[1] else x[0] for x in query)
            return s.req(method, "/bkt/mp?" + q, [], pieces, size)
        u = re.search(rb"<UploadId>(.*?)<", go("POST", [("uploads", "")])[2]).group(1).decode()
        for i in range(1, parts + 1):
            self.did("part", go("PUT", [("partNumber", str(i)), ("uploadId", u)], blocks(self.rng, n), n)[0] == 200)
        x = b"<CompleteMultipartUpload>%s</CompleteMultipartUpload>" % b"".join(b"<Part><PartNumber>%d</PartNumber></Part>" % i for i in range(1, parts + 1))
        self.did("complete", go("POST", [("uploadId", u)], [x], len(x))[0] == 200)

    def open(self, n, many):
        """everything with objects of n bytes"""
        s, rng = self.s, self.rng
        for kind in rng.sample(["put", "te", "mp", "copy", "lazy", "slow", "leave", "range", "many"], 9):
            if kind == "put":
                self.did("put", s.req("PUT", "/bkt/big", [], blocks(rng, n), n)[0] == 200)
                r = s.req("GET", "/bkt/big")
                self.did("get", r[:2] == (200, n))
            elif kind == "te":
                self.did("put of unknown length", s.req("PUT", "/bkt/te", [], blocks(rng, n), te=True, length=n)[0] == 200)
            elif kind == "mp":
                self.upload(n, 2)
                self.did("get", s.req("GET", "/bkt/mp")[:2] == (200, n * 2))
            elif kind == "copy":
                s.req("PUT", "/bkt/src", [], blocks(rng, n), n)
                self.did("copy", s.req("PUT", "/bkt/dst", [("x-amz-copy-source", "/bkt/src")])[0] == 200)
                self.did("head", s.req("HEAD", "/bkt/dst")[0] == 200)
            elif kind == "lazy":
                # downloads that are asked for, and not read
                s.req("PUT", "/bkt/lazy", [], blocks(rng, n), n)
                cs = [s.begin("GET", "/bkt/lazy") for _ in range(3)]
                time.sleep(1)
                self.did("put of a small object", s.req("PUT", "/bkt/small", [], [b"x"])[0] == 200, 4)
                for c in cs:
                    c.close()
            elif kind == "slow":
                # uploads that stop shortly before their ends
                cs = []
                for i in range(2):
                    c = s.begin("PUT", "/bkt/slow%d" % i, [], n)
                    for x in blocks(rng, n - 1000):
                        c.sendall(x)
                    cs.append(c)
                self.did("put of a small object", s.req("PUT", "/bkt/small", [], [b"x"])[0] == 200, 3)
                for c in cs:
                    c.close()
            elif kind == "leave":
                for i in range(3):
                    c = s.begin("PUT", "/bkt/gone", [], n)
                    for x in blocks(rng, n - 5):
                        c.sendall(x)
                    c.close()
                self.did("put of a small object", s.req("PUT", "/bkt/small", [], [b"x"])[0] == 200, 4)
            elif kind == "range":
                s.req("PUT", "/bkt/big", [], blocks(rng, n), n)
                r = s.req("GET", "/bkt/big", [("range", "bytes=1-%d" % (n - 2))])
                self.did("range", r[:2] == (206, n - 2))
            else:
                for i in range(many):
                    s.req("PUT", "/bkt/m%d" % (i % 5), [], blocks(rng, n // 16), n // 16)
                self.did("list", s.req("GET", "/bkt")[0] == 200)
            for f in os.listdir(os.path.join(s.root, "bkt")):
                os.remove(os.path.join(s.root, "bkt", f))

    def closed(self, n):
        """the same with signatures"""
        s, rng = self.s, self.rng
        for kind in rng.sample(["presigned", "chunked", "part", "form", "get"], 5):
            date = s3c.now()
            if kind == "presigned":
                t = s3c.presign("PUT", "/bkt/p", [], s.host, date=date)
                self.did("presigned put", s.req("PUT", t, [], blocks(rng, n), n)[0] == 200)
                t = s3c.presign("GET", "/bkt/p", [], s.host, date=date)
                self.did("presigned get", s.req("GET", t)[:2] == (200, n))
            elif kind in ("chunked", "part"):
                n1 = n // 65536 * 65536
                q = []
                if kind == "part":
                    t, hs = s.signed("POST", "/bkt/c", [("uploads", "")])
                    u = re.search(rb"<UploadId>(.*?)<", s.req("POST", t, hs)[2]).group(1).decode()
                    q = [("partNumber", "1"), ("uploadId", u)]
                t, hs = s.signed("PUT", "/bkt/c", q, [("x-amz-decoded-content-length", "%d" % n1)], "STREAMING-AWS4-HMAC-SHA256-PAYLOAD")
                date = [v for k, v in hs if k == "x-amz-date"][0]
                size = sum(len(x) for x in chunks(random.Random(1), n1, hs, date))
                self.did("chunk-signed " + kind, s.req("PUT", t, hs, chunks(random.Random(1), n1, hs, date), size)[0] == 200)
            elif kind == "form":
                import base64, json
                exp = time.strftime("%Y-%m-%dT%H:%M:%SZ", time.gmtime(time.time() + 3600))
                cred = "%s/%s/us-east-1/s3/aws4_request" % (s3c.AK, date[:8])
                fs = [("key", "f"), ("x-amz-algorithm", "AWS4-HMAC-SHA256"), ("x-amz-credential", cred), ("x-amz-date", date)]
                pol = base64.b64encode(json.dumps({"expiration": exp, "conditions": [{"bucket": "bkt"}] + [{k: v} for k, v in fs]}).encode()).decode()
                fs += [("policy", pol), ("x-amz-signature", s3c.hm(s3c.key(s3c.SK, date[:8]), pol).hex())]
                body, hs = s3c.form(fs, b"@CONTENT@")
                a, b = body.split(b"@CONTENT@")
                def pieces():
                    yield a
                    yield from blocks(rng, n)
                    yield b
                self.did("form", s.req("POST", "/bkt", list(hs.items()), pieces(), len(a) + n + len(b))[0] in (200, 204))
                t, hs = s.signed("GET", "/bkt/f")
                self.did("get of the form's object", s.req("GET", t, hs)[:2] == (200, n))
            else:
                t, hs = s.signed("GET", "/bkt/p0")
                self.did("get", s.req("GET", t, hs)[0] == 200)


def program(seed, auth, mb):
    out = run.Out()
    top = exe.scratch()
    try:
        r = Run(out, seed, auth, top)
        try:
            s = r.s
            if auth:
                t, hs = s.signed("PUT", "/bkt")
                s.req("PUT", t, hs)
                s.req("PUT", s3c.presign("PUT", "/bkt/p0", [], s.host), [], [b"abc"])
                r.closed(1 << 20)
            else:
                s.req("PUT", "/bkt")
                r.open(1 << 20, 5)
            r.ev = [{"t": "base", "peak": s.peak()}]
            if auth:
                r.closed(mb << 20)
            else:
                r.open(mb << 20, 20)
        finally:
            r.s.p.kill()
            r.s.p.wait()
    finally:
        exe.drop_scratch(top)
    v = judge.run_trace({"hist": [{"ev": r.ev}]}, module="MemoryTrace")
    for _, l, _ in v.bad:
        out.violation("server program: needs %d kB after %s of %d MB, %d kB with small objects" % (
            r.ev[l]["peak"], r.log[len(r.log) - len(r.ev) + l][0], mb, r.ev[0]["peak"]), "memory", {"events": r.ev, "requests": r.log})
    out.add(states=v.states, transitions=v.events, traces_validated_against_impl=1, megabytes=mb, measurements=len(r.ev), distinct_nontrivial=len(r.ev), evaluations=len(r.ev))
    out.samples.append([r.log, r.ev])
    return out


def model():
    out = run.Out()
    explore(out, "Memory", True, "Memory")
    explore(out, "Memory_collect", False, "Memory")
    explore(out, "Memory_push", False, "Memory")
    return out


def check(ctx):
    jobs = [(program, (ctx.seed, a, mb)) for a in (False, True) for mb in ([128] if ctx.quick else [128, 200, 500])]
    return run.parallel(jobs + [(model, ())])
