"""Random histories of S3 operations. Which responses are right is not known here."""
import base64, random, urllib.parse as up
from . import store

PLAIN = ["a", "b", "k1", "dir/x", "dir/y", "dir-/x", "dir.x", "dirx", "dir/sub/z", "A", "zz", "a-b", "a.b", "e/f", "e-", "e0"]
ODD = ["a b", " lead", "trail ", "a+b", "a%20b", "a%2Fb", "%", "100%", "a&b=c", "q?x", "h#y", "semi;colon", "c:d", "quo\"te",
       "apos'", "<tag>", "]]>", "&amp;", "back\\slash", "tilde~", "star*", "bang!", "(par)", "[br]", "{cur}", "pipe|", "^", "`",
       "$dollar", "at@", "com,ma", "eq=", "\u00fc", "u\u0308", "\u20ac/\u00e4", "\U0001f600", "\u65e5\u672c\u8a9e/\u6587",
       "...", "..a", "a..", "a..b", ".hidden", "x/.hid/y", "x/..y", "tab\tx", "nl\nx", "\u00a0", "\ufffd", "\ud7ff", "\uff0f",
       ".upload_id-x.part-1", ".tmp-x", ".bucket-YnVj.object-YQ.metadata.json", "null", "index.html",
       "a/b/c/d/e/f/g/h", "+", "++", "+/+", "%2B", "%00", "%25", "a%", "%zz"]
INTERNAL = [".tmp-", ".tmp-0f8fad5b-d9cb-469f-a165-70867728950e", ".tmp", "tmp", "x.tmp", ".upload_id-", ".upload_id-0f8fad5b-d9cb-469f-a165-70867728950e.json",
            ".upload_id-0f8fad5b-d9cb-469f-a165-70867728950e.part-1", ".bucket-", ".bucket-Ymt0.object-YQ.metadata.json", "metadata.json", ".metadata.json",
            ".commit.json", "commit.json", ".git", ".DS_Store", ".nfs0001", "lost+found", "file~", "#file#", ".file.swp", "x.part", "x.lock", "x.bak", "Thumbs.db",
            "CON", "_meta", ".keep", ".hidden", ".lock", ".trash", "$RECYCLE.BIN", "index.html", "x.json", ".x.json", "object", "bucket"]
BUCKETS = ["bkt.tmp", "abc.bak", "abc.old", "x.json", "tmp", "temp-1", "lost-found", "index.html", "con", "nul", "000", "123", "1.2.3", "1.2.3.4.5", "a.b.c.d", "a--b", "xn-a", "a.xn--b",
           "metadata.json", "commit.json", "upload-id", "part-1", "bucket", "object", "git", "logs", "backup", "trash", "sys", "root", "etc", "0-0", "a1b2c3", "test", "127.0.0.a", "s3", "a.a", "deleted", "www.example.com",
           "0" * 63, "a" + "-" * 40 + "z", "n" * 32, "local", "archive.zip", "bkt.lock", "x.part"]
BUCKETS = [b for b in BUCKETS if len(b) >= 3]
LONG = ["L" * 100, "m" * 200, "n" * 255, "/".join(["p" * 200] * 5)[:1000], "/".join(["q" * 254] * 5)[:1024],
        "/".join(["x"] * 400), "\u00fc" * 120]
MARK = ["dir/", "mark/"]
HOSTILE = ["..", ".", "../x", "../../canary", "../b2x/victim", "a/../victim", "a/./b", "./victim", "a//b", "/victim", "//victim",
           "victim/", "victim/.", "victim/..", "x/../../b2x/victim", "../../../etc/passwd", "/etc/passwd", "..\\..\\x", "nul\0x",
           "../.upload_id-1.part-1", "a/b/../../victim", "...//victim", "./.", "dir/../dir/x", "../root/bkt/victim",
           "../bkt/victim", "victim/x", "victim//", "/", "//", "a/..", "/../b2x/victim", "..%2fb2x%2fvictim", "%2e%2e/b2x/victim"]
BIGNUMS = [2 ** 15, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 10 ** 10, 2 ** 48, 2 ** 53 + 1, 10 ** 17]
META_NAMES = ["a", "b", "color", "x-y", "long-name-of-metadata", "n0", "under_score", "dot.ted", "x-amz-meta-a", "x-amz-meta-x-amz-meta-b", "meta-a", "x-amz-acl",
              "content-type", "content-length", "x-", "-a", "a-", "amz-meta-color", "null", "metadata", "0", "n" * 120, "a.b", "etag", "a!#$%&'*+^`|~"]
META_VALUES = ["", "", "1", "v", "two words", "  inner   spaces".strip(), "a=b&c", "\"quoted\"", "{json:1}", "100%", "<x>", "null", "true",
               "x" * 200, "semi;comma,", "tab\tin", "~!@#$^*()", "\\back", "0", "/slash"]


def fold64(t, rng):
    """a text whose base64 form differs from that of t in case only, if there is one"""
    d = t.encode()
    gs = [i for i in range(0, len(d), 3) if max(d[i:i + 3]) < 128]
    rng.shuffle(gs)
    for i in gs:
        e = base64.b64encode(d[i:i + 3]).decode()
        c = []
        for m in range(1, 16):
            try:
                x = base64.b64decode("".join(y.swapcase() if m >> j & 1 else y for j, y in enumerate(e)))
            except ValueError:
                continue
            if len(x) == len(d[i:i + 3]) and x != d[i:i + 3] and all(33 <= y < 127 and y not in b"/." for y in x):
                c.append(x)
        if c:
            return (d[:i] + rng.choice(c) + d[i + 3:]).decode()
    return t


class Gen:
    def __init__(self, h, rng, keys=None, nkeys=6, big=False, ctl=False):
        self.h, self.rng, self.w = h, rng, h.w
        self.ctl = ctl
        self.bs = rng.choice([["bkt", "b2x"], ["buck.et", "buck-et"], ["aaa", "aab"], ["bucket-with-a-long-name-0123456789", "b23"],
                              ["x" * 62 + "0", "x" * 62 + "1"], ["bkt", "bkt-1"], ["b-a", "b.a"]])
        if rng.random() < 0.35:
            # any valid names: some like those of files, some almost the same
            self.bs = rng.sample(BUCKETS, 2)
            if rng.random() < 0.3:
                x = self.bs[0][:40].rstrip("-.")
                self.bs[1] = rng.choice([x + ".tmp", x + "-1", x + ".bak", x + "0", "a" + x, "a." + x, x + ".x.y", x + "--x", x + "-s3alias"])
        names = list(keys) if keys else None
        if names is None and rng.random() < 0.12:
            # two buckets and keys that look the same when they are written one behind the other
            s = rng.choice(["", ".", "-"])
            self.bs = ["bkt", "bkt%sa" % s]
            names = ["a%sx" % s, "x", "a/x", "ax" if s else "a.x", "a%sx%sx" % (s, s), "x/y"][:max(nkeys, 2)]
        names = names or self.pick_names(nkeys)
        self.names = names
        self.ks = [self.w.key(n) for n in names]
        self.big = big
        self.live = set()          # what probably exists
        self.ups = []              # [u, b, k, {n: [contents]}]
        self.oldups = []
        self.metas = [{}]
        self.pool = []

    def pick_names(self, n):
        rng = self.rng
        if rng.random() < 0.08:
            # names of white space, punctuation and things that look like nothing
            al = [" ", "  ", "   ", "\t", "\u00a0", "\u2003", "\u3000", "\u200b", "\u0085", "-", "_", "~", "''", '""', "()", "null", "None", "0", "*", "?", "#", "&", ";", ",", "%", "+", "=", "\\", " a", "a ", "\ufeff", "\ufeffa", "d/ ", " /x", "\u2028"]
            return rng.sample(al, n)
        if rng.random() < 0.25:
            return self.twins(n)
        if rng.random() < 0.12:
            # the order of the keys is that of their bytes
            al = ["a", "Z", "0", "-", "/", "~", "\u00e9", "e\u0301", "\ud7ff", "\uff5e", "\ue000", "\U0001f600", "\U00010000"]
            out = []
            while len(out) < n:
                s = "".join(rng.choice(al) for _ in range(rng.choice([1, 2, 2, 3])))
                if "" not in s.split("/") and s not in out:
                    out.append(s)
            return out
        if rng.random() < 0.12:
            # names like those that programs give to their own files
            out = []
            while len(out) < n:
                s = rng.choice(INTERNAL)
                s = rng.choice([s, s, s + "x", "d/" + s, s + "/x", s.upper(), s[1:]])
                if s and s not in out:
                    out.append(s)
            return out
        mode = rng.random()
        if mode < 0.35:
            return rng.sample(PLAIN, min(n, len(PLAIN)))
        if mode < 0.75:
            return rng.sample(ODD, n - 1) + [rng.choice(PLAIN)]
        if mode < 0.85:
            return rng.sample(LONG, 2) + rng.sample(PLAIN, n - 2)
        if mode < 0.95:
            # random text
            al = ["a", "b", "/", ".", "-", " ", "%", "+", "\u00e9", "\u4e16", "~", "0", "_", "\U0001f4a9", "\uff5e", "\ue000", "!", "&", "'"]
            out = []
            while len(out) < n:
                s = "".join(rng.choice(al) for _ in range(rng.randint(1, 12)))
                segs = s.split("/")
                if all(x not in ("", ".", "..") for x in segs) and s not in out:
                    out.append(s)
            return out
        # any scalar value, also control characters
        out = []
        while len(out) < n:
            s = "".join(chr(rng.choice([rng.randint(1 if self.ctl else 32, 0x7f), rng.randint(0x80, 0x7ff), rng.randint(0x800, 0xd7ff), rng.randint(0xe000, 0xfffd), rng.randint(0x10000, 0x10ffff)]))
                        for _ in range(rng.randint(1, 6)))
            if all(x not in ("", ".", "..") for x in s.split("/")) and s not in out and not (s[-1:] in "\ufffe\uffff" and not self.ctl):
                out.append(s)
        return out

    def twins(self, n):
        """keys that differ from each other in little"""
        rng = self.rng
        r = rng.random()
        base = rng.choice(PLAIN + ODD) if r < 0.4 else "".join(rng.choice("abcXYZ019-_. \u00e9") for _ in range(rng.choice([3, 9, 17, 33, 65, 90, 100, 129, 180]))).strip(". ") + "t"
        out = [base]

        def sub(i, c):
            return base[:i] + c + base[i + 1:]
        for _ in range(200):
            if len(out) >= n:
                break
            i = rng.randrange(len(base))
            k = rng.choice([lambda: base.swapcase(), lambda: sub(i, base[i].swapcase()), lambda: base[:-1] + "u", lambda: base + "v",
                            lambda: base + " ", lambda: base + ".", lambda: " " + base, lambda: "." + base, lambda: base[:max(1, len(base) // 2)],
                            lambda: base + "/w", lambda: base.replace(" ", "+"), lambda: base + "%20", lambda: base + "=", lambda: base + "\\",
                            lambda: sub(i, rng.choice("ab-_.+/ ~%")), lambda: sub(i, "\u00e9"), lambda: sub(i, "e\u0301"), lambda: base[1:] + "z",
                            lambda: base.upper(), lambda: base.lower(), lambda: base + base[-1], lambda: base + "\u200b", lambda: base + ".json",
                            lambda: base + ".metadata.json", lambda: fold64(base, rng), lambda: fold64(base, rng), lambda: base.replace("/", rng.choice("_-.+:")), lambda: base.replace("-", "_"),
                            lambda: base.rstrip("/") + "/" + base if len(base) < 40 else base, lambda: base + "~", lambda: base + ".tmp"])()
            if k and k not in out and all(x not in ("", ".", "..") for x in k.split("/")):
                out.append(k)
        while len(out) < n:
            out.append("fill%d" % len(out))
        return out

    # ---- arguments ----
    def b(self): return self.bs[0] if self.rng.random() < 0.75 else self.bs[1]
    def k(self): return self.rng.choice(self.ks)

    def target(self):
        """a bucket and key, most likely of an existing object"""
        if self.live and self.rng.random() < 0.75:
            return self.rng.choice(sorted(self.live))
        return self.b(), self.k()

    def content(self):
        rng = self.rng
        if self.pool and rng.random() < 0.15:
            return rng.choice(self.pool)
        r = rng.random()
        if r < 0.08:
            n = 0
        elif r < 0.2:
            n = rng.randint(1, 8)
        elif r < 0.75:
            n = rng.randint(9, 400)
        elif r < 0.97:
            n = rng.choice([4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385, 20000])
        else:
            n = rng.choice([65535, 65536, 65537, 131072, 131073, 262144, 300001]) if not self.big else rng.randint(300000, 3000000)
        data = rng.randbytes(n)
        if n and rng.random() < 0.2:
            data = rng.choice([b"\r\n", b"--", b"<xml/>", b"\0", b"\n", b"0\r\n\r\n"]) + data
        c = self.w.seg(data)
        self.pool.append(c)
        return c

    def meta(self):
        rng = self.rng
        if rng.random() < 0.3:
            return {}
        m = {}
        for _ in range(rng.choice([1, 1, 2, 3, 6])):
            m[rng.choice(META_NAMES)] = rng.choice(META_VALUES) if rng.random() < 0.8 else "r%d" % rng.getrandbits(40)
        self.metas.append(m)
        return m

    def range(self, n):
        rng = self.rng
        pt = lambda: rng.choice([0, 1, 2, n // 2, max(n - 2, 0), max(n - 1, 0), n, n + 1, 2 * n + 7, rng.randint(0, n + 2), rng.choice(BIGNUMS)])
        r = rng.random()
        if r < 0.4:
            a, b = pt(), pt()
            if a > b and rng.random() < 0.8:
                a, b = b, a
            return "bytes=%d-%d" % (a, b)
        if r < 0.6:
            return "bytes=%d-" % pt()
        if r < 0.85:
            return "bytes=-%d" % pt()
        a, b = sorted([pt(), pt()])
        return rng.choice(["bytes=", "bytes=-", "bytes", "", "bytes=a-b", "bytes=1-2-3", "bytes=--1", "bytes=-1-", "bytes 0-1",
                           "octets=0-1", "0-1", "bytes=0x1-2", "bytes=+1-2", "bytes=1.0-2", "bytes=%d-%d" % (b + 1, a),
                           "bytes=00%d-00%d" % (a, b), "bytes=18446744073709551615-", "bytes=18446744073709551616-",
                           "bytes=0-18446744073709551615", "bytes=-18446744073709551615", "bytes=9223372036854775807-9223372036854775808",
                           "bytes=0-99999999999999999999", "bytes=%d-,5" % a, "bytes=;0-1", "bytes==0-1", "bytes=0--1",
                           "bytes=\xb2-3", "bytes=0 0", "bytes=0-1x", "bytes=1-2;q=1"])

    # ---- steps ----
    def start(self, both=True):
        h = self.h
        h.createbucket(self.bs[0])
        if both:
            h.createbucket(self.bs[1])

    def s_put(self):
        b, k = (self.b(), self.k()) if self.rng.random() < 0.6 else self.target()
        op = self.h.form if self.rng.random() < 0.3 else self.h.put
        r = op(b, k, self.content(), self.meta())
        if r["st"] == "ok":
            self.live.add((b, k))

    def s_get(self):
        b, k = self.target()
        self.h.get(b, k)

    def s_range(self):
        b, k = self.target()
        c = self.rng.choice(self.h.contents) if self.h.contents else []
        # the last content stored there, if known
        for e in reversed(self.h.ev):
            if e["t"] == "op" and e["a"]["op"] in ("put", "form") and e["a"]["b"] == b and e["a"]["k"] == k:
                c = e["a"]["c"]
                break
        self.h.get(b, k, self.range(len(self.w.bytes(c))))

    def s_head(self):
        b, k = self.target()
        self.h.head(b, k)

    def s_list(self):
        rng = self.rng
        b = self.b()
        kb = self.w.kb(self.k())
        p = rng.choice([b"", b"", kb, kb[:1], kb[:-1], kb[:rng.randint(0, len(kb))], kb + b"x", b"dir/", b"dir", b"x", kb.split(b"/")[0] + b"/"])
        if rng.random() < 0.35:
            # almost a prefix of a key
            p = p or kb[:rng.randint(1, len(kb))]
            i = rng.randrange(len(p))
            p = rng.choice([b"/" + p, b"/" + p, p + b"/", p + b" ", b" " + p, p.swapcase(), p.upper(), p.lower(), b"./" + p, b"../" + p, b"//" + p, p.replace(b"/", b"//"), p + b"*", b"*",
                            b"/", b".", b"%" + p, p + b"\\", p[:i] + b"." + p[i + 1:], p[:i] + b"?" + p[i + 1:], p[:i] + b"*", p[1:], b.encode() + b"/" + p, b"/" + b.encode() + b"/" + p,
                            store.enc(p.decode("utf-8", "ignore"), safe=b"").encode(), p + p, p + b"\0", p * 3])
        try:
            p.decode()
        except UnicodeDecodeError:
            p = kb
        self.h.list(b, p, v=rng.choice([1, 2]), enc=self.need_enc() or rng.random() < 0.4)

    def need_enc(self):
        """keys with characters that XML can not carry"""
        return any(c < " " and c not in "\t\n\r" or c in "\ufffe\uffff" for n in self.names for c in n)

    def s_delete(self):
        b, k = self.target()
        self.h.delete(b, k)
        self.live.discard((b, k))

    def s_deletes(self):
        rng = self.rng
        b = self.b()
        if self.need_enc():
            return self.s_delete()
        ks = [rng.choice(self.ks) if rng.random() < 0.85 else self.near(rng.choice(self.ks)) for _ in range(rng.randint(1, 4))]
        r = self.h.deletes(b, ks, quiet=rng.random() < 0.3)
        if r["st"] == "ok":
            for k in ks:
                self.live.discard((b, k))

    def s_copy(self):
        sb, sk = self.target()
        b, k = (self.b(), self.k()) if self.rng.random() < 0.85 else (sb, sk)
        rep = self.rng.random() < 0.4
        r = self.h.copy(sb, sk, b, k, rep, self.meta() if rep or self.rng.random() < 0.2 else {})
        if r["st"] == "ok":
            self.live.add((b, k))

    def s_create(self):
        b, k = self.target() if self.rng.random() < 0.4 else (self.b(), self.k())
        r = self.h.create(b, k, self.meta())
        if r["st"] == "ok":
            self.ups.append([r["u"], b, k, {}])

    def some_upload(self):
        if not self.ups:
            self.s_create()
        return self.rng.choice(self.ups) if self.ups else None

    def s_part(self, n=None):
        up = self.some_upload()
        if not up:
            return
        n = n or self.rng.choice([1, 1, 2, 2, 3, 7, 10, 9999, 10000])
        c = self.content()
        r = self.h.part(up[0], up[1], up[2], n, c)
        if r["st"] == "ok":
            up[3][n] = up[3].get(n, []) + [c]

    def parts_of(self, up, wild=False):
        rng = self.rng
        ns = sorted(up[3])
        if rng.random() < 0.3 and len(ns) > 1:
            ns = sorted(rng.sample(ns, rng.randint(1, len(ns))))
        ps = []
        for n in ns:
            e = "some" if rng.random() < 0.85 else "none"
            ps.append({"n": n, "e": e, "c": up[3][n][-1] if e == "some" else []})
        if wild and rng.random() < 0.6:
            how = rng.randint(0, 5)
            if how == 0:
                ps = []
            elif how == 1:
                ps.append({"n": (ns[-1] if ns else 0) + 1, "e": "none", "c": []})
            elif how == 2 and len(ps) > 1:
                rng.shuffle(ps)
            elif how == 3 and ps:
                ps[0] = {"n": ps[0]["n"], "e": "bogus", "c": []}
            elif how == 4 and ps:
                n = ps[-1]["n"]
                cs = [c for c in up[3][n] if c != up[3][n][-1]]
                ps[-1] = {"n": n, "e": "some", "c": rng.choice(cs) if cs else self.content()}
            elif ps:
                ps = ps + [dict(ps[-1])]
        return ps

    def s_complete(self, wild=None):
        up = self.some_upload()
        if not up:
            return
        if not up[3]:
            for _ in range(self.rng.randint(1, 3)):
                self.s_part_of(up)
        ps = self.parts_of(up, wild if wild is not None else self.rng.random() < 0.3)
        r = self.h.complete(up[0], up[1], up[2], ps)
        if r["st"] == "ok":
            if up in self.ups:
                self.ups.remove(up)
            self.oldups.append(up)
            self.live.add((up[1], up[2]))

    def s_part_of(self, up, n=None):
        n = n or self.rng.choice([1, 2, 3, 10, 11])
        c = self.content()
        r = self.h.part(up[0], up[1], up[2], n, c)
        if r["st"] == "ok":
            up[3][n] = up[3].get(n, []) + [c]

    def s_badupload(self):
        """use of an upload id that is not for this bucket and key"""
        rng = self.rng
        if rng.random() < 0.5 and (self.ups or self.oldups):
            up = rng.choice(self.ups + self.oldups)
            u, b, k = up[0], up[1], up[2]
            how = rng.randint(0, 2)
            if up in self.oldups and how == 0:
                pass
            elif how == 1:
                b = [x for x in self.bs if x != b][0]
            else:
                k2 = [x for x in self.ks if x != k]
                k = rng.choice(k2)
            ps = self.parts_of(up) or [{"n": 1, "e": "none", "c": []}]
        else:
            b, k = self.target()
            u = rng.choice(["x", "0", "11111111-2222-4333-8444-555555555555", "../x", "..", ".", "a/b", "1.part-1", "%00", "\u00fc", " ",
                            "..%2f..%2fcanary", "x" * 300])
            if self.ups and rng.random() < 0.4:
                real = rng.choice(self.ups)[0]
                u = rng.choice([real.upper(), real[:-1], real + "0", real.replace("-", ""), "{" + real + "}", real + ".part-1",
                                "urn:uuid:" + real, real + "/", "./" + real, real + "\0"])
                if u == real:
                    u = "x"
            ps = [{"n": 1, "e": "none", "c": []}]
        if rng.random() < 0.5:
            self.h.part(u, b, k, rng.choice([1, 2, 3]), self.content())
        else:
            self.h.complete(u, b, k, ps)

    def s_badpart(self):
        up = self.some_upload()
        if up:
            self.h.part(up[0], up[1], up[2], self.rng.choice([0, -1, 10001, 65536, 2147483647]), self.content())

    def s_buckets(self):
        rng, h = self.rng, self.h
        b = rng.choice(self.bs)
        r = rng.random()
        if r < 0.3:
            h.createbucket(b)
        elif r < 0.6:
            if h.deletebucket(b)["st"] == "ok":
                self.live = {x for x in self.live if x[0] != b}
                for u in [u for u in self.ups if u[1] == b]:
                    self.ups.remove(u)
                    self.oldups.append(u)
        elif r < 0.7:
            h.headbucket(b)
        elif r < 0.8:
            h.location(b)
        else:
            h.listbuckets()

    def s_md5(self):
        rng = self.rng
        md5 = rng.choice(["good", "bad", "bad", "invalid"])
        if rng.random() < 0.6:
            b, k = self.target()
            if self.h.put(b, k, self.content(), self.meta(), md5=md5)["st"] == "ok":
                self.live.add((b, k))
        else:
            up = self.some_upload()
            if up:
                n = rng.choice([1, 2, 3])
                c = self.content()
                if self.h.part(up[0], up[1], up[2], n, c, md5=md5)["st"] == "ok":
                    up[3][n] = up[3].get(n, []) + [c]

    def s_mark(self):
        rng = self.rng
        k = self.w.key(rng.choice(["dir/", "a/", "mark/", "e/"]))
        b = self.b()
        t = self.target()
        rng.choice([lambda: self.h.put(b, k, []), lambda: self.h.delete(b, k), lambda: self.h.get(b, k), lambda: self.h.put(b, k, self.content(), self.meta()),
                    lambda: self.h.put(b, k, self.content(), self.meta(), **rng.choice([dict(_nolen=True), dict(_nolen=True), dict(_chunked="good")])), lambda: self.h.form(b, k, self.content(), self.meta()),
                    lambda: self.h.head(b, k), lambda: self.h.copy(t[0], t[1], b, k), lambda: self.h.copy(b, k, t[0], t[1])])()

    def near(self, k):
        """a name that is almost that of a key"""
        w, rng = self.w, self.rng
        t = w.kb(k).decode("utf-8", "ignore")
        c = [t + "/", t + "/", t[:-1], t[1:], "/" + t, t + "/x", t + " ", " " + t, t + ".", t.swapcase(), t.rsplit("/", 1)[0], t.rsplit("/", 1)[0] + "/", t + "//", t + "/.",
             store.enc(t), store.enc(t, safe=b""), t.replace("+", " "), t.replace(" ", "+"), t + "?versionId=null", t + "%00", t + "%20", t + "%2F", t + "\\", t + "#",
             t.replace("\u00fc", "u\u0308"), t + t[-1:], "x/../" + t, "./" + t, t.split("/")[0] + "/./" + t, t + "~", "*", t[:-1] + "?", t[:-1] + "*"]
        c += [fold64(t, rng)] * 2
        if "%" in t:
            c += [up.unquote(t, errors="ignore")] * 4
        t2 = rng.choice(c)
        return w.key(t2) if t2 and all(ord(x) >= 32 for x in t2) else k

    def s_near(self):
        """something with a name that is almost that of an object"""
        h, rng = self.h, self.rng
        b, k = self.target()
        n = self.near(k)
        x = rng.randint(0, 6)
        if x == 0:
            h.get(b, n)
        elif x == 1:
            h.head(b, n)
        elif x == 2:
            if h.delete(b, n)["st"] == "ok":
                self.live.discard((b, n))
        elif x == 3 and not self.need_enc():
            if h.deletes(b, [n])["st"] == "ok":
                self.live.discard((b, n))
        elif x in (4, 5):
            d = self.target()
            if h.copy(b, n, d[0], d[1])["st"] == "ok":
                self.live.add(d)
            h.get(d[0], d[1])
        else:
            self.h.list(b, self.w.kb(n), v=rng.choice([1, 2]), enc=self.need_enc() or rng.random() < 0.3)
        h.get(b, k)

    def s_gone(self):
        """everything in a bucket that does not exist"""
        rng, h = self.rng, self.h
        b = rng.choice(["no-such", "missing.bucket", "b2x-"[:3] + "9"])
        k = self.k()
        eb, ek = self.target()
        rng.choice([lambda: h.put(b, k, self.content(), self.meta()), lambda: h.form(b, k, self.content(), self.meta()),
                    lambda: h.get(b, k), lambda: h.head(b, k), lambda: h.list(b, v=rng.choice([1, 2])),
                    lambda: h.delete(b, k), lambda: h.deletes(b, [k if not self.need_enc() else self.w.key("z")]),
                    lambda: h.copy(eb, ek, b, k), lambda: h.copy(b, k, eb, ek), lambda: h.copy(b, k, b, k),
                    lambda: h.create(b, k, self.meta()), lambda: h.deletebucket(b), lambda: h.headbucket(b), lambda: h.location(b)])()

    def s_broken(self):
        """an upload whose body ends early"""
        rng, h = self.rng, self.h
        c = self.content()
        if not c:
            return
        n = len(self.w.bytes(c))
        kind = rng.choice(["put", "form", "part", "chunked"])
        kw = dict(broken=True, _keep=rng.choice([0, 1, n // 2, n - 1, n]), _how=rng.choice(["err", "end"]))
        if kind == "chunked":
            how = rng.choice(["nofinal", "drop", "cut", "flip", "sig", "swap", "dup", "err", "nofinal", "cut"])
            kw = dict(broken=True, _chunked=how)
            up = self.some_upload() if rng.random() < 0.4 else None
            if up:
                h.part(up[0], up[1], up[2], rng.choice(sorted(up[3]) or [1]), c, **kw)
            else:
                b, k = self.target()
                h.put(b, k, c, self.meta(), **kw)
        elif kind == "put":
            b, k = self.target()
            h.put(b, k, c, self.meta(), **kw)
        elif kind == "form":
            b, k = self.target()
            a = dict(h.put_a(b, k, c, self.meta()), op="form")
            kw["_keep"] = rng.choice([0, 10, 200, 700, 1200, 1500, 1200 + n // 2, 1200 + n])
            kw["_whole"] = True
            h.do(dict(a, **kw))
        else:
            up = self.some_upload()
            if up:
                h.part(up[0], up[1], up[2], rng.choice(sorted(up[3]) or [1]), c, **kw)

    def sweep(self, heads=False, enc=None):
        h = self.h
        bs = self.bs
        h.listbuckets()
        e = self.need_enc() if enc is None else enc
        for b in bs:
            h.headbucket(b)
            h.list(b, v=self.rng.choice([1, 2]), enc=e or self.rng.random() < 0.3)
            for k in self.ks:
                h.get(b, k)
                if heads:
                    h.head(b, k)

    def probe_uploads(self):
        """complete what is left, so that the content of the uploads is seen"""
        for up in list(self.ups):
            if up[3]:
                ps = [{"n": n, "e": "none", "c": []} for n in sorted(up[3])]
                r = self.h.complete(up[0], up[1], up[2], ps)
                if r["st"] == "ok":
                    self.h.get(up[1], up[2])

    def run(self, weights, n):
        ops = [getattr(self, "s_" + x) for x in weights]
        ws = list(weights.values())
        for _ in range(n):
            self.rng.choices(ops, ws)[0]()
