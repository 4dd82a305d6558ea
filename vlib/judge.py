"""Lets TLC decide whether recorded histories are behaviours of the specification."""
import json, os, re, tempfile
from . import tlc, exe

ALL = ["st", "code", "body", "meta", "etag", "len", "list", "size", "count", "order", "range", "report", "uid", "echo",
       "mtime", "outside"]


Timeout = tlc.Timeout


class Verdict:
    def __init__(self):
        self.bad = []        # (index of history, index of event, text)
        self.states = 0
        self.events = 0


def trace(world, hists, aspects, opaspects):
    return {"keys": [list(x) for x in world.keys], "seglen": [len(s) for s in world.segs],
            "aspects": list(aspects), "opaspects": [list(x) for x in opaspects],
            "hist": [{"ev": h.ev if hasattr(h, "ev") else h["ev"]} for h in hists]}


def run_trace(data, module="S3Trace", heap="3g", timeout=600):
    """-> Verdict; raises ToolError if TLC itself fails"""
    v = Verdict()
    v.events = sum(len(h["ev"]) for h in data["hist"])
    if not data["hist"]:
        return v
    fd, path = tempfile.mkstemp(prefix="vtrace-", suffix=".json", dir="/tmp")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(data, f)
        r = tlc.run(module, env={"S3_TRACE": path}, heap=heap, timeout=timeout)
    finally:
        os.unlink(path)
    if r.tool_error or r.distinct == 0:
        raise exe.ToolError("TLC failed on a trace:\n" + r.out[-3000:])
    v.states = r.distinct
    why = {}
    for m in re.finditer(r'<<"MISMATCH", (\d+), (\d+), \{([^}]*)\}, "(\w+)">>', r.out.replace("\n", " ")):
        why.setdefault(int(m.group(1)), []).append((int(m.group(2)), m.group(3).replace('"', ""), m.group(4)))
    rej = {}
    for m in re.finditer(r'<<"REJECTED", (\d+), (\d+)>>', r.out.replace("\n", " ")):
        rej[int(m.group(1))] = int(m.group(2))
    if not rej and "Error:" in r.out:
        raise exe.ToolError("TLC failed on a trace:\n" + r.out[-3000:])
    for h, l in sorted(rej.items()):
        w = [x for x in why.get(h, []) if x[0] == l]
        text = "; ".join("%s: wrong %s" % (x[2], x[1]) for x in w) or "no order of the operations explains the responses"
        v.bad.append((h - 1, l - 1, text))
    return v


def judge(world, hists, aspects, opaspects=(), **kw):
    return run_trace(trace(world, hists, aspects, opaspects), **kw)


def cases(out, module, data, infos, text, key, heap="2g", timeout=700):
    """Judges independent cases: the module prints BAD (with the number of the case, the verdict of the specification and
    the observation), GENERATOR (the generator meant something else: an error of the machinery) and COUNT."""
    if not infos:
        return
    fd, path = tempfile.mkstemp(prefix="vcase-", suffix=".json", dir="/tmp")
    with os.fdopen(fd, "w") as f:
        json.dump(data, f)
    try:
        res = tlc.run(module, env={"S3_TRACE": path}, heap=heap, timeout=timeout)
    finally:
        os.unlink(path)
    txt = res.out.replace("\n", " ")
    m = re.search(r'<<\s*"COUNT", ([^>]*?)\s*>>', txt)
    if not m:
        raise exe.ToolError("TLC failed:\n" + res.out[-3000:])
    g = re.findall(r'<<\s*"GENERATOR", (\d+), ([^>]*?)\s*>>', txt)
    if g:
        raise exe.ToolError("the generator and the specification differ: %s %s" % (g[:3], json.dumps(infos[int(g[0][0]) - 1])[:3000]))
    for n, rest in re.findall(r'<<\s*"BAD", (\d+), (.*?)\s*>>', txt):
        info = infos[int(n) - 1]
        out.violation("%s: %s" % (text(info), rest), key, info)
    c = [int(x) for x in m.group(1).split(",")]
    out.add(states=res.distinct, transitions=len(infos), traces_validated_against_impl=len(infos), evaluations=len(infos),
            distinct_nontrivial=len({json.dumps(i.get("request", i), sort_keys=True, default=str) for i in infos}))
    return c
