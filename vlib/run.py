"""Runs one check: cases in parallel workers, verdicts, replay files, known findings, evidence."""
import hashlib, json, multiprocessing, os, sys, time, traceback
from . import exe, judge

VERIF = exe.VERIF


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.quick = tier == "quick"

    def left(self, budget):
        return budget - (time.time() - self.t0)


class Out:
    """what a piece of work found"""

    def __init__(self):
        self.viol = []       # {"what", "key", "data"}
        self.stats = {}
        self.samples = []
        self.notes = []

    def add(self, **kw):
        for k, v in kw.items():
            self.stats[k] = self.stats.get(k, 0) + v

    def violation(self, what, key, data):
        self.viol.append({"what": what, "key": key, "data": data})

    def merge(self, o):
        self.viol += o.viol
        for k, v in o.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        self.samples += o.samples[:2]
        self.notes += o.notes


def _call(job):
    f, args = job
    try:
        return f(*args)
    except exe.ToolError as e:
        return "tool error: %s" % e
    except Exception:
        return "tool error: " + traceback.format_exc()


def parallel(jobs, n=8):
    """jobs: (function, args); -> Out of all together"""
    out = Out()
    if not jobs:
        return out
    ctx = multiprocessing.get_context("fork")
    errors = []
    with ctx.Pool(min(n, len(jobs))) as pool:
        for r in pool.imap_unordered(_call, jobs):
            if isinstance(r, str):
                errors.append(r)
            else:
                out.merge(r)
    # a violation stays one although some other part of the work failed
    if errors and not out.viol:
        raise exe.ToolError(errors[0])
    out.notes += errors[:1]
    return out


def known(pid):
    """the findings of a property that are recorded and not repaired: list of (key, text)"""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                k, _, t = rest.partition(" ")
                out.append((k[len("key="):], t))
    return out


def main(pid, tier, seed, fn, level):
    ctx = Ctx(pid, tier, seed)
    exe.build()
    ctx.t0 = time.time()
    out = fn(ctx)
    kf = known(pid)
    for k, t in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    bad = [v for v in out.viol if v["key"] not in [k for k, _ in kf]]
    os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
    shown = 0
    seen = set()
    for v in bad:
        sig = v["what"][:80]
        if sig in seen and shown >= 3:
            continue
        seen.add(sig)
        if shown >= 5:
            break
        shown += 1
        data = json.dumps({"property": pid, "what": v["what"], "key": v["key"], "tier": tier, "seed": seed, "data": v["data"]},
                          indent=1, default=repr)
        path = os.path.join(VERIF, "work", "replay-%s-%s.json" % (pid, hashlib.md5(data.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write(data)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  " + v["what"][:600])
    cov = dict(out.stats)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "wall_s": round(time.time() - ctx.t0, 2), "violations": len(bad)}
    cov["samples"] = out.samples[:4] or ["none"]
    cov["rule"] = RULES.get(pid, "see DESIGN.md")
    if "assumptions" in ctx.__dict__:
        ev["assumptions"] = ctx.assumptions
    if level == "model_checking":
        for k in ("states", "transitions", "traces_validated_against_impl"):
            cov.setdefault(k, 0)
    else:
        for k in ("evaluations", "distinct_nontrivial"):
            cov.setdefault(k, 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    os.rename(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    print("%s %s seed %d: %s, %d violation(s), %.1f s" % (
        pid, tier, seed, ", ".join("%s %s" % (v, k) for k, v in out.stats.items()), len(bad), time.time() - ctx.t0))
    return 1 if bad else 0


_store = ("histories of requests, random (seeded) and along the transitions of spec/MC_Store, executed on the real service; one state of "
          "S3Trace per event; non-trivial: different histories of more than three events; ")
_auth = ("one evaluation per request executed on the real service and judged by AuthTrace; non-trivial: requests whose answer the "
         "specification settles (not free); ")
_api = ("one evaluation per request executed on the real service with the recording backend and judged by ApiTrace; non-trivial: different "
        "requests; ")
RULES = {
    "C01": _store + "writes and reads of all keys, contents, framings, metadata",
    "C02": _store + "requests with every reason to be refused, followed by reads of everything",
    "C03": _store + "uploads that break off, are cut, are cancelled or slow, with readers meanwhile",
    "C04": _store + "changes of objects with metadata, followed by reads",
    "C05": _store + "listings after all changes; one history with more than 1000 objects and 120 buckets",
    "C06": _store + "bucket operations, and operations on missing buckets",
    "C07": _store + "uploads of parts in all orders and completions; one history with more than 1000 parts",
    "C08": _store + "foreign, ended and unknown upload ids",
    "C09": _store + "reads with all kinds of ranges",
    "C10": _store + "hostile keys, copy sources, upload ids; the directory outside the root is compared afterwards",
    "C19": _store + "all ETags",
    "C20": _store + "copies, onto themselves as well, and changes of source and copy afterwards",
    "C21": _store + "single and multiple deletes; some of about 1000 keys",
    "C25": _store + "right, wrong and invalid Content-MD5 of objects and parts",
    "C29": _store + "four views of all keys and their prefixes",
    "C11": _auth + "requests without, with partial or with foreign credentials",
    "C12": _auth + "requests changed after they were signed",
    "C13": _auth + "requests that are signed correctly in all ways a client may",
    "C15": _auth + "presigned URLs at chosen moments around their period",
    "C14": "one evaluation per chunk-signed upload executed on the real service and judged by ChunkTrace; non-trivial: not free",
    "C16": "one evaluation per form executed on the real service in some framing and judged by PostTrace; non-trivial: different forms that are not free",
    "C26": "one evaluation per signed form executed on the real service and judged by PostTrace; non-trivial: different forms that are not free",
    "C17": _api + "malformed, hostile and valid requests",
    "C18": _api + "all combinations of method, path, sub-resources and distinguishing headers",
    "C24": _api + "bucket names and keys around every rule, in every place where a request may carry them",
    "C28": _api + "all fields of inputs and outputs",
    "C22": "overlapping requests on the real service, stopped and released at file operations; non-trivial: different histories",
    "C23": "the server is stopped before every file operation of every operation (failing and short ones as well) and started again",
    "C30": "requests of all kinds that stall at any point, on the real service and on connections of the program, while others go on; non-trivial: different histories",
    "C31": "histories with requests that are refused, break off, or are abandoned at any point (also between file operations), after which the files, bytes and descriptors are counted; non-trivial: different histories",
    "C32": "measurements of the memory of the real program after requests with objects of 128 MB and more; non-trivial: each measurement",
    "C27": "each file operation of every operation fails, once, or from then on, with several errors",
}
