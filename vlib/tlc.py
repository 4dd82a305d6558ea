"""Runs TLC."""
import json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from .exe import VERIF, ToolError

SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Timeout(ToolError):
    """TLC took too long"""


class Result:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        self.states, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        # "Finished in" is always printed; these are errors of the specification or of TLC itself
        self.tool_error = not m and not ("Finished computing" in out and rc == 0)

    def lines(self, tag):
        """values printed as <<"tag", ...>>"""
        return re.findall(r'^<<"%s", (.*)>>$' % tag, self.out, re.M)


def run(module, cfg=None, env=None, workers=1, heap="2g", timeout=600, args=(), light=None):
    t0 = time.time()
    md = tempfile.mkdtemp(prefix="vtlc-", dir="/tmp")
    e = dict(os.environ)
    e.update(env or {})
    light = workers == 1 if light is None else light
    gc = ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"] if light else ["-XX:+UseParallelGC"]
    cmd = ["java"] + gc + ["-Xmx" + heap, "-Xss64m",
           "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", md, "-nowarning", "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, (cfg or module) + ".cfg")]
    cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
    # TLC unpacks the standard modules into java.io.tmpdir
    cmd[1:1] = ["-Djava.io.tmpdir=" + md]
    try:
        p = subprocess.run(cmd, cwd=md, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise Timeout("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return Result(p.stdout, p.returncode, time.time() - t0)


def pool(jobs, n=8):
    """run several functions in parallel, results in order"""
    with ThreadPoolExecutor(max_workers=n) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]
