"""Builds and drives the executor (harness/): the real server, commanded by JSON lines."""
import atexit, base64, json, os, shutil, subprocess, sys, tempfile, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
WORK = os.path.join(VERIF, "work")
NOBODY = 65534


class ToolError(Exception):
    pass


def build():
    """compile the harness (and with it /repo's working tree)"""
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               RUSTFLAGS="--cap-lints warn", CARGO_INCREMENTAL="1",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only",
               CARGO_TARGET_DIR=os.path.join(HARNESS, "target"))
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise ToolError("the harness does not build")
    shim = os.path.join(HARNESS, "shim", "shim.c")
    if os.path.exists(shim):
        out = os.path.join(HARNESS, "target", "libs3shim.so")
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(shim):
            tmp = out + ".%d" % os.getpid()
            p = subprocess.run(["gcc", "-O1", "-g", "-Wall", "-shared", "-fPIC", "-o", tmp, shim, "-ldl", "-lpthread"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                sys.stderr.write(p.stdout[-4000:])
                raise ToolError("the shim does not build")
            os.rename(tmp, out)


_scratch = []


def scratch():
    """a fresh directory of the unprivileged user, deep below /tmp"""
    top = tempfile.mkdtemp(prefix="vs3-", dir="/tmp")
    _scratch.append(top)
    os.chmod(top, 0o755)
    d = top
    for n in ("d1", "d2", "d3", "d4", "d5", "d6"):
        d = os.path.join(d, n)
        os.mkdir(d)
        os.chown(d, NOBODY, NOBODY)
    os.chown(top, NOBODY, NOBODY)
    return d


def drop_scratch(d):
    top = os.path.abspath(d)
    while os.path.dirname(top) != "/tmp":
        top = os.path.dirname(top)
    if os.path.basename(top).startswith("vs3-"):
        shutil.rmtree(top, ignore_errors=True)
        if top in _scratch:
            _scratch.remove(top)


@atexit.register
def _cleanup():
    for d in list(_scratch):
        shutil.rmtree(d, ignore_errors=True)


def b64(b):
    return base64.b64encode(b).decode()


class Exec:
    """one executor process, run by the unprivileged user"""

    def __init__(self, shim=False, env=None):
        e = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent"}
        e.update(env or {})
        if shim:
            e["LD_PRELOAD"] = os.path.join(HARNESS, "target", "libs3shim.so")
        self.cwd = scratch()
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if os.geteuid() == 0 else {}
        self.p = subprocess.Popen([os.path.join(HARNESS, "target", "debug", "s3exec")], cwd=self.cwd, env=e,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, **kw)
        self.n = 0
        self.log = None
        self.roots = []

    def cmd(self, **c):
        self.n += 1
        try:
            self.p.stdin.write(json.dumps(c).encode() + b"\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = b""
        if not line:
            raise Died("executor ended with %r" % self.p.poll())
        r = json.loads(line)
        if "error" in r:
            raise ToolError("executor: %s" % r["error"])
        if self.log is not None:
            self.log.append([c, r])
        return r

    def root(self):
        d = os.path.join(scratch(), "root")
        os.mkdir(d)
        os.chown(d, NOBODY, NOBODY)
        self.roots.append(d)
        return d

    def forget(self, h):
        """drop the services and the files of a history"""
        for i in (h.id, h.id + "a"):
            try:
                self.cmd(cmd="drop_svc", id=i)
            except (ToolError, Died):
                pass
        drop_scratch(h.root)
        if h.root in self.roots:
            self.roots.remove(h.root)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()
        for d in self.roots + [self.cwd]:
            drop_scratch(d)
        self.roots = []

    def kill(self):
        self.p.kill()
        self.p.wait()


class Died(Exception):
    pass
