"""What the checks share: building the driver, running TLC, results."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
REPO = "/repo"
GO = "/opt/veriftools/go1.27.3/bin"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself failed; says nothing about the property."""


class Violation(Exception):
    """The real code did something the specification does not allow."""

    def __init__(self, what, data):
        super().__init__(what)
        self.what = what
        self.data = data


def go_env():
    env = dict(os.environ)
    env.update(PATH=GO + ":" + env.get("PATH", ""), HOME="/root", GOTOOLCHAIN="local",
               GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
    return env


class Work:
    """A scratch directory with the driver built against /repo."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="radixcheck-")
        self.tlc_runs = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def build(self, race=False):
        src = self.path("driver-src")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(ROOT, "driver"), src)
        out = self.path("driver-race" if race else "driver")
        cmd = ["go", "build", "-o", out]
        env = go_env()
        if race:
            cmd.append("-race")
            env["CGO_ENABLED"] = "1"
        r = subprocess.run(cmd + ["."], cwd=src, env=env, capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            raise CheckError("the driver does not build:\n" + r.stdout + r.stderr)
        return out

    def tlc(self, module, config=None, env=None, workers=8, heap="6g", args=(), timeout=800, out=None):
        """Runs TLC and returns its parsed result. What it prints goes to the
        file out if there is one; the result then has the last lines only."""
        self.tlc_runs += 1
        meta = self.path("meta%d" % self.tlc_runs)
        tmp = self.path("jtmp")
        os.makedirs(tmp, exist_ok=True)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + tmp,
               "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", os.path.join(SPEC, (config or module) + ".cfg")]
        cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
        e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": self.dir}
        e.update(env or {})
        start = time.time()
        try:
            if out:
                with open(out, "w") as f:
                    r = subprocess.run(cmd, cwd=self.dir, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
                with open(out, "rb") as f:
                    f.seek(max(0, os.path.getsize(out) - 20000))
                    text = f.read().decode(errors="replace")
            else:
                r = subprocess.run(cmd, cwd=self.dir, env=e, capture_output=True, text=True, timeout=timeout)
                text = r.stdout + r.stderr
        except subprocess.TimeoutExpired:
            raise CheckError("TLC did not finish %s in %d s" % (module, timeout))
        shutil.rmtree(meta, ignore_errors=True)
        return TLCResult(module, text, r.returncode, time.time() - start)


class TLCResult:
    def __init__(self, module, out, code, wall):
        self.module, self.out, self.code, self.wall = module, out, code, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "").replace("generated ", "generated, "))
        if not m:
            m = re.findall(r"([\d]+) states generated[, ]+([\d]+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        v = re.search(r"Invariant (\w+) is violated", out)
        self.violated = v.group(1) if v else None
        self.ok = "Model checking completed. No error has been found" in out and code == 0

    def require_ok(self):
        if not self.ok:
            raise CheckError("TLC on %s ended with %d:\n%s" % (self.module, self.code, self.out[-4000:]))
        return self


LIBRARY = "github.com/absolutelightning/go-immutable-adaptive-radix."


def crash_report(r, args):
    """Raises Violation if a call of the library ended the driver: by a stack
    overflow, an error of the runtime or by using all memory."""
    for start in ("fatal error: ", "panic: ", "unexpected fault address "):
        at = r.stderr.find(start)
        if at < 0:
            continue
        parts = r.stderr[at:].split("\ngoroutine ")
        what = parts[0].split("\n")[0][:200]
        # after an error the goroutine that caused it comes first; if memory
        # runs out it is one of those that are running
        mine = parts[1:] if "out of memory" in what else parts[1:2]
        if any(LIBRARY in p for p in mine):
            raise Violation("a call ended the program: " + what,
                            {"kind": "crash", "what": what, "args": [str(a) for a in args], "report": r.stderr[at:at + 20000]})


def run_driver(exe, args, timeout=600, env=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        raise CheckError("the driver did not finish in %d s" % timeout)
    if r.returncode not in (0, 66):
        crash_report(r, args)
    return r
