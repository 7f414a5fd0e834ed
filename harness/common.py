"""Shared helpers: paths, text escaping, safe numeric projection, TLC runner."""
import json
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("F15_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
CORES = max(1, min(8, os.cpu_count() or 1))

BAD = -2000000001      # a number that is not a finite number of the expected type
NAN = -2000000002


class Machinery(Exception):
    """The check itself failed; never a verdict about the code."""


def esc(x):
    """A printable ASCII rendering of a string, compatible with concatenation."""
    if not isinstance(x, str):
        return "{" + type(x).__name__ + "}"
    out = []
    for c in x:
        o = ord(c)
        if 32 <= o < 127 and c not in '"\\{}':
            out.append(c)
        else:
            out.append("{%X}" % o)
    return "".join(out)


def num(x, scale=1):
    """Scaled integer projection of a number; sentinels for anything else."""
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        return BAD
    if isinstance(x, float) and not math.isfinite(x):
        return NAN
    v = int(round(x * scale))
    return v if abs(v) < 2000000000 else BAD


class Tlc:
    """One TLC run; keeps everything in a scratch directory that is removed."""

    def __init__(self, module, cfg, env=None, workers=None, heap="6g", timeout=800, extra=(), modules=()):
        self.dir = tempfile.mkdtemp(prefix="f15tlc.")
        self.module, self.cfg, self.env = module, cfg, env or {}
        self.workers, self.heap, self.timeout, self.extra = workers or CORES, heap, timeout, list(extra)
        for name, text in modules:
            with open(os.path.join(self.dir, name + ".tla"), "w") as f:
                f.write(text)
        self.cfgfile = os.path.join(self.dir, "run.cfg")
        with open(self.cfgfile, "w") as f:
            f.write(cfg)

    def run(self):
        src = os.path.join(self.dir, self.module + ".tla")
        if not os.path.exists(src):
            src = os.path.join(SPEC, self.module + ".tla")
        env = dict(os.environ)
        env.pop("JAVA_TOOL_OPTIONS", None)
        env.update(self.env)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + self.heap, "-Xss16m", "-DTLA-Library=" + SPEC,
               "-Djava.io.tmpdir=" + self.dir,
               "-cp", TLA_CP, "tlc2.TLC", "-workers", str(self.workers), "-noGenerateSpecTE",
               "-metadir", os.path.join(self.dir, "meta"), "-config", self.cfgfile] + self.extra + [src]
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=self.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=self.timeout)
            out, rc = p.stdout.decode("utf-8", "replace"), p.returncode
        except subprocess.TimeoutExpired as ex:
            raise Machinery("TLC timed out after %ds on %s" % (self.timeout, self.module)) from ex
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)
        return TlcResult(self.module, out, rc, time.time() - t0)


class TlcResult:
    def __init__(self, module, out, rc, wall):
        self.module, self.out, self.rc, self.wall = module, out, rc, wall
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        self.states = int(m.group(2)) if m else 0
        self.transitions = int(m.group(1)) if m else 0
        self.finished = "Model checking completed. No error has been found." in out
        # evaluating a formula in some state failed
        self.no_value = not self.finished and "The behavior up to this point is:" in out and "is violated" not in out and "Deadlock" not in out
        m = re.search(r"Invariant (\S+) is violated", out)
        self.invariant = m.group(1) if m else None
        m = re.search(r"Finished computing initial states: (\d+)", out)
        self.initial = int(m.group(1)) if m else 0

    def require_ok(self):
        if not self.finished:
            tail = [l for l in self.out.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting"))]
            raise Machinery("TLC on %s did not finish cleanly (rc %s):\n%s" % (self.module, self.rc, "\n".join(tail[:60])))
        return self

    def prints(self, tag):
        """What the specification printed with Reject ("F") or Emission ("H")."""
        pre = '"%s ' % tag
        lines = self.out.splitlines()
        if any(l.startswith(pre) and not l.endswith('"') for l in lines):
            raise Machinery("unreadable output of " + self.module)
        return [l[len(pre):-1].replace('\\"', '"').replace("\\\\", "\\") for l in lines if l.startswith(pre)]


def write_json(path, obj):
    with open(path, "w") as f:
        json.dump(obj, f, separators=(",", ":"))
