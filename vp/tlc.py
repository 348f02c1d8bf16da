"""Run TLC on a specification and read back what it explored."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from vp.env import VERIF, scratch

SPECS = os.path.join(VERIF, "specs")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    """The machinery failed: no verdict about the code."""


class SpecViolation(Exception):
    """TLC found an invariant/property violation of the specification itself."""


class TLCResult(object):
    def __init__(self, out, rc):
        self.out = out
        self.rc = rc
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0


def run(module, text, cfg, files=None, workers=1, timeout=840, emit=None,
        simulate=None, heap="6g"):
    """
    Run TLC on a generated root module C{module} with source C{text}, which may
    EXTEND any module in /verif/specs.  Every line emitted as "@@<json>" is
    decoded and passed to C{emit}.
    """
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    try:
        with open(os.path.join(d, module + ".tla"), "w") as f:
            f.write(text)
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg)
        for n, c in (files or {}).items():
            with open(os.path.join(d, n), "w") as f:
                f.write(c)
        for n in os.listdir(SPECS):
            if n.endswith(".tla"):
                shutil.copy(os.path.join(SPECS, n), os.path.join(d, n))
        cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC",
               "-XX:ParallelGCThreads=4", "-XX:TieredStopAtLevel=4",
               "-Djava.io.tmpdir=" + d,
               "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-checkpoint", "0",
               "-config", module + ".cfg"]
        if simulate:
            cmd += ["-simulate"] + simulate
        cmd.append(module + ".tla")
        p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True,
                             encoding="utf-8", errors="replace")
        import threading
        killed = []

        def kill():
            killed.append(1)
            p.kill()
        timer = threading.Timer(timeout, kill)
        timer.start()
        keep = []
        try:
            for line in p.stdout:
                if line.startswith('"@@'):
                    rec = json.loads(unquote(line.rstrip("\n"))[2:])
                    if emit is not None:
                        emit(rec)
                else:
                    keep.append(line)
            rc = p.wait()
        finally:
            timer.cancel()
            if p.poll() is None:
                p.kill()
                p.wait()
        out = "".join(keep)
        if killed:
            raise MachineryError("TLC timed out on %s" % module)
        r = TLCResult(out, rc)
        if rc != 0:
            tail = "".join(x for x in keep if not x.startswith(
                ("Parsing file", "Semantic processing", "Linting of")))
            if re.search(r"Invariant \S+ is violated|property \S+ (is|was) violated|"
                         r"Action property|Temporal properties were violated", out):
                raise SpecViolation(tail[:12000])
            raise MachineryError("TLC failed (%d) on %s:\n%s" % (rc, module, tail[:12000]))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


_unq = {"n": "\n", "t": "\t", "r": "\r", "f": "\f", '"': '"', "\\": "\\"}


def unquote(s):
    """Undo TLC's printing of a string value."""
    assert s[0] == '"' and s[-1] == '"', s[:200]
    return re.sub(r'\\(.)', lambda m: _unq.get(m.group(1), m.group(1)), s[1:-1])


def cfg(constants=None, invariants=(), properties=(), view=None, constraint=None,
        action_constraint=None, init="Init", next="Next", overrides=None):
    L = ["INIT " + init, "NEXT " + next, "CHECK_DEADLOCK FALSE"]
    for k, v in (constants or {}).items():
        L.append("CONSTANT %s = %s" % (k, v))
    for k, v in (overrides or {}).items():
        L.append("CONSTANT %s <- %s" % (k, v))
    for i in invariants:
        L.append("INVARIANT " + i)
    for p in properties:
        L.append("PROPERTY " + p)
    if view:
        L.append("VIEW " + view)
    if constraint:
        L.append("CONSTRAINT " + constraint)
    if action_constraint:
        L.append("ACTION_CONSTRAINT " + action_constraint)
    return "\n".join(L) + "\n"
