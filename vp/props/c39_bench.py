"""The benchmark command against specs/Bench.tla."""
import json
import os
import shutil
import sys
import tempfile
import time

from twisted.internet import selectreactor

from vp import env
from vp.bind import Binding, tla

if "twisted.internet.reactor" not in sys.modules:
    selectreactor.install()     # one of which a process can fork

from vp.bench import benchmark  # noqa
from vp.props.c30_timing import boxes  # noqa

SCRIPT = """
import sys
acts = %(acts)r
if %(real)r:
    sys.path.insert(0, %(verif)r)
    from vp import env
    env._scratch = %(scratch)r
    env.setup()
    from vp.bench import benchmark
    start, stop = benchmark.start, benchmark.stop
else:
    def start(b=b"\\0"):
        os.write(3, b)
        assert os.read(4, 1) == b
    def stop():
        start(b"\\1")
import os, signal
signal.signal(signal.SIGQUIT, signal.SIG_DFL)
with open(os.environ["VP_SAW"], "w") as f:
    f.write(repr([sys.argv[1:], sorted(os.listdir(".")), os.environ.get("VP_MARK")]))
open("f", "w").close()
for a in acts:
    do = a["do"]
    if do == "grow":
        with open("f", "ab") as f:
            f.write(b"x" * a["n"])
    elif do == "empty":
        open("f", "w").close()
    elif do == "start":
        start()
    elif do == "stop":
        stop()
    elif do == "complain":
        sys.stderr.write(a["what"])
        sys.stderr.flush()
    elif do == "say":
        sys.stdout.write("\\0\\1")
        sys.stdout.flush()
    elif do == "exit":
        os._exit(3)
    elif do == "raise":
        1 / 0
    elif do == "kill":
        os.kill(os.getpid(), signal.SIGKILL)
    elif do == "odd":
        os.write(3, b"\\2")
        signal.pause()
os._exit(0)
"""


class Adapter(object):
    def __init__(self, init):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="vp-bench-"))
        for d in ("here", "scratch", "probe"):
            os.mkdir(self.path(d))
        self.here = self.path("here")
        # a directory may itself grow with what is in it
        empty = os.path.getsize(self.path("probe"))
        open(self.path("probe", "f"), "w").close()
        self.slack = os.path.getsize(self.path("probe")) - empty

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def main(self, argv, mark, saw):
        """The command, in a process of its own: its status."""
        pid = os.fork()
        if pid:
            for _ in range(6000):
                p, status = os.waitpid(pid, os.WNOHANG)
                if p:
                    return status
                time.sleep(.01)
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            return "no end"
        status = 99
        try:
            import signal
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.chdir(self.here)
            nowhere = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(nowhere, fd)
            for k in list(os.environ):
                if k.startswith("PYTHON"):
                    del os.environ[k]
            os.environ.update(VP_SAW=saw, VP_MARK=mark, VERIF_REPO=env.REPO, TMPDIR=self.path("scratch"))
            sys.argv[:] = ["benchmark"] + argv
            sys.stdout = open(os.devnull, "w")
            try:
                benchmark.main()
                status = 0
            except SystemExit as e:
                status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        finally:
            os._exit(status)

    def do(self, e):
        given = e["script"] if e["near"] else self.path(e["script"])
        at = os.path.join(self.here, given)
        with open(at, "w") as f:
            f.write(SCRIPT % dict(verif=env.VERIF, scratch=self.path("scratch"), acts=e["acts"],
                                  real=bool(e.get("real"))))
        saw = self.path("saw")
        if os.path.exists(saw):
            os.remove(saw)
        status = self.main([given] + e["args"], e["mark"], saw)
        seen = "not run"
        if os.path.exists(saw):
            with open(saw) as f:
                seen = eval(f.read())
        os.remove(at)
        left = sorted(n for n in os.listdir(self.here) if n != "output")
        got = b""
        if os.path.exists(os.path.join(self.here, "output")):
            with open(os.path.join(self.here, "output"), "rb") as f:
                got = f.read()
        records = []
        for box in boxes(got):
            n, _, what = box["name"].rpartition("-")
            growth = int(box["filesystem_growth"])
            if what == "overall":
                growth -= self.slack
            records.append([os.path.basename(n), what, box["error"] != "False", growth])
        if status:
            left.append("status %s" % status)
        return [records, seen, left]


ACTS = [{"do": "grow", "n": 10}, {"do": "start"}, {"do": "stop"}, {"do": "complain", "what": "complaint"}, {"do": "say"}, {"do": "exit"},
        {"do": "raise"}, {"do": "kill"}, {"do": "odd"}, {"do": "empty"}]
COMPLAINTS = [{"do": "complain", "what": w} for w in ("complaint", "\n", " ", "\0", "DeprecationWarning: x\n", "\t\n\n")]


def generate(rng):
    def gen():
        for i in range(rng.choice([1, 2, 2, 3])):
            if rng.random() < .6:
                acts = [{"do": "start"}, {"do": "stop"}]
            else:
                acts = [{"do": rng.choice(["start", "stop"])} for _ in range(rng.randrange(4))]
            for _ in range(rng.randrange(5)):
                acts.insert(rng.randrange(len(acts) + 1), {"do": "grow", "n": rng.randrange(1, 20000)})
            for _ in range(rng.choice([0, 0, 1])):
                acts.insert(rng.randrange(len(acts) + 1), rng.choice(ACTS + COMPLAINTS))
            yield {"op": "run", "script": "b%d.py" % rng.randrange(3), "acts": acts,
                   "args": [rng.choice(["a", "-v", "b c", "", "--", "-m", "s0.py"]) for _ in range(rng.randrange(3))],
                   "mark": rng.choice(["", "x", "a b"]), "near": rng.random() < .5, "real": rng.random() < .1}
    return None, gen()


def check(run):
    b = Binding(run, "Bench", Adapter)
    b.together = False      # they share what is one per process
    g, start, stop, complain, say, exit_, raise_, kill, odd, empty = ACTS
    scripts = [[g, start, g, stop, g], [kill], [start, g, complain, stop]]
    if run.thorough:
        scripts += [[], [raise_], [odd], [g, exit_], [stop, g, start, say], [g, start, stop, g, start, empty, stop]]
    b.cover(dict(Scripts=tla(scripts), Args=run.pick("{<<\"-x\", \"y z\">>}", "{<<>>, <<\"-x\", \"y z\">>}"), MaxRuns="2"), (), ("Kept",))
    b.histories(dict(Scripts="<<>>", Args="{}", MaxRuns="0"), generate, run.pick(25, 1500))
