"""Watching a child process against specs/Child.tla."""
import copy
import os
import shutil
import tempfile

from twisted.internet import error, task
from twisted.python.failure import Failure

from vp.bind import Binding
from vp.bench import benchmark

UNIT = 300.0
ENVS = {"none": None, "empty": {}, "one": {"k": "v"}, "blank": {"k": "", "": "v"}}


class Other(Exception):
    pass


class Transport(object):
    def __init__(self, adapter):
        self.adapter = adapter

    def signalProcess(self, what):
        self.adapter.events.append([what])
        if what == "KILL" and self.adapter.quick:
            self.adapter.end("signal", 9)

    def writeToChild(self, fd, data):
        pass


class Adapter(object):
    def __init__(self, init):
        if isinstance(init, list):
            self.kind, self.quick = init[0], init[1]
        else:
            self.kind, self.quick = init["kind"], init["quick"]
        self.clock = task.Clock()
        self.events = []
        self.dir = tempfile.mkdtemp(prefix="vp-child-")
        base = benchmark.BasicProcess if self.kind == "basic" else benchmark.BenchmarkProcess
        clock = self.clock

        class Process(base):
            def callLater(self, *a, **kw):
                return clock.callLater(*a, **kw)
        self.cls = Process

    def spawn(self, proto, executable, args, path=None, env=None, childFDs=None):
        self.proto = proto
        named = [n for n, v in sorted(ENVS.items()) if v == env and type(v) is type(env)]
        self.events.append(["spawned", args[1:], "p" if path == self.dir else path, (named or [str(env)])[0]])
        if (executable, args[0]) != ("program", "program"):
            self.events.append(["badly", executable, args, env])
        if [childFDs.get(i) for i in range(5)] != ["w", "r", "r", "r", "w"]:
            self.events.append(["badly", sorted(childFDs.items())])
        proto.makeConnection(Transport(self))

    def end(self, how, st):
        if how == "done":
            r = error.ProcessDone(0)
        elif how == "exit":
            r = error.ProcessTerminated(exitCode=st, status=st << 8)
        elif how == "signal":
            r = error.ProcessTerminated(signal=st, status=st)
        else:
            r = Other()
        try:
            self.proto.processEnded(Failure(r))
        except OSError:
            pass        # whoever spawned it has to hear of it all the same

    def told(self, r):
        def out(o):
            return [[fd, 0 if data is None else int(data)] for (fd, data) in o]
        if not isinstance(r, Failure):
            proto, status, output = r
            self.events.append(["done" if proto is self.proto else "wrong", status, out(output)])
        elif r.check(error.TimeoutError):
            self.events.append(["timeout", 0, []])
        elif r.check(benchmark.ProcessDied):
            v = r.value
            if v.signal is not None and v.exitCode is None and v.status == v.signal:
                self.events.append(["signal", v.signal, out(v.output)])
            elif v.signal is None and v.status == v.exitCode << 8:
                self.events.append(["exit", v.exitCode, out(v.output)])
            else:
                self.events.append(["died", [v.exitCode, v.signal, v.status]])
        elif r.check(OSError):
            self.events.append(["unmeasured", 0, []])
        elif r.check(Other):
            self.events.append(["other", 0, []])
        else:
            self.events.append([r.type.__name__])

    def do(self, e):
        self.events = []
        k = e["op"]
        if k == "spawn":
            self.cls.spawn("program", list(e["args"]), self.dir, copy.copy(ENVS[e["env"]]), self.spawn).addBoth(self.told)
        elif k == "data":
            if self.kind == "benchmark" and e["fd"] == 3:
                # a start and stop of timing, and so on: C30 is about it
                try:
                    self.proto.childDataReceived(3, [b"\0", b"\1"][e["n"] % 2])
                except OSError:
                    if os.path.exists(self.dir):
                        raise
                self.events = [x for x in self.events if x != ["QUIT"]]
            else:
                self.proto.childDataReceived(e["fd"], b"%d" % e["n"])
        elif k == "closed":
            self.proto.childConnectionLost(e["fd"])
        elif k in ("pass", "after"):
            self.clock.advance(e["n"] * UNIT)
            if k == "after" and self.clock.getDelayedCalls():
                self.events.append(["timer left"])
        elif k == "vanish":
            os.rmdir(self.dir)
        elif k == "end":
            self.end(e["how"], e["st"])
        return self.events

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def generate(rng):
    kind, quick = rng.choice(["basic", "benchmark"]), rng.random() < .5

    def gen():
        yield {"op": "spawn", "args": [rng.choice(["a", "-W", "b c"]) for _ in range(rng.randrange(4))],
               "path": "p", "env": rng.choice(sorted(ENVS))}
        n = 0
        silent = 0
        killed = gone = False
        for _ in range(rng.randrange(1, 40)):
            k = rng.random()
            if k < .35:
                n += 1
                yield {"op": "data", "fd": rng.choice([1, 2, 3]), "n": n}
                silent = 0
            elif k < .5:
                yield {"op": "closed", "fd": rng.choice([0, 1, 2, 3, 4])}
                silent = 0
            elif k < .52 and not gone:
                gone = True
                yield {"op": "vanish"}
            elif k < .95:
                d = rng.choice([1, 1, 2, 2, 3]) if rng.random() < .3 else 1
                silent += d
                yield {"op": "pass", "n": d}
                if silent >= 3 and not killed:
                    killed = True
                    if quick:
                        break
            else:
                break
        if not (killed and quick):
            how = rng.choice(["done", "exit", "signal", "other"])
            yield {"op": "end", "how": how, "st": 0 if how in ("done", "other") else rng.randrange(1, 200)}
        yield {"op": "after", "n": 3}
    return {"kind": kind, "quick": quick}, gen()


def check(run):
    b = Binding(run, "Child", Adapter)
    b.cover(dict(Kinds='{"basic", "benchmark"}', Fds=run.pick("{1, 3}", "{1, 2, 3}"), Periods=run.pick("{1, 3}", "{1, 2, 3}"),
                 Limit="3", MaxEvents=run.pick("2", "3")),
            ("Silence",), ("KilledForSilence", "NoMore"))
    b.histories(dict(Kinds="{}", Fds="{}", Periods="{}", Limit="3", MaxEvents="0"), generate,
                run.pick(300, 6000))
