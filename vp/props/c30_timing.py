"""Measuring a child process against specs/Timing.tla."""
import contextlib
import io
import os
import shutil
import signal
import tempfile
import time

from twisted.internet import defer, error, task
from twisted.python import filepath, log
from twisted.python.failure import Failure

from epsilon import juice
from vp.bind import Binding, tla
from vp.bench import benchmark


class Transport(object):
    def __init__(self, adapter):
        self.adapter = adapter

    def signalProcess(self, what):
        # as Twisted's own: some names, else a number
        if what == signal.SIGQUIT:
            what = "QUIT"
        elif what not in ("HUP", "STOP", "INT", "KILL", "TERM"):
            int.__index__(what)
        self.adapter.events.append([what, 0])

    def writeToChild(self, fd, data):
        if fd != benchmark.BasicProcess.BACKCHANNEL_IN or not isinstance(data, bytes):
            self.adapter.events.append(["wrote", fd, repr(data)])
        for b in bytearray(data):
            self.adapter.events.append(["answer", b])
            self.adapter.answered(b)
            # the child goes on at once
            self.adapter.grow(self.adapter.eager)
            self.adapter.idle = CLOCK.now


class Clock(object):
    """The time as the code under test sees it: it passes as the directory grows
    and, some of it, whenever something is measured."""
    now = 1000.0
    NAMES = "time", "monotonic", "perf_counter"

    def time(self):
        return self.now

    def slow(self, f, by):
        def slow(*a, **kw):
            self.now += by
            try:
                return f(*a, **kw)
            finally:
                self.now += by
        return slow

    def __enter__(self):
        real = [getattr(time, n) for n in self.NAMES]
        self.old = [(time, n, r) for n, r in zip(self.NAMES, real)]
        self.old += [(benchmark, n, v) for n, v in vars(benchmark).items() if any(v is r for r in real)]
        new = [self.time for _ in self.old]
        for n, by in (("getSize", 7), ("captureStats", 11)):
            f = getattr(benchmark, n, None)
            if f is not None:
                self.old.append((benchmark, n, f))
                new.append(self.slow(f, by))
        for (o, n, _), v in zip(self.old, new):
            setattr(o, n, v)

    def __exit__(self, *a):
        for o, n, v in self.old:
            setattr(o, n, v)


CLOCK = Clock()


class Reactor(object):
    def run(self):
        pass

    stop = run


def measure(name, path, spawn):
    """What main does once it has a directory and a program to run."""
    inner = getattr(benchmark, "_bench", None)
    if inner is not None:
        inner(name, path, spawn).addErrback(lambda f: None)
        return
    old = benchmark.reactor, log.startLogging
    benchmark.reactor, log.startLogging = Reactor(), lambda *a, **kw: None
    try:
        benchmark.bench(name, path, spawn)
    finally:
        benchmark.reactor, log.startLogging = old


class Adapter(object):
    def __init__(self, init):
        self.dir = tempfile.mkdtemp(prefix="vp-timing-")
        self.work = os.path.join(self.dir, "work")
        self.out = os.path.join(self.dir, "out")
        os.mkdir(self.work)
        os.mkdir(self.out)
        self.size = 0
        self.idle = self.t0 = CLOCK.now
        self.grow(0)
        self.clock = clock = task.Clock()
        self.times = {}
        self.eager = 0

        class Process(benchmark.BenchmarkProcess):
            def callLater(self, *a, **kw):
                return clock.callLater(*a, **kw)
        self.cls = Process
        self.proto = None

    def answered(self, b):
        # what is measured is what happens from the answer to start to the next stop
        self.times[b] = [CLOCK.now, self.idle][b]

    def grow(self, by):
        self.size += by
        CLOCK.now += by
        with open(os.path.join(self.work, "f"), "ab") as f:
            f.truncate(self.size)

    def spawn(self, proto, *a, **kw):
        self.proto = proto
        self.t0 = CLOCK.now
        proto.makeConnection(Transport(self))

    def do(self, e):
        self.events = []
        if e["op"] == "child":
            return self.child(e["says"], e["reply"])
        with CLOCK:
            self.idle = CLOCK.now
            self.step(e)
        return self.events

    def step(self, e):
        k = e["op"]
        if k == "spawn":
            measure(u"b", filepath.FilePath(self.work), lambda: self.cls.spawn(
                "program", [], self.work, {}, self.spawn))
        elif k == "grow":
            self.grow(e["by"])
        elif k == "back":
            self.eager = e["by"]
            self.proto.childDataReceived(self.proto.BACKCHANNEL_OUT, bytes(bytearray(e["bytes"])))
        elif k == "out":
            self.proto.childDataReceived(1, b"\0\1 output")
        elif k == "err":
            if e["what"] == "data":
                self.proto.childDataReceived(2, b"complaint")
            else:
                self.proto.childConnectionLost(2)
        elif k == "end":
            self.end(e)

    def end(self, e):
        if e["how"] == "done":
            r = error.ProcessDone(e["st"])
        else:
            r = error.ProcessTerminated(exitCode=1, status=256)
            if e["how"] == "silent":
                self.clock.advance(1000)
                self.events = [x for x in self.events if x != ["KILL", 0]]
        here = os.getcwd()
        os.chdir(self.out)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                self.proto.processEnded(Failure(r))
        finally:
            os.chdir(here)
        out = os.path.join(self.out, "output")
        if not os.path.exists(out):
            return
        spans = {"b-overall": (self.t0, self.idle),
                 "b-benchmark": (self.times.get(0), self.times.get(1))}
        with open(out, "rb") as f:
            data = f.read()
        for box in boxes(data):
            name = box["name"]
            self.events.append([name[1:], {"True": True, "False": False}[box["error"]],
                                int(box["filesystem_growth"])])
            a, b = spans[name]
            # the time measured is that between the two moments, whole by this clock, if it is the one used
            took = float(box["elapsed"])
            if took == int(took) and took != b - a:
                self.events.append([name, "took", took, "not", b - a])
            if box["timeout"] != "False" or box["version"] != "0" or box["_command"] != "Result":
                self.events.append([name, dict(box)])

    def child(self, says, reply):
        """start() or stop() in a child process whose parent replies so."""
        ro, wo = os.pipe()
        ri, wi = os.pipe()
        B = benchmark.BenchmarkProcess
        old = B.BACKCHANNEL_OUT, B.BACKCHANNEL_IN
        try:
            B.BACKCHANNEL_OUT, B.BACKCHANNEL_IN = wo, ri
            if reply < 256:
                os.write(wi, bytes(bytearray([reply])))
            os.close(wi)
            try:
                [benchmark.start, benchmark.stop][says]()
                r = "ok"
            except RuntimeError:
                r = "RuntimeError"
            os.close(wo)
            wo = None
            said = os.read(ro, 10)
            return [said[0] if len(said) == 1 else repr(said), r]
        finally:
            B.BACKCHANNEL_OUT, B.BACKCHANNEL_IN = old
            for fd in (ro, ri, wo):
                if fd is not None:
                    os.close(fd)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def boxes(data):
    """The boxes of a report, read by juice itself."""
    got = []

    class Reader(juice.Juice):
        def juiceBoxReceived(self, box):
            got.append(box)
    from twisted.test.proto_helpers import StringTransport
    r = Reader(issueGreeting=False)
    r.makeConnection(StringTransport())
    r.dataReceived(data)
    return got


def generate(rng):
    def gen():
        if rng.random() < .1:
            for _ in range(4):
                yield {"op": "child", "says": rng.randrange(2), "reply": rng.choice([0, 1, 256, rng.randrange(256)])}
            return
        if rng.random() < .5:
            yield {"op": "grow", "by": rng.randrange(1000)}
        yield {"op": "spawn"}
        todo = [[0], [1]] if rng.random() < .6 else [[rng.choice([0, 1, 0, 1, 2, 48, 49, 255])
                                                      for _ in range(rng.randrange(4))]
                                                     for _ in range(rng.randrange(4))]
        for c in todo + [None]:
            for _ in range(rng.randrange(3)):
                k = rng.random()
                if k < .8:
                    yield {"op": "grow", "by": rng.randrange(100000)}
                elif k < .9:
                    yield {"op": "out"}
                else:
                    yield {"op": "err", "what": rng.choice(["data", "closed"])}
            if c is not None:
                yield {"op": "back", "bytes": c, "by": rng.choice([0, rng.randrange(100000)])}
        if rng.random() < .8:
            yield {"op": "err", "what": "closed"}
        how = rng.choice(["done", "done", "done", "done", "died", "silent"])
        yield {"op": "end", "how": how, "st": rng.choice([0, 0, 0, 1]) if how == "done" else 0}
    return None, gen()


def check(run):
    b = Binding(run, "Timing", Adapter)
    chunks = [[0], [1], [0, 1], [1, 0], [2], []] if run.thorough else [[0], [1], [0, 1], [2]]
    b.cover(dict(Chunks="{%s}" % ", ".join(tla(c) for c in chunks), Growths="{10}", MaxEvents=run.pick("4", "5")),
            ("Within",), ("Clean",), cap=12)
    b.histories(dict(Chunks="{}", Growths="{}", MaxEvents="0"), generate, run.pick(300, 5000))
