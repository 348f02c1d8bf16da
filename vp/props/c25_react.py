"""Running a reactor for a while against specs/React.tla."""
import gc
import queue
import threading

from twisted.internet.base import ReactorBase
from twisted.internet.defer import CancelledError, Deferred, fail, succeed
from twisted.internet.error import ReactorNotRunning
from twisted.python import log

from epsilon.react import react
from vp.bind import Binding


class Boom(Exception):
    pass


class Quiet(Exception):
    """One which is as good as nothing."""
    def __len__(self):
        return 0


# The ways in which main fails.
FAULTS = [Boom, Boom, SystemExit, KeyboardInterrupt, GeneratorExit, CancelledError, ReactorNotRunning,
          StopIteration, Quiet, AttributeError, MemoryError]
RAISED = [Boom, SystemExit, KeyboardInterrupt, ReactorNotRunning, Quiet, TypeError]


class Turns(ReactorBase):
    """A reactor whose turns are given to it, from another thread."""
    def __init__(self, script):
        self.script = script
        ReactorBase.__init__(self)

    def installWaker(self):
        pass

    def wakeUp(self):
        pass

    def removeAll(self):
        return []

    def removeReader(self, r):
        pass

    def run(self, *a, **kw):
        kw["installSignalHandlers"] = False
        return ReactorBase.run(self, **kw)

    def doIteration(self, timeout):
        if self._started:
            self.script.turn()


class Adapter(object):
    faults = 0
    thrown = None

    def __init__(self, init):
        self.todo, self.done = queue.Queue(), queue.Queue()
        self.events = []
        self.thread = None
        self.reactor = None
        self.holds = []
        self.held = 0

    # in the reactor's thread

    def turn(self):
        self.done.put("turn")
        acts = self.todo.get()
        if acts is None:
            self.reactor.crash()
            return
        self.acts(acts)

    def acts(self, acts):
        for a in acts:
            try:
                self.act(a)
            except Exception as e:
                self.events.append(["raised by", a, type(e).__name__])

    def act(self, a):
        if a in ("ok", "fail", "half"):
            d = self.inner if self.d.called else self.d
            if d.called:
                return
            if a == "half":
                if d is self.d:
                    d.callback("half")
            elif a == "ok":
                if d is self.d:
                    self.inner = succeed(None)
                d.callback("result")
            else:
                if d is self.d:
                    self.inner = d
                d.errback(self.fault(FAULTS))
        elif a == "stop":
            try:
                self.reactor.stop()
            except ReactorNotRunning:
                self.events.append("refused")
        elif a == "hold":
            d = Deferred()
            self.holds.append(d)
            self.reactor.addSystemEventTrigger("before", "shutdown", lambda: d)
        elif a == "release":
            if self.holds:
                self.holds.pop(0).callback(None)

    def fault(self, kinds):
        Adapter.faults += 1
        self.thrown = kinds[self.faults % len(kinds)]()
        return self.thrown

    def run(self, e):
        self.d, self.inner = Deferred(), Deferred()
        argv = [object() for _ in range(e["argv"])]

        def main(*args, **kw):
            ok = args == tuple([self.reactor] + argv) and not kw
            self.events.append(["called", e["argv"] if ok else "wrongly"])
            self.acts(e["early"])
            self.reactor.callWhenRunning(self.events.append, "running")
            for a in e["first"]:
                self.reactor.callWhenRunning(self.acts, [a])
            k = e["main"]
            if k == "raise":
                raise self.fault(RAISED)
            elif k == "ok":
                self.d = self.inner = succeed("result")
            elif k == "fail":
                self.d = self.inner = fail(self.fault(FAULTS))
            else:
                self.d.addCallback(lambda r: self.inner)
            return self.d
        try:
            try:
                r = react(self.reactor, main, argv)
                self.events.append("returned" if r is None else "returned something")
            except BaseException as x:
                self.events.append("raised") if x is self.thrown else self.events.append(["react raised", type(x).__name__])
            del main
        finally:
            self.done.put("over")

    # in the main thread

    def observe(self, ev):
        if ev["isError"]:
            f = ev.get("failure")
            if f is not None and f.value is self.thrown:
                self.events.append("logged")
            else:
                self.events.append(["logged", f and f.type.__name__])

    def do(self, e):
        self.events = []
        log.addObserver(self.observe)
        try:
            if e["op"] == "react":
                self.reactor = Turns(self)
                self.thread = threading.Thread(target=self.run, args=(e,), daemon=True)
                self.thread.start()
            else:
                self.todo.put(e["acts"])
            try:
                how = self.done.get(timeout=5)
            except queue.Empty:
                return ["stuck"]
            if how == "over":
                self.thread.join()
                self.thread = self.d = self.inner = None
                gc.collect()        # an error nobody handled is logged now
        finally:
            log.removeObserver(self.observe)
        return self.events

    def close(self):
        if self.thread is not None:
            self.todo.put(None)
            self.thread.join(5)


ACTS = ["ok", "fail", "half", "stop", "hold", "release"]


def generate(rng):
    def acts(n):
        return [rng.choice(ACTS[:5] + ["hold", "release", "release"]) for _ in range(rng.randrange(n))]

    def gen():
        out = yield {"op": "react", "main": rng.choice(["wait", "wait", "wait", "ok", "fail", "raise"]),
                     "argv": rng.randrange(4), "early": ["hold"] * rng.randrange(3), "first": acts(4)}
        while not ("returned" in out or "raised" in out or "stuck" in out or "unexpected" in out
                   or any(isinstance(x, list) and x[0] == "react raised" for x in out)):
            out = yield {"op": "turn", "acts": acts(5)}
    return None, gen()


def check(run):
    gc.collect()
    gc.freeze()
    b = Binding(run, "React", Adapter)
    one = [[a] for a in ACTS]
    two = [[a, c] for a in ACTS for c in ACTS] if run.thorough else [
        ["stop", "ok"], ["ok", "stop"], ["stop", "fail"], ["half", "stop"], ["half", "fail"],
        ["half", "ok"], ["stop", "stop"], ["stop", "hold"], ["hold", "stop"], ["hold", "ok"],
        ["release", "ok"], ["ok", "fail"]]
    from vp.bind import tla
    turns = "{<<>>, %s}" % ", ".join(tla(x) for x in one + two)
    b.cover(dict(Mains='{"wait", "ok", "fail", "raise"}', Turns=turns, Argvs="{0, 2}",
                 MaxTurns=run.pick("2", "3")),
            ("RunsWhilePending", "EndsWhenOver", "HeldOnly"), ("StaysDone", "NoRestart"))
    b.histories(dict(Mains="{}", Turns="{}", Argvs="{}", MaxTurns="999"), generate, run.pick(200, 4000))
