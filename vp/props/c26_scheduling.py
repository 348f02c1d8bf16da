"""Scheduling services against specs/Scheduling.tla."""
from twisted.internet import defer, reactor
from twisted.python.failure import Failure

from epsilon.cooperator import SchedulerStopped, SchedulingService, iterateInReactor
from vp.bind import Binding, tla


class Boom(Exception):
    pass


class Call(object):
    def __init__(self, f, a, kw):
        self.f, self.a, self.kw = f, a, kw
        self.live = True

    def cancel(self):
        self.live = False

    def active(self):
        return self.live


class Adapter(object):
    def __init__(self, init):
        self.kind = (init[0] if isinstance(init, list) else init["kind"])
        self.calls = []
        self.events = []
        self.waits = {}
        self.ready = set()
        self.n = 0
        had = "callLater" in reactor.__dict__
        old = reactor.callLater
        reactor.callLater = self.callLater

        def restore():
            if had:
                reactor.callLater = old
            else:
                del reactor.callLater
        self.restore = restore
        if self.kind == "service":
            self.service = SchedulingService()
            self.begin = self.service.addIterator
        else:
            self.begin = iterateInReactor

    def callLater(self, delay, f, *a, **kw):
        c = Call(f, a, kw)
        self.calls.append(c)
        return c

    def add(self, script):
        self.n += 1
        i = self.n

        def job():
            for k, x in enumerate(script):
                self.events.append([i, "step", k + 1])
                if x == "wait":
                    d = self.waits[i] = defer.Deferred()
                    self.ready.discard(i)
                    yield d
                elif x == "fail":
                    raise Boom()
                else:
                    if x == "add":
                        self.add(["item"])
                    yield None
        it = job()
        self.ready.add(i)

        def over(r):
            self.ready.discard(i)
            if r is it:
                self.events.append([i, "done", 0])
            elif isinstance(r, Failure) and r.check(Boom):
                self.events.append([i, "failed", 0])
            elif isinstance(r, Failure) and r.check(SchedulerStopped):
                self.events.append([i, "stopped", 0])
            else:
                self.events.append([i, repr(r), 0])
        self.begin(it).addBoth(over)

    def flag(self):
        return "running" if self.service.running else "not running"

    def do(self, e):
        self.events = []
        k = e["op"]
        if k == "start":
            self.service.startService()
            return [self.flag()] + self.events
        elif k == "stop":
            ready = sorted(self.ready)
            self.service.stopService()
            self.ready.clear()
            heard = [x[0] for x in self.events if x[1] == "stopped"]
            if len(heard) != len(self.events) or not set(heard) <= set(ready) or (ready and not heard):
                return [self.events, self.flag()]
            return [["none", "stopped"][len(ready)] if len(ready) < 2 else "several", self.flag()]
        elif k == "add":
            self.add(e["script"])
        elif k == "work":
            for _ in range(10000):
                if not self.calls:
                    break
                c = self.calls.pop(0)
                if c.live:
                    c.live = False
                    c.f(*c.a, **c.kw)
            else:
                return ["endless"]
            self.events.sort(key=lambda x: x[0])     # each job's own events keep their order
        elif e["i"] in self.waits:
            d = self.waits.pop(e["i"])
            self.ready.add(e["i"])
            if k == "release":
                d.callback(None)
            else:
                d.errback(Boom())
        return self.events

    def close(self):
        # leave nothing in the global cooperator
        for _ in range(10000):
            for d in list(self.waits.values()):
                d.errback(Boom())
            self.waits.clear()
            if not self.calls:
                break
            c = self.calls.pop(0)
            if c.live:
                c.f(*c.a, **c.kw)
        self.restore()


def generate(rng):
    kind = rng.choice(["service", "service", "reactor"])

    def gen():
        on = False
        n = 0
        ended = False
        for _ in range(40):
            k = rng.random()
            if k < .08 and kind == "service" and not ended:
                on = not on
                out = yield {"op": "start" if on else "stop"}
                if isinstance(out, list) and out[:1] == ["several"]:
                    ended = True
            elif k < .4:
                script = [rng.choice(["item", "item", "wait", "add"]) for _ in range(rng.randrange(6))]
                if rng.random() < .2:
                    script.append("fail")
                n += 1 + script.count("add")
                yield {"op": "add", "script": script}
            elif k < .6:
                yield {"op": "work"}
            else:
                yield {"op": rng.choice(["release", "release", "release", "refuse"]),
                       "i": rng.randrange(1, n + 2)}
    return {"kind": kind}, gen()


def check(run):
    b = Binding(run, "Scheduling", Adapter)
    b.together = False      # they share what is one per process
    scripts = [[], ["item"], ["wait", "item"], ["fail"], ["add", "wait", "wait"], ["wait"]]
    b.cover(dict(Kinds='{"service", "reactor"}', Scripts="{%s}" % ", ".join(tla(s) for s in scripts),
                 MaxJobs=run.pick("2", "3")),
            ("NewRests",), ("Rests", "Over"))
    b.histories(dict(Kinds="{}", Scripts="{}", MaxJobs="0"), generate, run.pick(200, 4000))
