"""Events many may wait for against specs/Pending.tla."""
from twisted.python.failure import Failure

from epsilon.pending import PendingEvent
from twisted.internet.defer import CancelledError
from vp.bind import Binding


class Boom(Exception):
    pass


class Falsy(Boom):
    """An exception which is false and equal to everything."""
    def __len__(self):
        return 0

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False
    __hash__ = None


class Adapter(object):
    def __init__(self, init):
        self.event = PendingEvent()
        self.n = 0
        self.events = []
        self.results = {"result": object(), "none": None, "zero": 0, "falsy": Falsy("x"),
                        "failed": Failure(Boom("failed"))}
        self.failures = {"failure": Failure(Boom("failure")), "exception": Boom("exception"),
                         "strange": Falsy("strange")}
        self.waiting = {}

    def wait(self, react):
        self.n += 1
        i = self.n

        def told(r):
            if isinstance(r, Failure) and r.check(CancelledError):
                what = "cancelled"
            elif r is self.sent:
                what = self.what
            elif r is self:
                what = "nested"
            elif isinstance(r, Failure) and r.check(Boom):
                what = str(r.value)
            else:
                what = repr(r)
            self.events.append(["told", i, what])
            self.waiting.pop(i)
            if react == "again":
                self.wait("no")
            elif react == "fire":
                self.event.callback(self)
            elif react == "cancel":
                if i + 1 in self.waiting:
                    self.waiting[i + 1].cancel()
            elif react == "raise":
                raise Boom("listener")
        d = self.waiting[i] = self.event.deferred()
        d.addBoth(told)
        d.addErrback(lambda f: f.trap(Boom) and None)

    def do(self, e):
        self.events = []
        self.sent = self.events     # not a result
        k = e["op"]
        if k == "wait":
            self.wait(e["react"])
        elif k == "callback":
            self.what, self.sent = e["what"], self.results[e["what"]]
            self.event.callback(self.sent)
        elif k == "errback":
            self.what, self.sent = e["what"], self.failures[e["what"]]
            self.event.errback(self.sent)
        elif k == "cancel":
            self.waiting[e["i"]].cancel()
        elif k == "errnow":
            try:
                raise Boom("current")
            except Boom:
                self.event.errback()
        else:
            try:
                self.event.errback()
            except Exception:
                return ["no exception"]
        return self.events


RESULTS = ["result", "none", "zero", "falsy", "failed"]
FAILURES = ["failure", "exception", "strange"]
REACTS = ["no", "again", "fire", "raise", "cancel"]


def generate(rng):
    def gen():
        reacts = {}     # of those who wait
        n = 0
        for _ in range(40):
            if rng.random() < .7:
                n += 1
                reacts[n] = rng.choice(["no"] + REACTS)
                yield {"op": "wait", "react": reacts[n]}
                continue
            k = rng.choice(["callback", "callback", "errback", "errnow", "errnone", "cancel"])
            e = {"op": k}
            if k == "callback":
                e["what"] = rng.choice(RESULTS)
            elif k == "errback":
                e["what"] = rng.choice(FAILURES)
            elif k == "cancel":
                if not reacts:
                    continue
                e["i"] = rng.choice(sorted(reacts))
            out = yield e
            if not isinstance(out, list):
                return
            for o in out:
                if isinstance(o, list) and reacts.pop(o[1], "no") == "again":
                    n += 1
                    reacts[n] = "no"
        yield {"op": "callback", "what": "result"}
    return None, gen()


def check(run):
    b = Binding(run, "Pending", Adapter)
    q = lambda xs: "{%s}" % ", ".join('"%s"' % x for x in xs)
    b.cover(dict(MaxListeners=run.pick("3", "4"), Reacts=q(REACTS), Results='{"result"}', Failures='{"failure"}'),
            ("Distinct",), ("Once",))
    b.cover(dict(MaxListeners="2", Reacts='{"no", "again"}', Results=q(RESULTS), Failures=q(FAILURES)),
            ("Distinct",), ("Once",))
    b.histories(dict(MaxListeners="99", Reacts="{}", Results="{}", Failures="{}"), generate, run.pick(150, 5000))
