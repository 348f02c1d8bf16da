"""What hotfixes bring, against specs/Repairs.tla."""
import os
import shutil
import sys
import tempfile

import twisted.plugin
from twisted.internet import task

from epsilon.hotfixes import plugin_package_paths, timeoutmixin_calllater
from vp.bind import Binding


class Transport(object):
    def __init__(self, owner):
        self.owner = owner

    def loseConnection(self):
        self.owner.events.append(["close"])


class Timed(timeoutmixin_calllater.TimeoutMixin):
    def __init__(self, owner):
        self.owner = owner
        self.transport = Transport(owner)

    def callLater(self, period, func):
        return self.owner.clock.callLater(period, func)

    def timeoutConnection(self):
        o = self.owner
        o.events.append(["timeout"])
        if o.react == "again":
            o.set(o.period)
        elif o.react == "off":
            o.set(None)
        elif o.react == "life":
            self.resetTimeout()
        else:
            timeoutmixin_calllater.TimeoutMixin.timeoutConnection(self)


class Plain(Timed):
    """By the reactor."""
    callLater = timeoutmixin_calllater.TimeoutMixin.callLater


class Adapter(object):
    turn = 0

    def __init__(self, init=None):
        Adapter.turn += 1
        self.clock = task.Clock()
        self.events = []
        self.react = "no"
        self.period = None
        self.timed = [Timed, Plain][self.turn % 2](self)

    def set(self, p):
        was = self.timed.setTimeout(p)
        self.events.append(["was", [] if was is None else [was]])
        self.period = p

    def do(self, e):
        from twisted.internet import reactor
        old = vars(reactor).get("callLater")
        reactor.callLater = self.clock.callLater
        try:
            return self.step(e)
        finally:
            if old is None:
                del reactor.callLater
            else:
                reactor.callLater = old

    def step(self, e):
        self.events = []
        k = e["op"]
        if k == "set":
            self.set(e["p"][0] if e["p"] else None)
        elif k == "life":
            self.timed.resetTimeout()
        elif k == "react":
            self.react = e["react"]
        elif k == "advance":
            self.clock.advance(e["dt"])
        else:
            return self.paths(e)
        left = len(self.clock.getDelayedCalls())
        if left > 1:
            self.events.append(["timers", left])
        return self.events

    def paths(self, e):
        """The package is looked for in a scratch directory."""
        top = os.path.realpath(tempfile.mkdtemp(prefix="vp-paths-"))
        path, here = sys.path, os.getcwd()
        theirs = twisted.plugin.pluginPackagePaths
        try:
            os.chdir(top)
            given, want = [], {}
            for i, kind in enumerate(e["path"], 1):
                d = os.path.join(top, "d%d" % i)
                os.mkdir(d)
                given.append("d%d" % i if i % 2 else d)
                p = os.path.join(d, *e["name"])
                want[p] = i
                if kind != "absent":
                    os.makedirs(p)
                    with open(os.path.join(p, "other.py"), "w"):
                        pass
                    if len(e["name"]) > 1:
                        with open(os.path.join(os.path.dirname(p), "__init__.py"), "w"):
                            pass
                if kind == "package":
                    with open(os.path.join(p, "__init__.py"), "w"):
                        pass
            try:
                sys.path = given
                find = plugin_package_paths.pluginPackagePaths
                if self.turn % 3 == 0:
                    # as Twisted finds them once it is installed
                    plugin_package_paths.install()
                    find = twisted.plugin.pluginPackagePaths
                r = find(".".join(e["name"]))
            finally:
                sys.path = path
                twisted.plugin.pluginPackagePaths = theirs
            return [want.get(p, p) for p in r]
        finally:
            os.chdir(here)
            shutil.rmtree(top)


def generate(rng):
    def gen():
        react, period = "no", None
        for _ in range(60):
            k = rng.random()
            if k < .2:
                ps = [1, 2, 3, 5, 30, 3600] + [0] * (react != "again")
                period = rng.choice(ps + [None])
                yield {"op": "set", "p": [] if period is None else [period]}
            elif k < .4:
                yield {"op": "life"}
            elif k < .5:
                r = rng.choice(["no", "again", "off", "life"])
                if not (r == "again" and period == 0):
                    react = r
                    yield {"op": "react", "react": r}
            elif k < .97:
                out = yield {"op": "advance", "dt": rng.choice([0, 1, 1, 2, 3, 29, 30, 31, 4000])}
                if isinstance(out, list) and ["timeout"] in out and react == "off":
                    period = None
            else:
                yield {"op": "paths", "name": rng.choice([["a"], ["a", "b"], ["twisted", "plugins"]]),
                       "path": [rng.choice(["absent", "bare", "package"]) for _ in range(rng.randrange(6))]}
    return None, gen()


def check(run):
    b = Binding(run, "Repairs", Adapter)
    b.more = 2
    C = lambda **kw: dict(dict(Periods="{}", Advances="{}", Reacts='{"no"}', MaxNow="0", Entries="{}",
                               MaxPath="0", Names="{}"), **kw)
    b.cover(C(Periods="{1, 2}" if not run.thorough else "{1, 2, 3}", Advances="{0, 1, 2}",
              Reacts='{"no", "again", "off", "life"}', MaxNow=run.pick("5", "8")),
            ("NeverLate", "Quiet"), ("NeverEarly",), name="timeouts")
    b.cover(C(Entries='{"absent", "bare", "package"}', MaxPath=run.pick("3", "4"),
              Names='{<<"a">>, <<"a", "b">>, <<"x", "y", "plugins">>}'), name="paths")
    b.histories(C(), generate, run.pick(150, 4000))
