"""Hotfixes against specs/Hotfix.tla."""
import importlib
import sys
import types

import twisted
import twisted.plugin
import twisted.test.proto_helpers
from twisted.internet import base, defer, task
from twisted.protocols import policies
from twisted.python import filepath, versions
from twisted.trial import unittest

import epsilon.hotfixes
from epsilon import hotfix
from vp.bind import Binding


class Boom(Exception):
    pass


class Unequal(object):
    def __init__(self, p):
        pass

    def __ne__(self, other):
        return True

    def __eq__(self, other):
        return False
    __hash__ = None


class Plain(object):
    pass


class OldCall(object):
    def __init__(self, time, func, args, kw, cancel, reset):
        pass


class Careless(object):
    def write(self, data):
        pass


class Waiting(object):
    """What C{defer.waitForDeferred} was when Twisted still had it."""
    gives = None

    def __init__(self, d):
        self.d = d

    def getResult(self):
        return self.gives


class Wrong(Waiting):
    gives = 1


def generator(f):
    def run():
        for _ in f():
            pass
    return run


# each: the module to replace, where Twisted would be different, and what would be there
FIXES = {
    "filepath_copyTo": ("filepath_copyTo", filepath, "FilePath", Unequal),
    "timeoutmixin_calllater": ("timeoutmixin_calllater", policies, "TimeoutMixin", Plain),
    "delayedcall_seconds": ("delayedcall_seconds", base, "DelayedCall", OldCall),
    "deferredgenerator_tfailure": ("deferredgenerator_tfailure", defer, "waitForDeferred", Wrong),
    "proto_helpers_stringtransport": ("proto_helpers_stringtransport", twisted.test.proto_helpers,
                                      "StringTransport", Careless),
    "internet_task_Clock": ("internet_task_clock", None, None, None),
    "trial_assertwarns": ("trial_assertwarns", unittest, "TestCase", Plain),
    "plugin_package_paths": ("plugin_package_paths", twisted.plugin, "pluginPackagePaths", None),
    "loopbackasync_reentrancy": ("loopbackasync_reentrancy", twisted, "version",
                                 versions.Version("twisted", 8, 1, 0)),
}
MISSING = object()
GOOD = [(8, 2), (9, 0), (9, 1), (10, 0), (8, 3), (20, 1), (17, 5), (8, 10)]
BAD = [(8, 1), (8, 0), (7, 9), (2, 5), (1, 10), (0, 0)]


class Adapter(object):
    old = False      # whether Twisted still has deferredGenerator, without the defect

    turn = 0

    def __init__(self, init):
        self.undo = []
        self.events = []
        self.fails = set()
        self.broken = set()
        # a fresh module remembers nothing
        self.hotfix = importlib.reload(hotfix)
        for name, (module, where, attr, value) in FIXES.items():
            self.replace(name, module)
        Adapter.turn += 1
        self.put(twisted, "version", versions.Version("twisted", *GOOD[Adapter.turn % len(GOOD)] + (Adapter.turn % 3,)))
        # this Twisted has what the fixes look for in a good one
        if not hasattr(unittest.TestCase, "failUnlessWarns"):
            class Good(unittest.TestCase):
                failUnlessWarns = None
            self.put(unittest, "TestCase", Good)
        if self.old:
            self.put(defer, "waitForDeferred", Waiting)
            self.put(defer, "deferredGenerator", generator)

    def replace(self, name, module):
        m = types.ModuleType("epsilon.hotfixes." + module)

        def install():
            self.events.append("install" if name == self.asked else ["install", name])
            if name in self.fails:
                raise Boom()
        m.install = install
        m.clockIsBroken = lambda: name in self.broken
        self.put(sys.modules, m.__name__, m)
        self.put(epsilon.hotfixes, module, m)

    def put(self, where, name, value):
        if isinstance(where, dict):
            old = where.get(name, MISSING)
            where[name] = value
        else:
            old = getattr(where, name, MISSING)
            if value is None:
                if old is not MISSING:
                    delattr(where, name)
            else:
                setattr(where, name, value)
        self.undo.append((where, name, old))

    def do(self, e):
        self.events = []
        k = e["op"]
        if k == "break":
            self.broken.add(e["fix"])
            _, where, attr, value = FIXES[e["fix"]]
            if where is twisted:
                value = versions.Version("twisted", *BAD[Adapter.turn % len(BAD)] + (Adapter.turn % 4,))
            if where is not None:
                self.put(where, attr, value)
            if where is defer:
                self.put(defer, "deferredGenerator", generator)
        elif k == "jam":
            self.fails ^= {e["fix"]}
        else:
            self.asked = e["fix"]
            try:
                r = self.hotfix.require(e["pkg"], e["fix"])
                if r is not None:
                    self.events.append(repr(r))
            except self.hotfix.NoSuchHotfix as x:
                self.events.append("NoSuchHotfix")
            except Boom:
                self.events.append("failed")
        return self.events

    def close(self):
        for where, name, old in reversed(self.undo):
            if isinstance(where, dict):
                if old is MISSING:
                    where.pop(name, None)
                else:
                    where[name] = old
            elif old is MISSING:
                if hasattr(where, name):
                    delattr(where, name)
            else:
                setattr(where, name, old)


class Old(Adapter):
    old = True


STRANGERS = ["nonesuch", "", "FILEPATH_COPYTO"]


def generate(rng):
    def gen():
        names = sorted(FIXES)
        broken = set()
        some = rng.sample(names, rng.randrange(2, 7))
        for _ in range(50):
            k = rng.random()
            f = rng.choice(some)
            if k < .15:
                if f not in broken:
                    broken.add(f)
                    yield {"op": "break", "fix": f}
            elif k < .3:
                yield {"op": "jam", "fix": f}
            else:
                yield {"op": "require", "pkg": "twisted" if rng.random() < .9 else rng.choice(["other", ""]),
                       "fix": f if rng.random() < .85 else rng.choice(names + STRANGERS)}
    return None, gen()


def check(run):
    b = Binding(run, "Hotfix", Adapter)
    b.together = False      # they share what is one per process
    names = sorted(FIXES)
    strangers = '{"nonesuch", "FILEPATH_COPYTO"}'
    allf = "{%s}" % ", ".join('"%s"' % n for n in names)
    size = run.pick(2, 3)
    for i in range(0, len(names), size):
        b.cover(dict(Fixes=allf, Breakable="{%s}" % ", ".join('"%s"' % n for n in names[i:i + size]),
                     Strangers=strangers), (), ("Installs", "Kept"), name="fixes %d.." % i, randoms=(20, 20),
                next="SmallNext")
    old = Binding(run, "Hotfix", Old)
    old.together = False
    old.cover(
        dict(Fixes=allf, Breakable='{"deferredgenerator_tfailure"}', Strangers=strangers), (),
        ("Installs", "Kept"), name="an older Twisted", randoms=(20, 20), next="SmallNext")
    b.histories(dict(Fixes=allf, Breakable="{}", Strangers="{}"), generate, run.pick(200, 4000))
