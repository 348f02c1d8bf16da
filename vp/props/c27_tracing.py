"""Signal services, tracers and the spewer against specs/Tracing.tla."""
import contextlib
import io
import re
import signal
import sys
import threading

from twisted.python.reflect import qual

from epsilon.spewer import SignalService, Spewer, Tracer
from vp.bind import Binding, tla

SIGNALS = {1: signal.SIGUSR1, 2: signal.SIGUSR2, 3: signal.SIGHUP}
SERVICES = [{1}, {1, 2}, {2, 3}, {1}]
HANDS = [1, 2, 3, 1]     # the last shares the first one's handler


class Boom(Exception):
    pass


class Instance(object):
    def __repr__(self):
        return "<instance>"


class Empty(Instance):
    """An instance which is false, and whose attributes are odd."""
    def __len__(self):
        return 0

    def __repr__(self):
        return "<empty>"

    def __eq__(self, other):
        return True

    __hash__ = None


class Node(object):
    pass


NODES = []
BODY = """
def {name}({args}):
    for kid in NODES.pop().kids:
        NODES.append(kid)
        if kid.up.catch:
            try:
                kid.f(*kid.a, **kid.k)
            except Boom:
                pass
        else:
            kid.f(*kid.a, **kid.k)
    {end}
"""
SIGS = {
    "none": ("", [], {}),
    "pos": ("a, b", [1, "x"], {}),
    "kwonly": ("a, *rest, k", [1, 3], {"k": 2}),
    "kwargs": ("a, **kw", [1], {"z": 2}),
    "all": ("a, *rest, k, **kw", [1], {"k": 2}),
    "method": ("self, a", [Instance(), 1], {}),
    "empty": ("self, a", [Empty(), 1], {}),
    "noself": ("self, a", [None, 1], {}),
}
ENDS = {"none": "return", "value": "return 'value'", "raise": "raise Boom()", "zero": "return 0", "blank": "return ''"}
FUNCS = {}
for _s in SIGS:
    for _r in ENDS:
        _n = {"NODES": NODES, "Boom": Boom}
        exec(BODY.format(name="spewed_" + _s, args=SIGS[_s][0], end=ENDS[_r]), _n)
        FUNCS[_s, _r] = _n["spewed_" + _s]


def node(n, up=None):
    r = Node()
    r.up = up
    r.catch = n["catch"]
    r.f = FUNCS[n["sig"], n["ret"]]
    _, r.a, r.k = SIGS[n["sig"]]
    r.kids = [node(k, r) for k in n["kids"]]
    return r


def split(args):
    """The arguments of a call, as printed."""
    r, depth = [""], 0
    for c in args:
        depth += {"(": 1, ")": -1, "{": 1, "}": -1}.get(c, 0)
        if c == "," and not depth:
            r.append("")
        else:
            r[-1] += c
    return sorted(x.strip() for x in r if x.strip())


class False_(object):
    """A function which is false."""
    def __init__(self, f):
        self.f = f

    def __call__(self, *a):
        self.f(*a)
        return self

    def __bool__(self):
        return False


class Recording(Tracer):
    def __init__(self, adapter):
        self.adapter = adapter

    def hear(self, what, frame):
        if frame.f_code is self.adapter.code:
            self.adapter.events.append(what)

    def trace_CALL(self, frame, arg):
        if frame.f_code is not self.adapter.code:
            return self.skip
        self.hear("CALL", frame)
        return {"none": None, "skip": self.skip, "other": self.other,
                "false": False_(self.other)}[self.adapter.answer]

    def other(self, frame, event, arg):
        self.hear("other " + event, frame)
        return self.other

    def trace_LINE(self, frame, arg):
        self.hear("LINE", frame)

    def trace_RETURN(self, frame, arg):
        self.hear("RETURN", frame)


class Adapter(object):
    def __init__(self, init):
        self.events = []
        self.heard = []
        # what a signal does before: a handler's, nothing, the default (which ends a process)
        self.before = {1: self.handler(0), 2: signal.SIG_IGN, 3: signal.SIG_DFL}
        self.old = {i: signal.signal(SIGNALS[i], self.before[i]) for i in SIGNALS}
        hands = self.hands = {i: self.handler(i) for i in HANDS + [9]}
        self.services = [SignalService({SIGNALS[s]: hands[i] for s in sigs})
                         for i, sigs in zip(HANDS, SERVICES)]
        self.order = []

        def traced():
            x = 1
            return x
        self.traced = traced
        self.code = traced.__code__
        self.answer = "none"
        self.tracer = Recording(self)
        self.on = False

    def handler(self, i):
        def handle(sig, frame):
            self.heard.append((i, sig))
        return handle

    def do(self, e):
        self.events = []
        k = e["op"]
        if k == "start":
            s = self.services[e["i"] - 1]
            self.order.append(s)
            s.startService()
            return ["running" if s.running else "not running"]
        elif k == "stop":
            s = self.order.pop()
            s.stopService()
            return ["running" if s.running else "not running"]
        elif k == "other":
            signal.signal(SIGNALS[e["sig"]], self.hands[e["who"]] if e["who"] else self.before[e["sig"]])
            return []
        elif k == "signal":
            self.heard = []
            now = signal.getsignal(SIGNALS[e["sig"]])
            if now in (signal.SIG_DFL, signal.SIG_IGN, None):     # not to be sent
                return [0, e["sig"]] if now == self.before[e["sig"]] else ["default", e["sig"]]
            signal.raise_signal(SIGNALS[e["sig"]])
            if len(self.heard) != 1:
                return [self.heard]
            return [self.heard[0][0], e["sig"] if self.heard[0][1] == SIGNALS[e["sig"]] else self.heard[0][1]]
        elif k == "stranger":      # somebody else traces, or stops
            sys.settrace((lambda *a: None) if sys.gettrace() is None else None)
        elif k in ("install", "uninstall", "toggle"):
            getattr(self.tracer, k)()
        elif k == "call":
            self.answer = e["answer"]
            if e["where"] == "here":
                self.traced()
            else:
                t = threading.Thread(target=self.traced)
                t.start()
                t.join()
        elif k == "spew":
            return self.spew(e["programs"])
        return self.events

    def spew(self, programs):
        s = Spewer()
        out = io.StringIO()
        nodes = [node(p) for p in programs]
        with contextlib.redirect_stdout(out):
            s.install()
            try:
                for n in nodes:
                    NODES.append(n)
                    try:
                        n.f(*n.a, **n.k)
                    except Boom:
                        pass
            finally:
                s.uninstall()
        lines = []
        me = "%X" % id(threading.current_thread())
        for l in out.getvalue().splitlines():
            m = re.match(r"([0-9A-F]+) ( *)(.*)$", l)
            if m is None:
                lines.append(l)
                continue
            who, depth, what = m.group(1), len(m.group(2)), m.group(3)
            if who != me:
                lines.append(l)
            if what.startswith("<= "):
                lines.append([depth, {"<= 'value'": "returned", "<= 0": "zero", "<= ''": "blank"}.get(what, what), "", []])
            elif what.startswith("^- "):
                lines.append([depth, "raised" if "Boom" in what else what, "", []])
            elif "spewed_" in what:
                m = re.match(r"(.*?)spewed_(\w+)\((.*)\)$", what)
                own = {"method": qual(Instance) + ".", "empty": qual(Empty) + "."}.get(m.group(2), "")
                lines.append([depth, "call" if m.group(1) == own else what, m.group(2), split(m.group(3))])
            # else a call of the tracer's own
        return lines

    def close(self):
        sys.settrace(None)
        threading.settrace(None)
        for i, h in self.old.items():
            signal.signal(SIGNALS[i], h)


def project(out):
    """Arguments are a set."""
    if isinstance(out, list):
        return [x[:3] + [sorted(x[3])] if isinstance(x, list) and len(x) == 4 and isinstance(x[3], list) else x
                for x in out]
    return out


def tree(rng, depth):
    return {"sig": rng.choice(sorted(SIGS)), "ret": rng.choice(["none", "value", "value", "raise", "zero", "blank"]),
            "catch": rng.random() < .5,
            "kids": [tree(rng, depth - 1) for _ in range(rng.randrange(3))] if depth else []}


def generate(rng):
    def gen():
        order = []
        on = False
        for _ in range(40):
            k = rng.random()
            idle = [i for i in range(1, 5) if i not in order]
            if k < .2 and idle and not on:
                order.append(rng.choice(idle))
                yield {"op": "start", "i": order[-1]}
            elif k < .35 and order and not on:
                order.pop()
                yield {"op": "stop"}
            elif k < .42:
                yield {"op": "other", "sig": rng.randrange(1, 4), "who": rng.choice([0, 1, 1, 2, 3, 9])}
            elif k < .46 and not on:
                yield {"op": "stranger"}
            elif k < .6:
                yield {"op": "signal", "sig": rng.randrange(1, 4)}
            elif k < .75:
                o = rng.choice(["install", "uninstall", "toggle"])
                on = {"install": True, "uninstall": False, "toggle": not on}[o]
                yield {"op": o}
            elif k < .9:
                yield {"op": "call", "answer": rng.choice(["none", "skip", "other", "false"]),
                       "where": rng.choice(["here", "thread"])}
            elif not on:
                yield {"op": "spew", "programs": [tree(rng, 3) for _ in range(rng.randrange(1, 4))]}
        if on:
            yield {"op": "uninstall"}
            yield {"op": "call", "answer": "none", "where": "here"}
    return None, gen()


def check(run):
    b = Binding(run, "Tracing", Adapter, project)
    b.together = False      # they share what is one per process
    services = "<<%s>>" % ", ".join(tla(s) for s in SERVICES)

    def n(sig, ret, catch=False, *kids):
        return {"sig": sig, "ret": ret, "catch": catch, "kids": list(kids)}
    programs = [n("none", "none"), n("pos", "value"), n("kwonly", "raise"), n("kwargs", "none", True, n("none", "raise"), n("pos", "value")),
                n("method", "value", False, n("all", "raise"), n("none", "value")), n("empty", "zero", True, n("noself", "raise"), n("pos", "blank"))]
    b.cover(dict(Services=services, Hands=tla(HANDS), Programs="{%s}" % ", ".join(map(tla, programs)), Others="{<<1, 1>>, <<1, 9>>}", Answers='{"none", "skip", "other", "false"}'),
            ("InForce",))
    b.histories(dict(Services=services, Hands=tla(HANDS), Programs="{}", Others="{}", Answers="{}"), generate, run.pick(150, 3000))
