"""
Bind a specification to the implementation, in both directions.

  explore   TLC enumerates the specification's whole bounded state graph
            (checking its invariants) and emits every transition, with the
            operation, its arguments and the outcome the specification demands.
  replay    walks covering every transition (plus random walks) are stepped
            through the real code; the outcome of every step is compared.
  validate  long randomized histories are run on the real code and recorded;
            TLC then runs the specification over the recorded operations and
            every recorded outcome is compared with the one it demands.
"""
import collections
import functools
import json
import random
import signal
import sys
import time
import traceback

from vp import tlc
from vp.tlc import MachineryError


def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


def norm(x):
    """The JSON value a Python outcome denotes."""
    return json.loads(json.dumps(x))


def tla(x):
    """A Python value as a TLA+ expression: str, int, bool, list, dict, set."""
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, int):
        return str(x) if x >= 0 else "(0 - %d)" % -x
    if isinstance(x, str):
        return '"%s"' % x
    if isinstance(x, (list, tuple)):
        return "<<%s>>" % ", ".join(tla(y) for y in x)
    if isinstance(x, (set, frozenset)):
        return "{%s}" % ", ".join(sorted(tla(y) for y in x))
    if isinstance(x, dict):
        return "[%s]" % ", ".join("%s |-> %s" % (k, tla(v)) for k, v in sorted(x.items()))
    raise TypeError(x)


def codes(s):
    return [ord(c) for c in s]


def text(cs):
    return "".join(map(chr, cs))


class Violation(Exception):
    def __init__(self, what, detail):
        Exception.__init__(self, what)
        self.what = what
        self.detail = detail


class Hang(BaseException):
    pass


class watchdog(object):
    """Turn an endless loop of the code under test into an outcome."""
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def fire(*a):
            raise Hang("no answer after %s s" % self.seconds)
        self.old = signal.signal(signal.SIGALRM, fire)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def perform(adapter, op, limit=20.0):
    """One step on the real code: the outcome, always a JSON value."""
    try:
        with watchdog(limit):
            return norm(adapter.do(op))
    except Hang:
        return {"unexpected": "Hang"}
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        return {"unexpected": type(e).__name__, "message": str(e)[:300]}


class Graph(object):
    def __init__(self):
        self.ids = {}
        self.views = []
        self.inits = []
        self.edges = []           # (src, action, dst)
        self.out = collections.defaultdict(list)
        self._seen = set()
        self.result = None

    def sid(self, view):
        c = canon(view)
        i = self.ids.get(c)
        if i is None:
            i = self.ids[c] = len(self.views)
            self.views.append(view)
        return i

    def emit(self, rec):
        if "i" in rec:
            i = self.sid(rec["i"])
            if i not in self.inits:
                self.inits.append(i)
            return
        s, t = self.sid(rec["f"]), self.sid(rec["t"])
        k = (s, canon(rec["a"]), t)
        if k in self._seen:
            return
        self._seen.add(k)
        n = len(self.edges)
        self.edges.append((s, rec["a"], t))
        self.out[s].append(n)

    def opcounts(self):
        c = collections.Counter(a["op"] for (_, a, _) in self.edges)
        return dict(c)

    def paths(self):
        """Shortest path (as edge list) from an initial state to each state."""
        par = {i: None for i in self.inits}
        q = collections.deque(self.inits)
        while q:
            s = q.popleft()
            for e in self.out[s]:
                t = self.edges[e][2]
                if t not in par:
                    par[t] = e
                    q.append(t)
        return par

    def cover(self, rng, cap=40):
        """Walks (init, [edge...]) which between them take every transition."""
        par = self.paths()
        todo = {s: list(es) for s, es in self.out.items()}
        for es in todo.values():
            rng.shuffle(es)
        order = [s for s in par if todo.get(s)]
        walks = []
        for s in order:
            while todo.get(s):
                pre = []
                x = s
                while par[x] is not None:
                    pre.append(par[x])
                    x = self.edges[par[x]][0]
                pre.reverse()
                init = x
                cur = s
                n = 0
                while todo.get(cur) and n < cap:
                    e = todo[cur].pop()
                    pre.append(e)
                    cur = self.edges[e][2]
                    n += 1
                walks.append((init, pre))
        return walks

    def randoms(self, rng, count, length):
        walks = []
        for _ in range(count):
            s = init = rng.choice(self.inits)
            w = []
            for _ in range(length):
                es = self.out.get(s)
                if not es:
                    break
                e = rng.choice(es)
                w.append(e)
                s = self.edges[e][2]
            if w:
                walks.append((init, w))
        return walks


def _root(name, spec, consts, body):
    L = ["---- MODULE %s ----" % name, "EXTENDS %s, Json, TLC" % spec]
    for k, v in (consts or {}).items():
        L.append("MC_%s == %s" % (k, v))
    L.append(body)
    L.append("====")
    return "\n".join(L) + "\n"


def explore(spec, consts=None, invariants=(), properties=(), constraint=None,
            extra="", timeout=840, workers=1, init="Init", next="Next"):
    g = Graph()
    name = "MC_" + spec
    body = extra + """
MC_Init == %s /\\ PrintT("@@" \\o ToJson([i |-> View]))
MC_Emit == PrintT("@@" \\o ToJson([f |-> View, a |-> last', t |-> View']))
""" % init
    cfg = tlc.cfg(overrides={k: "MC_" + k for k in (consts or {})},
                  invariants=invariants, properties=properties, view="View",
                  constraint=constraint, action_constraint="MC_Emit",
                  init="MC_Init", next=next)
    g.result = tlc.run(name, _root(name, spec, consts, body), cfg, emit=g.emit,
                       timeout=timeout, workers=workers)
    if not g.inits or not g.edges:
        raise MachineryError("empty exploration of %s" % spec)
    return g


def modelcheck(spec, consts=None, invariants=(), properties=(), constraint=None,
               extra="", timeout=840, workers=8, init="Init", next="Next", view="View"):
    """Check the specification only, with no emission (larger constants)."""
    name = "MK_" + spec
    cfg = tlc.cfg(overrides={k: "MC_" + k for k in (consts or {})},
                  invariants=invariants, properties=properties, view=view,
                  constraint=constraint, init=init, next=next)
    return tlc.run(name, _root(name, spec, consts, extra), cfg, timeout=timeout,
                   workers=workers)


def strip(a):
    return {k: v for k, v in a.items() if k != "out"}


def same(x):
    return x


def build(make, init):
    """A new object of the real code, in its initial state."""
    try:
        return make(init)
    except (OSError, MemoryError, MachineryError, Violation):
        raise
    except Exception as e:
        raise Violation("step 0: there is no such object to begin with: %s" % (
            "".join(traceback.format_exception(type(e), e, e.__traceback__)[-2:])),
            {"kind": "replay", "init": init, "history": []})


def replay(g, make, walks, stats, limit=20.0, deadline=None, project=same):
    """Step walks of the specification through the real code."""
    for init, w in walks:
        if deadline is not None and time.time() > deadline:
            stats["truncated"] = True
            break
        adapter = build(make, g.views[init])
        try:
            hist = []
            for e in w:
                a = g.edges[e][1]
                op = strip(a)
                got = project(perform(adapter, op, limit))
                want = project(a["out"])
                hist.append({"op": op, "expected": want, "observed": got})
                stats["steps"] = stats.get("steps", 0) + 1
                if got != want:
                    raise Violation(
                        "step %d: %s: specification demands %s, code did %s" % (
                            len(hist), short(op), short(want), short(got)),
                        {"kind": "replay", "init": g.views[init], "history": hist})
        finally:
            close(adapter)
        stats["walks"] = stats.get("walks", 0) + 1
        if len(stats.setdefault("samples", [])) < 2 and len(w) > 1:
            stats["samples"].append([h["op"] for h in hist][:12])


def together(g, make, groups, rng, stats, limit=20.0, deadline=None, project=same):
    """Step several walks at a time, each on an object of its own, in turns: what
    happens to one object is no matter of the others."""
    for group in groups:
        if deadline is not None and time.time() > deadline:
            stats["truncated"] = True
            break
        adapters, hist = [], []
        try:
            for init, w in group:
                adapters.append(build(make, g.views[init]))
            turns = [i for i, (init, w) in enumerate(group) for e in w]
            rng.shuffle(turns)
            walks = [iter(w) for init, w in group]
            for i in turns:
                a = g.edges[next(walks[i])][1]
                op = strip(a)
                got = project(perform(adapters[i], op, limit))
                want = project(a["out"])
                hist.append({"object": i, "op": op, "expected": want, "observed": got})
                stats["steps"] = stats.get("steps", 0) + 1
                if got != want:
                    raise Violation(
                        "step %d, of object %d of %d: %s: specification demands %s, code did %s" % (
                            len(hist), i + 1, len(group), short(op), short(want), short(got)),
                        {"kind": "replay", "init": g.views[group[0][0]],
                         "inits": [g.views[init] for init, w in group], "history": hist})
        finally:
            for a in adapters:
                close(a)
        stats["walks"] = stats.get("walks", 0) + len(group)
        stats["together"] = stats.get("together", 0) + 1


def close(adapter):
    c = getattr(adapter, "close", None)
    if c is not None:
        c()


def short(x, n=400):
    s = canon(x)
    return s if len(s) <= n else s[:n] + "..."


def hangs(events):
    """Whether there was no answer to the last one."""
    return bool(events) and events[-1]["out"] == {"unexpected": "Hang"}


def record(make, gen, init, limit=20.0, lost=None):
    """Run one generated history on the real code; C{gen} yields operations and
    is sent each outcome; should it fail for an outcome, C{lost} hears of it."""
    adapter = build(make, init)
    events = []
    try:
        it = gen
        try:
            op = next(it)
            while True:
                out = perform(adapter, op, limit)
                events.append({"op": op, "out": out})
                if hangs(events):
                    break
                op = it.send(out) if hasattr(it, 'send') else next(it)
        except StopIteration:
            pass
        except Exception as e:
            if lost is None or not events:
                raise
            lost.append(e)
    finally:
        close(adapter)
    return events


def validate(spec, traces, consts=None, invariants=(), stats=None, extra="",
             timeout=840, workers=4, project=same):
    """
    Run the specification over recorded histories: C{traces} is a list of
    (initial view parameters or None, [event...]).  The specification's
    Step(e) is applied to each recorded operation.
    """
    if stats is None:
        stats = {}
    name = "TR_" + spec
    lines = []
    for init, events in traces:
        lines.append(json.dumps({"init": init if init is not None else {"none": 0},
                                 "ev": [e["op"] for e in events]}))
    body = extra + """
TR_Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr_id, tr_l
TR_Init == /\\ tr_id \\in 1..Len(TR_Traces)
           /\\ tr_l = 1
           /\\ InitWith(TR_Traces[tr_id].init)
TR_Next == /\\ tr_l <= Len(TR_Traces[tr_id].ev)
           /\\ Step(TR_Traces[tr_id].ev[tr_l])
           /\\ tr_l' = tr_l + 1
           /\\ tr_id' = tr_id
TR_View == <<tr_id, tr_l>>
TR_Emit == PrintT("@@" \\o ToJson([t |-> tr_id, l |-> tr_l, o |-> last'.out]))
"""
    cfg = tlc.cfg(overrides={k: "MC_" + k for k in (consts or {})},
                  invariants=invariants, view="TR_View",
                  action_constraint="TR_Emit", init="TR_Init", next="TR_Next")
    demanded = {}

    def emit(rec):
        demanded[(rec["t"] - 1, rec["l"] - 1)] = rec["o"]
    r = tlc.run(name, _root(name, spec, consts, body), cfg,
                files={"traces.ndjson": "\n".join(lines) + "\n"}, emit=emit,
                timeout=timeout, workers=workers)
    stats["trace_states"] = stats.get("trace_states", 0) + r.distinct
    for t, (init, events) in enumerate(traces):
        for l, e in enumerate(events):
            if (t, l) not in demanded:
                raise Violation(
                    "history %d, step %d: %s is not a step the specification allows" % (
                        t, l + 1, short(e["op"])),
                    {"kind": "trace", "init": init, "history": [
                        {"op": x["op"], "observed": x["out"]} for x in events[:l + 1]]})
            want, got = project(demanded[(t, l)]), project(e["out"])
            if want != got:
                raise Violation(
                    "history %d, step %d: %s: specification demands %s, code did %s" % (
                        t, l + 1, short(e["op"]), short(want), short(got)),
                    {"kind": "trace", "init": init, "history": [
                        {"op": x["op"], "expected": project(demanded[(t, i)]),
                         "observed": project(x["out"])}
                        for i, x in enumerate(events[:l + 1])]})
            stats["trace_events"] = stats.get("trace_events", 0) + 1
        stats["traces"] = stats.get("traces", 0) + 1
    return stats


def where(x):
    """The module and name with which something is found again, if it is."""
    for m, mod in sorted(sys.modules.items()):
        if m.startswith("vp."):
            for n, v in vars(mod).items():
                if v is x:
                    return [m, n]
    return None


def named(method):
    """A violation it finds also says how its replay is to be looked at."""
    @functools.wraps(method)
    def wrapped(self, *a, **kw):
        try:
            return method(self, *a, **kw)
        except Violation as v:
            v.detail.setdefault("adapter", where(self.make))
            v.detail.setdefault("project", where(self.project))
            raise
    return wrapped


class Binding(object):
    """One specification bound to one adapter, for one run of a check."""
    def __init__(self, run, spec, make, project=same):
        self.run, self.spec, self.make, self.project = run, spec, make, project

    @named
    def cover(self, consts, invariants=(), properties=(), constraint=None, extra="",
              randoms=None, name=None, budget=None, cap=40, init="Init", next="Next"):
        """Enumerate the specification under C{consts}, checking it, and step
        the real code through every transition of it."""
        run = self.run
        g = explore(self.spec, consts, invariants, properties, constraint, extra,
                    init=init, next=next)
        run.note(name or self.spec, g)
        deadline = None if budget is None else time.time() + budget
        replay(g, self.make, g.cover(run.rng, cap), run.stats, project=self.project,
               deadline=deadline)
        n, length = randoms or run.pick((100, 30), (2000, 60))
        replay(g, self.make, g.randoms(run.rng, n, length), run.stats, project=self.project,
               deadline=deadline)
        if self.together:
            walks = g.randoms(run.rng, n, length)
            groups, k = [], 0
            while k < len(walks):
                m = run.rng.choice([2, 2, 3])
                groups.append(walks[k:k + m])
                k += m
            together(g, self.make, groups, run.rng, run.stats, project=self.project,
                     deadline=deadline)
        return g

    def check(self, consts, invariants=(), properties=(), constraint=None, extra="",
              name=None, **kw):
        """Check the specification alone under larger constants."""
        r = modelcheck(self.spec, consts, invariants, properties, constraint, extra, **kw)
        self.run.note((name or self.spec) + " (specification only)", r)
        return r

    together = True     # whether several objects of the code under test are also used in turns

    more = 4      # times as many histories in the quick tier as asked for

    @named
    def histories(self, consts, generate, count, extra="", batch=400, limit=20.0, workers=4):
        """Record C{count} random histories of the real code; the specification
        decides each of them."""
        run = self.run
        todo = run.pick(self.more * count, count)
        while todo > 0:
            n = min(todo, batch)
            todo -= n
            traces, lost = [], []
            for _ in range(n):
                init, gen = generate(run.rng)
                traces.append((init, record(self.make, gen, init, limit, lost)))
                if hangs(traces[-1][1]):
                    break       # that is enough
            validate(self.spec, traces, consts, stats=run.stats, extra=extra,
                     project=self.project, workers=workers)
            if lost:
                raise lost[0]       # though the specification agrees with all of it
            if len(run.samples) < 2:
                run.samples.append({"history": [e["op"] for e in traces[-1][1]][:15]})
