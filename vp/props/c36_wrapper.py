"""The wrapper of a Juice connection, against specs/JuiceCalls.tla.

The specification is the same as without a wrapper: what runs for the peer has
to run inside exactly one call of it, and to have the same outcome."""
from vp.bind import Binding
from vp.props import calls


class Proto(calls.Proto):
    def wrapper(self, f):
        def inside(arg):
            o = self.owner
            o.inside.append(self.side)
            try:
                return f(arg)
            finally:
                o.inside.pop()
        return inside


class Adapter(calls.Adapter):
    protocol = Proto

    def __init__(self, init=None):
        self.inside = []
        calls.Adapter.__init__(self, init)

    def event(self, *e):
        calls.Adapter.event(self, *e)
        if e[0] in ("served", "result") or (e[0] == "failed" and e[2] not in ("Gone", "ConnectionLost")):
            side = self.side_of[e[1]]
            if e[0] == "served":
                side = "B" if side == "A" else "A"
            if self.inside != [side]:
                self.events.append(["garbled", e[1], "inside %d" % len(self.inside)])


def project(out):
    if not isinstance(out, list):
        return out
    return sorted([e[:2] for e in out if e[0] in ("served", "result", "closing")]
                  + [e for e in out if e[0] in ("garbled", "odd", "failed")], key=repr)


def check(run):
    b = Binding(run, "JuiceCalls", Adapter, project)
    C = calls.consts
    for c in run.pick(
            [C(["hold", "echo", "oops", "boom", "dead", "nope", "hidden", "vers", "novers"],
               ["ask", "tell"], ["plain", "again", "old", "lax"], ["ok", "declared", "undeclared"], 1, (0, 1), "AB"),
             C(["hold", "echo", "oops"], ["ask"], ["plain", "again", "old"], ["ok", "declared"], 2, (0,), "A")],
            [C(["hold", "echo", "oops", "boom", "dead", "nope", "hidden"],
               ["ask", "tell"], ["plain", "again", "old"], ["ok", "declared", "undeclared"], 2, (0, 1), "AB"),
             C(["hold", "echo"], ["ask"], ["plain"], ["ok", "declared"], 3, (0,), "AB")]):
        b.cover(c, calls.INVARIANTS, calls.PROPERTIES)
    b.histories(C([], [], [], [], 0), lambda rng: calls.generate(rng, 60, rng.random() < .5), run.pick(60, 2000))
