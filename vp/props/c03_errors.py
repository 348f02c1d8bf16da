from vp.bind import Binding
from vp.props import calls
from vp.props.calls import Adapter  # noqa


def check(run):
    b = Binding(run, "JuiceCalls", Adapter, calls.project_errors)
    C = calls.consts
    every = ["ok", "declared", "declared2", "subclass", "derived", "fatal", "fatalsub", "undeclared"]
    cmds = ["hold", "echo", "oops", "boom", "dead", "nope", "hidden", "both", "never", "vers", "vers12", "novers"]
    offers = ["new", "old", "first", "last", "high"]
    spaces = ["ns", "nssub", "nspre", "nscase", "nsvoid"]
    one = C(cmds + offers, ["ask", "tell"], ["plain", "lax", "old"] + spaces, every, 1, (0, 1), "AB")
    for c in run.pick(
            [one,
             C(["hold", "heir", "nope"], ["ask"], ["plain"], every, 2, (0,), "A"),
             C(["echo", "oops", "boom", "dead"], ["ask"], ["plain", "lax"], every, 2, (0,), "A")],
            [one,
             C(cmds, ["ask", "tell"], ["plain", "lax", "old"], every, 2, (0,), "AB"),
             C(["hold", "both", "hidden"] + offers, ["ask"], ["plain"] + spaces, ["ok", "declared"], 2, (0, 1), "A"),
             C(["hold", "heir"], ["ask"], ["plain"], every, 3, (0,), "A")]):
        b.cover(c, calls.INVARIANTS, calls.PROPERTIES)
    b.histories(C([], [], [], [], 0), lambda rng: calls.generate(rng, 60, True), run.pick(100, 2000))
