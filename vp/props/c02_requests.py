from vp.bind import Binding
from vp.props import calls
from vp.props.calls import Adapter  # noqa


def many(count):
    """One request which stays without an answer while many others have theirs."""
    def gen():
        yield {"op": "call", "side": "A", "cmd": "hold", "want": "ask", "style": "plain"}
        made = 1
        while made < count:
            for _ in range(100):
                made += 1
                out = yield {"op": "call", "side": "A", "cmd": "echo", "want": "ask", "style": "plain"}
            for side in "BA":
                out = yield {"op": "deliver", "side": side, "chunk": 0}
                if not isinstance(out, list):
                    return
        yield {"op": "answer", "r": 1, "how": "ok"}
        yield {"op": "deliver", "side": "A", "chunk": 0}
        yield {"op": "lose", "side": "A"}
    return None, gen()


def check(run):
    b = Binding(run, "JuiceCalls", Adapter, calls.project_outcomes)
    C = calls.consts
    for c in run.pick(
            [C(["hold"], ["ask"], ["plain"], ["ok", "declared"], 2, (0, 1), "AB"),
             C(["hold", "echo"], ["ask", "tell"], ["plain", "again", "old"], ["ok"], 2, (0,), "A"),
             C(["hold"], ["ask"], ["plain"], ["ok"], 3, (0,), "A")],
            [C(["hold"], ["ask"], ["plain"], ["ok", "declared"], 3, (0, 1), "AB"),
             C(["hold", "echo", "oops"], ["ask", "tell"], ["plain", "again", "old"], ["ok"], 2, (0, 3), "AB"),
             C(["hold", "echo"], ["ask"], ["plain", "again"], ["ok", "undeclared"], 3, (0,), "A"),
             C(["hold"], ["ask"], ["plain"], ["ok"], 4, (0,), "A")]):
        b.cover(c, calls.INVARIANTS, calls.PROPERTIES)
    b.more = 1
    b.histories(C([], [], [], [], 0), lambda rng: many(run.pick(4500, 20000)), 1)
    b.more = Binding.more
    b.histories(C([], [], [], [], 0), lambda rng: calls.generate(rng, 60, False), run.pick(100, 2000))
