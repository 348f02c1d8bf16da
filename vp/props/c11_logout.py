from vp.bind import Binding
from vp.props import auth
from vp.props.auth import Adapter, Shared  # noqa


def check(run):
    b = Binding(run, "Auth", Adapter, auth.LOGOUT)
    for c in run.pick(
            [auth.consts(1, "a", ("pa", "px"), "12", ("now", "later"), 1, 3),
             auth.consts(2, "", (), "12", ("now", "later", "none"), 0, 2),
             auth.consts(1, "", (), "123", ("later", "start", "stop", "out"), 0, 2)],
            [auth.consts(1, "a", ("pa", "px"), "123", ("now", "later", "none"), 2, 3),
             auth.consts(1, "", (), "123", ("now", "later", "start", "stop", "out"), 0, 3),
             auth.consts(3, "", (), "123", ("now", "later"), 0, 3)]):
        b.cover(c, auth.INVARIANTS, auth.PROPERTIES)
    b.histories(auth.consts(pads="1234"), lambda rng: auth.generate(
        rng, ["hello", "answer", "pad", "signin", "send", "lose", "finish", "finish"],
        rng.choice([("later", "later", "now"), ("later", "later", "now", "start", "stop", "out")])), run.pick(120, 2500))
    b = Binding(run, "Auth", Shared, auth.LOGOUT)
    for c in run.pick(
            [auth.consts(1, "", (), "123", ("now", "later"), 0, 3)],
            [auth.consts(1, "a", ("pa", "px"), "12", ("now", "later", "none"), 1, 3),
             auth.consts(1, "", (), "123", ("later", "start", "stop", "out"), 0, 3)]):
        b.cover(c, auth.INVARIANTS, auth.PROPERTIES)
    b.histories(auth.consts(pads="1234"), lambda rng: auth.generate(
        rng, ["pad", "pad", "hello", "answer", "send", "lose", "finish", "finish"],
        rng.choice([("later", "later", "now"), ("later", "later", "now", "start", "stop", "out")])), run.pick(40, 800))
