from vp.bind import Binding
from vp.props import auth
from vp.props.auth import Adapter  # noqa


def check(run):
    b = Binding(run, "Auth", Adapter, auth.PAD)
    for c in run.pick(
            [auth.consts(2, "", (), "14", ("now", "later", "none"), 0, 2),
             auth.consts(1, "", (), "12", ("none", "later"), 0, 3, issues="1")],
            [auth.consts(3, "", (), "123", ("now", "later", "none"), 0, 3),
             auth.consts(2, "", (), "12", ("none", "now"), 0, 3, issues="12")]):
        b.cover(c, auth.INVARIANTS, auth.PROPERTIES)
    b.histories(auth.consts(pads="1234"), lambda rng: auth.generate(
        rng, ["pad", "pad", "pad", "issue", "send", "lose", "finish"]), run.pick(120, 2500))
