from vp.bind import Binding
from vp.props import auth
from vp.props.auth import Adapter  # noqa


def check(run):
    b = Binding(run, "Auth", Adapter, auth.ACCESS)
    for c in run.pick(
            [auth.consts(2, "ab", ("pa", "pb"), "", ("now",), 2, 1),
             auth.consts(1, "ab", ("pa", "pb", "px"), "1", ("now", "none"), 2, 2)],
            [auth.consts(2, "ab", ("pa", "pb"), "1", ("now", "none"), 3, 2),
             auth.consts(1, "abc", ("pa", "pb", "pc", "px", "py"), "", ("now", "none"), 3, 2)]):
        b.cover(c, auth.INVARIANTS, auth.PROPERTIES)
    b.histories(auth.consts(pads="1234"), lambda rng: auth.generate(
        rng, ["hello", "answer", "answer", "pad", "signin", "send", "other", "lose"], ("now", "none", "none")),
        run.pick(100, 2000))
    b.histories(auth.consts(pads="1234"), lambda rng: auth.generate(
        rng, ["hello", "answer", "answer", "pad", "signin", "send", "other", "lose", "finish"]), run.pick(50, 1000))
