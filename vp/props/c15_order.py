from vp.bind import Binding
from vp.props import times
from vp.props.times import Adapter, NOZONE  # noqa


def check(run):
    b = Binding(run, "Extime", Adapter)
    qs = [dict(op=k) for k in ("compare", "difference", "contains")]
    qs += [dict(op="other", v=v) for v in (0, 1)]
    qs += [dict(op="bounds", r="x", zone=z) for z in (NOZONE, 0, 330, -210)] + [dict(op="is", r="x")]
    which = run.pick((0, 1, 2, 3, 5, 8, 9, 10, 12), range(15))
    b.cover(dict(Ops=times.ops(run.rng, times.setters("x", which), qs, times.setters("y", which))), ("Sane",))
    b.histories(dict(Ops="<<>>"), lambda rng: times.history(
        rng, times.orders, 40, near=True,
        sources=times.close if rng.random() < .6 else None), run.pick(400, 5000))
    b.histories(dict(Ops="<<>>"), lambda rng: times.history(rng, times.spans, 25, sources=times.spanning),
                run.pick(50, 1000))
