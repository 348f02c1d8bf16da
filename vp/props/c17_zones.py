from vp.bind import Binding
from vp.props import times
from vp.props.times import Adapter, NOZONE  # noqa


def check(run):
    b = Binding(run, "Extime", Adapter)
    qs = [dict(op="is", r="x")]
    for z in run.pick((NOZONE, 330, -210), (NOZONE, 0, 60, 330, -210, -30, 1439)):
        qs += [dict(op="asdatetime", r="x", zone=z), dict(op="asstruct", r="x", zone=z)]
        qs += [dict(op="ashuman", zone=z, seconds=s) for s in (True, False)]
        qs += [dict(op="asiso", r="x", zone=z, delims=True, showzone=s) for s in (True, False)]
    which = run.pick((0, 2, 3, 4, 6, 8, 9, 10, 13, 14), range(15))
    b.cover(dict(Ops=times.ops(run.rng, times.setters("x", which), qs, times.setters("y", which))), ("Sane",))
    b.histories(dict(Ops="<<>>"), lambda rng: times.history(
        rng, times.shows, 40, sources=times.close if rng.random() < .6 else None), run.pick(200, 5000))
