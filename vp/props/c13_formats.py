from vp.bind import Binding
from vp.props import times
from vp.props.times import Adapter, NOZONE  # noqa


def check(run):
    b = Binding(run, "Extime", Adapter)
    qs = []
    for z in run.pick((NOZONE, 330, -210), (NOZONE, 0, 60, 330, -210, -30, 1439)):
        for d in (True, False):
            for s in (True, False):
                qs.append(dict(op="viaiso", r="x", zone=z, delims=d, showzone=s))
                qs.append(dict(op="asiso", r="x", zone=z, delims=d, showzone=s))
            qs.append(dict(op="viarfc2822", r="x", zone=z, weekday=d))
            qs.append(dict(op="asrfc2822", r="x", zone=z, weekday=d))
        qs += [dict(op=k, r="x", zone=z) for k in ("viastruct", "asstruct", "viadatetime")]
    qs += [dict(op=k, r="x") for k in ("viaposix", "asposix", "asrfc1123", "viarepr", "oneday")]
    b.cover(dict(Ops=times.ops(run.rng, times.setters("x", range(15)), qs)), ("Sane",))
    b.histories(dict(Ops="<<>>"), lambda rng: times.history(rng, times.formats, 40),
                run.pick(250, 6000))
