from vp.bind import Binding
from vp.props import router
from vp.props.router import Adapter  # noqa


def check(run):
    b = Binding(run, "Router", Adapter, router.LIFECYCLE)
    for consts in run.pick(
            [dict(MaxRoutes="2", Literals='{"none", "0"}', Remotes='{"r"}', Boxes="{}",
                  Reacts='{"no", "child", "join", "quit", "drop"}', MaxIds="0"),
             dict(MaxRoutes="3", Literals='{"0", "1"}', Remotes='{"r"}', Boxes="{}",
                  Reacts='{"no"}', MaxIds="1")],
            [dict(MaxRoutes="3", Literals='{"none", "0"}', Remotes='{"r"}', Boxes="{}",
                  Reacts='{"no", "child", "join", "quit"}', MaxIds="0"),
             dict(MaxRoutes="3", Literals='{"none", "a", "0", "1"}', Remotes='{"none", "r"}',
                  Boxes="{}", Reacts='{"no"}', MaxIds="2")]):
        b.cover(consts, router.INVARIANTS, router.PROPERTIES, next="Lifecycle")
    b.histories(dict(MaxRoutes="9", Literals="{}", Remotes="{}", Boxes="{}", Reacts="{}", MaxIds="9"),
                lambda rng: (None, router.generate(rng, 8, 60)), run.pick(80, 2000))
    router.sharing(run, router.LIFECYCLE)
