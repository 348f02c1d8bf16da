from vp.bind import Binding
from vp.props import router
from vp.props.router import Adapter  # noqa


def check(run):
    b = Binding(run, "Router", Adapter, router.DISPATCH)
    for consts in run.pick(
            [dict(MaxRoutes="2", Literals='{"none", "a"}', Remotes='{"none", "r"}',
                  Boxes='{"b2"}', Reacts='{"no"}', MaxIds="1")],
            [dict(MaxRoutes="3", Literals='{"none", "a", "0"}', Remotes='{"none", "r"}',
                  Boxes='{"b2"}', Reacts='{"no"}', MaxIds="0"),
             dict(MaxRoutes="2", Literals='{"none", "a", "0", "1"}', Remotes='{"none", "r"}',
                  Boxes='{"b0", "b2", "b3"}', Reacts='{"no", "child"}', MaxIds="1")]):
        b.cover(consts, router.INVARIANTS, router.PROPERTIES)
    b.histories(dict(MaxRoutes="9", Literals="{}", Remotes="{}", Boxes="{}", Reacts="{}", MaxIds="9"),
                lambda rng: (None, router.generate(rng, 8, 60, ("no",))), run.pick(80, 2000))
    router.sharing(run, router.DISPATCH, Boxes='{"b2"}', MaxRoutes=run.pick("2", "3"))
    # on a real AMP connection, history by history
    w = Binding(run, "Router", router.Wired, router.DISPATCH)
    limits = dict(MaxRoutes="9", Literals="{}", Remotes="{}", Boxes="{}", Reacts="{}", MaxIds="9")
    for history in router.wired():
        run.known(lambda: w.histories(limits, lambda rng: (None, iter(history)), 1))
