"""Sliced views against specs/Views.tla."""
from epsilon.view import SlicedView
from vp.bind import Binding

NONE = 999


class Adapter(object):
    def __init__(self, init):
        n = init["size"] if isinstance(init, dict) else len(init[0])
        self.base = [10 * (i + 1) for i in range(n)]
        self.views = []

    def do(self, e):
        k = e["op"]
        if k == "view":
            s = slice(*[None if e[f] == NONE else e[f] for f in ("from", "to", "by")])
            if self.views:
                # slicing a view is how views are stacked
                v = self.views[-1][s]
            else:
                v = SlicedView(self.base, s)
            self.views.append(v)
            return []
        if k == "append":
            self.base.append(e["v"])
            return []
        if k == "pop":
            del self.base[0]
            return []
        v = self.views[e["k"] - 1]
        if k == "get":
            try:
                return [v[e["i"]]]
            except IndexError:
                return ["IndexError"]
        return [len(v), list(v)]


def consts(starts="{}", steps="{}", sizes="{0}", views=0, most=0):
    return dict(Starts=starts, Steps=steps, Sizes=sizes, MaxViews=str(views), MaxLen=str(most))


def generate(rng):
    size = rng.choice([0, 1, 2, 5, 9, 20])

    def num(lo, hi):
        return rng.choice([NONE, rng.randint(lo, hi), rng.randint(-3, 3)])

    plain = rng.random() < .4

    def gen():
        n, m = 0, size
        for _ in range(40):
            r = rng.random()
            if n == 0 or (n < 4 and r < .15):
                n += 1
                yield {"op": "view", "from": num(-m - 3, m + 3), "to": num(-m - 3, m + 3),
                       "by": NONE if plain else rng.choice([NONE, 1, 1, -1, 2, 3, -2, -3, 7, -20])}
            elif r < .55:
                yield {"op": "get", "k": rng.randint(1, n), "i": rng.choice([0, -1, rng.randint(-m - 2, m + 2)])}
            elif r < .8:
                yield {"op": "all", "k": rng.randint(1, n)}
            elif r < .9 and m < 25:
                m += 1
                yield {"op": "append", "v": rng.randint(100, 200)}
            elif m:
                m -= 1
                yield {"op": "pop"}
    return {"size": size}, gen()


def check(run):
    b = Binding(run, "Views", Adapter)
    if run.thorough:
        b.cover(consts("{999, -4, -3, -2, -1, 0, 1, 2, 3, 4}", "{999, -3, -2, -1, 1, 2, 3}", "0..4", 1, 0), ("Within",))
        b.cover(consts("{999, -2, 1, 2}", "{999, -2, -1, 2}", "{0, 3, 5}", 2, 4), ("Within",))
        b.cover(consts("{999, -4, -2, -1, 0, 1, 2, 4}", "{999}", "0..5", 2, 0), ("Within",))
    else:
        b.cover(consts("{999, -4, -2, -1, 0, 1, 2, 4}", "{999, -2, -1, 1, 2}", "0..3", 1, 0), ("Within",))
        b.cover(consts("{999, -2, 1}", "{999, -1, 2}", "{0, 3}", 2, 0), ("Within",))
        b.cover(consts("{999, -2, 1}", "{999, -1}", "{2}", 1, 3), ("Within",))
        b.cover(consts("{999, -2, 0, 1, 2}", "{999}", "{1, 2, 4}", 2, 0), ("Within",))
    b.histories(consts(), generate, run.pick(150, 5000))
