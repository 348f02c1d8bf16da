"""Exposed methods against specs/Expose.tla."""
import functools
from types import FunctionType

from epsilon.expose import Exposer, MethodNotExposed, NameRequired
from vp.bind import Binding, tla


class Equal(object):
    """Equal to everything, and a descriptor."""
    def __eq__(self, other):
        return True
    __hash__ = None

    def __get__(self, o, t):
        return self if o is None else lambda: (o, 0, "not a method")


class Adapter(object):
    turn = 0

    def __init__(self, init):
        # any hashable object may be a key
        Adapter.turn += 1
        self.k = ["k", "", 0, (), ("k", 1), b"k", frozenset()][Adapter.turn % 7]
        self.exposers = {"X": Exposer("X"), "Y": Exposer("Y")}
        self.classes = []
        self.gets = 0

    def key(self, key):
        return self.k if key == "k" else key

    def do(self, e):
        k = e["op"]
        if k == "nameless":
            try:
                self.exposers["X"].expose()(classmethod(lambda self: None))
            except NameRequired:
                return ["NameRequired"]
            return []
        if k == "class":
            n = len(self.classes) + 1
            ns = {}
            for m in e["body"]:
                def f(self, n=n, m=m):
                    return self, n, m["name"]
                f.__name__ = str(m["name"])
                kind = m.get("kind", "def")
                if kind == "none":
                    ns[m["name"]] = None
                    continue
                if kind == "equal":
                    ns[m["name"]] = Equal()
                    continue
                if kind == "value":
                    ns[m["name"]] = m["name"]
                    continue
                bases = [self.classes[b - 1] for b in e["bases"]]
                if kind == "wraps" and bases and isinstance(getattr(bases[0], m["name"], None), FunctionType):
                    f = functools.wraps(getattr(bases[0], m["name"]))(f)
                elif kind == "class":
                    f = classmethod(f)
                elif kind == "property":
                    f = property(lambda self, f=f: functools.partial(f, self))
                for x, key in m["keys"]:
                    # with no key given, the key is the method's name
                    g = self.exposers[x].expose(*([] if key == m["name"] and kind in ("def", "wraps") else [self.key(key)]))(f)
                    if g is not f:
                        return ["decorator changed the function"]
                ns[m["name"]] = f
            c = type(str("C%d" % n), tuple(self.classes[b - 1] for b in e["bases"]), ns)
            self.classes.append(c)
            return [self.classes.index(x) + 1 for x in c.__mro__ if x is not object]
        o = self.classes[e["c"] - 1]()
        self.gets += 1
        if self.gets % 3 == 0:
            # its own attributes are not those of its class
            for n in ("foo", "bar", "baz"):
                o.__dict__[n] = lambda: (o, 0, "not a method")
        try:
            m = self.exposers[e["exposer"]].get(o, self.key(e["key"]))
        except MethodNotExposed:
            return ["MethodNotExposed"]
        s, n, name = m()
        if s is not o and s is not type(o):
            return ["bound to something else"]
        return ["method", n, name]


def body(rng):
    ms = []
    for name in rng.sample(["foo", "bar", "baz"], rng.randint(0, 3)):
        keys = [[rng.choice("XXY"), rng.choice(["foo", "bar", "k", "k"])] for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        kind = rng.choice(["def", "def", "wraps", "class", "property", "none", "value", "equal"])
        if kind in ("none", "value", "equal"):
            keys = []
        ms.append({"name": name, "keys": keys, "kind": kind})
    return ms


def generate(rng):
    def gen():
        mros = []

        def merge(seqs):
            out = []
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    return out
                for s in seqs:
                    if not any(s[0] in t[1:] for t in seqs):
                        break
                else:
                    return None
                c = s[0]
                out.append(c)
                seqs = [t[1:] if t[0] == c else t for t in seqs]
        for _ in range(45):
            if len(mros) < 7 and (not mros or rng.random() < .25):
                bs = rng.sample(range(1, len(mros) + 1), min(len(mros), rng.choice([0, 1, 1, 2, 2, 3])))
                m = merge([mros[b - 1] for b in bs] + [bs])
                if m is None:
                    continue
                mros.append([len(mros) + 1] + m)
                yield {"op": "class", "bases": bs, "body": body(rng)}
            else:
                yield {"op": "get", "c": rng.randint(1, len(mros)), "exposer": rng.choice("XXY"),
                       "key": rng.choice(["foo", "bar", "k", "k", "baz"])}
    return None, gen()


F, B = "foo", "bar"


def m(name, *keys, **k):
    return {"name": name, "keys": list(keys), "kind": k.get("kind", "def")}


BODIES = [[], [m(F, ["X", "k"])], [m(F)], [m(B, ["X", "k"])], [m(F, ["Y", "k"])], [m(F, ["X", F])],
          [m(B), m(F, ["X", "k"], ["Y", "k"])],
          [m(F, kind="equal")], [m(F, kind="none")], [m(F, kind="wraps")], [m(B, ["X", "k"], kind="class")]]


def check(run):
    b = Binding(run, "Expose", Adapter)
    S = lambda xs: "{%s}" % ", ".join(tla(x) for x in xs)
    for n, bodies in run.pick([(3, BODIES[:4]), (2, BODIES), (3, BODIES[1:2] + BODIES[-2:])], [(4, BODIES[:3]), (3, BODIES), (4, BODIES[1:2] + BODIES[-2:-1])]):
        b.cover(dict(MaxClasses=str(n), Bodies=S(bodies), Keys='{"k", "foo"}', Exposers='{"X", "Y"}'),
                (), ("Only", "Current"), randoms=(100, 20))
    b.histories(dict(MaxClasses="9", Bodies="{}", Keys="{}", Exposers="{}"), generate, run.pick(200, 5000))
