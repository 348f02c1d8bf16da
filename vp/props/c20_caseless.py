"""Case-insensitive strings against specs/Caseless.tla."""
import operator

from epsilon.caseless import Caseless
from vp.bind import Binding, codes, text

NONE = 999


class Header(Caseless):
    pass


class Adapter(object):
    def __init__(self, init):
        self.dict = {}
        self.n = 0

    def do(self, e):
        k = e["op"]
        self.n += 1
        if k == "keys":
            return [codes(x.cased) for x in self.dict]
        s = text(e["s"])
        # a Caseless made from a Caseless is the same thing
        wrap = [Caseless, lambda x: Caseless(Caseless(x)), lambda x: Caseless(Header(x)), Caseless][self.n % 4]
        if k in ("compare", "search"):
            t = text(e["t"])
            if self.n % 5 == 0 and max(e["s"] + e["t"] + [0]) < 128:
                s, t = s.encode("ascii"), t.encode("ascii")     # any kind of string will do
        c = wrap(s)
        if k == "compare":
            d = Header(t) if self.n % 7 == 0 else Caseless(t)
            rs = [[bool(o(a, b)) for o in (operator.lt, operator.le, operator.eq, operator.ne,
                                          operator.ge, operator.gt)]
                  for a, b in ((c, d), (c, t))]
            if rs[0] != rs[1]:
                return ["plain strings compare differently", rs]
            if rs[0][2] and hash(c) != hash(d):
                return ["equal but hashed differently"]
            if hash(c) != hash(s.lower()) or hash(d) != hash(t.lower()):
                return ["hashed differently from the lower case form"]
            lo = sorted([c, d])
            if (lo[0] is d) != rs[0][5]:
                return ["sorted differently"]
            return rs[0] + [len({c, d}) == 1]
        if k == "search":
            q = t[:0] + (b"?" if isinstance(t, bytes) else "?")
            rest = () if e["from"] == NONE and e["to"] == NONE else \
                (None if e["from"] == NONE else e["from"],) + (() if e["to"] == NONE else (e["to"],))
            outs = []
            for u in (t, Caseless(t)):
                f, r = c.find(u, *rest), c.rfind(u, *rest)
                for a, m in ((f, c.index), (r, c.rindex)):
                    try:
                        b = m(u, *rest)
                    except ValueError:
                        b = -1
                    if a != b:
                        return ["index and find differ", a, b]
                b = c.startswith(u, *rest), c.endswith(u, *rest)
                if b != (c.startswith((t + q, u), *rest), c.endswith((q + t, u), *rest)):
                    return ["tuples differ"]
                outs.append([f, r, c.count(u, *rest), b[0], b[1], u in c])
            return outs[0] if outs[0] == outs[1] else outs
        if k == "show":
            if list(c) != list(s) or [c[i] for i in range(len(s))] != list(s) or c.cased != s \
                    or [c[i:] for i in range(-3, 3)] != [s[i:] for i in range(-3, 3)] \
                    or repr(c) != "Caseless(%r)" % s or c.title() != s.title():
                return ["garbled"]
            return [codes(str(c)), len(c), codes(c.lower()), codes(c.upper()), codes(c.swapcase())]
        if k == "put":
            self.dict[c] = e["v"]
            return []
        return [self.dict[c]] if c in self.dict else []


def generate(rng):
    def s(n=6):
        return [rng.choice([97, 65, 97, 65, 98, 66, 48, 95, 201, 233, 122, 90]) for _ in range(rng.randint(0, n))]

    def gen():
        for _ in range(40):
            k = rng.choice(["compare", "search", "search", "show", "put", "put", "get", "keys"])
            a = s()
            if k in ("compare", "search"):      # sharp s is not "ss", nor is long s "s"
                a = [rng.choice([c, c, c, 223, 383, 115, 83]) for c in a]
            b = rng.choice([s(3), a[rng.randint(0, 3):][:rng.randint(0, 4)], a])
            if rng.random() < .3:
                b = [y for c in b for y in ([115, 115] if c == 223 else [c])]
            b = [c + 32 if c in range(65, 91) and rng.random() < .5 else c for c in b]
            num = lambda: rng.choice([NONE, NONE, rng.randint(-8, 8)])
            e = {"op": k}
            if k != "keys":
                e["s"] = a if k not in ("put", "get") else [rng.choice([c, c, c, 223]) for c in s(2)]
            if k in ("put", "get") and rng.random() < .2:
                e["s"] = rng.choice([[304], [105, 775], [73, 775]])
            if k in ("compare", "search"):
                e["t"] = b
            if k == "compare" and rng.random() < .3:
                for f in "st":
                    e[f] = [y for c in e[f] for y in ([c] if c not in (97, 65) else rng.choice([[304], [105, 775], [73, 775]]))]
            if k == "search":
                e.update({"from": num(), "to": num()})
            if k == "put":
                e["v"] = rng.randint(1, 9)
            yield e
    return None, gen()


def strings(alphabet, n):
    out, last = [[]], [[]]
    for _ in range(n):
        last = [x + [c] for x in last for c in alphabet]
        out += last
    return "{%s}" % ", ".join("<<%s>>" % ", ".join(map(str, x)) for x in out)


def check(run):
    b = Binding(run, "Caseless", Adapter)
    b.cover(dict(Strings=strings([97, 65, 66], run.pick(2, 3)), MaxLen="1",
                 Bounds=run.pick("{999, -1, 1}", "{999, -3, -1, 0, 1}")), ("OneKey",),
            extra="Small == Len(dict) < 3", constraint="Small")
    b.histories(dict(Strings="{}", MaxLen="9", Bounds="{}"), generate, run.pick(150, 5000))
