"""Record classes against specs/Record.tla."""
import threading

from epsilon.structlike import record
from vp.bind import Binding


class R(record("left right")):
    pass


class S(record("left right", right=0)):
    """Equal to everything, and not hashable; one attribute kept elsewhere."""
    @property
    def right(self):
        return self.elsewhere

    @right.setter
    def right(self, v):
        self.elsewhere = v

    def __eq__(self, other):
        return True
    __hash__ = None


class Pause(object):
    """Stands for a value; its first repr waits for another thread's."""
    def __init__(self, of):
        self.of = of
        self.reached = threading.Event()
        self.go = threading.Event()
        self.thread = None

    def __repr__(self):
        if threading.current_thread() is self.thread and not self.reached.is_set():
            self.reached.set()
            self.go.wait(10)
        return repr(self.of)


class Try(object):
    """Something which copes with a failing repr."""
    def __init__(self, left, right):
        self.left, self.right = left, right

    def __repr__(self):
        try:
            r = repr(self.left)
        except ValueError:
            r = "!"
        return r + "|" + repr(self.right)


class Bad(object):
    def __init__(self, left, right):
        self.left, self.right = left, right

    def __repr__(self):
        raise ValueError()


class Odd(object):
    """A value which is false, and equal to nothing, itself included."""
    def __init__(self, name):
        self.name = name

    def __bool__(self):
        return False

    def __eq__(self, other):
        return False
    __hash__ = None

    def __repr__(self):
        return "Odd(%s)" % self.name


# Values to pass and to have as defaults: no two are the same object, most are false.
VALUES = [None, "", 0, "text", False, (), [], Odd("1"), {}, b"", Odd("2"), 0.0, set(), frozenset(), Odd("3"),
          True, "None", 1]
NAMES = "abcdez"
# how the attributes the specification calls a to e are called, in the same order
CALLED = [list("abcde"), ["args", "cls", "kw", "name", "self"], ["A", "B_", "_b", "a1", "ab"],
          ["__init", "_self", "class_", "n", u"v\xe9"]]
SPACES = [" ", "\n    ", "  ", "\t"]


class Mixin(object):
    mixed = 0

    def __init__(self):
        self.mixed += 1


class Adapter(object):
    cls = None
    turn = 0

    def __init__(self, init):
        self.nodes = []

    def pick(self, kind, n):
        """The value the specification calls by kind (p, k or d) and the n-th name."""
        return VALUES[(self.turn * 5 + "dpk".index(kind) * 6 + n) % 18]

    def token(self, v):
        for kind in "pkd":
            for n in range(6):
                if self.pick(kind, n) is v:
                    return "p%d" % (n + 1) if kind == "p" else kind + NAMES[n]
        return repr(v)

    def value(self, v):
        return 0 if v == 0 else self.nodes[v - 1]

    def do(self, e):
        k = e["op"]
        if k == "define":
            Adapter.turn = self.turn = Adapter.turn + 1
            self.called = dict(zip("abcde", CALLED[self.turn % len(CALLED)]), z="z")
            kw = {self.called[n]: self.pick("d", NAMES.index(n)) for n in e["defaults"][::1 - self.turn % 2 * 2]}
            sp = SPACES[self.turn // 2 % len(SPACES)]
            names = sp.join(self.called[n] for n in e["names"])
            if self.turn % 5 == 0:
                names = "\n " + names + " "
            a = {"names": (names,), "defaults": (), "two": ("a", "b")}[e["style"]]
            try:
                self.cls = record(*a, **kw)
            except TypeError:
                return ["TypeError"]
            self.mixed = self.turn % 3 == 2
            if self.mixed:
                self.cls = type("Mixed", (self.cls, Mixin), {})
            # the names are what an instance shows, in order
            kw.update({self.called[n]: 1 for n in e["names"]})
            t = repr(self.cls(**{n: 1 for n in kw}))
            self.names = [p.split("=")[0].strip() for p in t[t.index("(") + 1:-1].split(",") if p]
            if self.turn % 3 == 1:
                # a class with attributes and methods of its own
                self.cls = type("Sub", (self.cls,), dict({self.called[n]: "of the class" for n in NAMES}, go=lambda self: 1))
            return [n for m in self.names for n in sorted(self.called) if self.called[n] == m]
        if k == "make":
            other = ["z", "go", "__names__", "__repr__", "y"][(self.turn + e["positional"]) % 5]
            try:
                o = self.cls(*[self.pick("p", i) for i in range(e["positional"])],
                             **{other if n == "z" else self.called[n]: self.pick("k", NAMES.index(n)) for n in e["keywords"]})
            except TypeError:
                return ["TypeError"]
            if self.mixed and o.mixed != 1:
                return ["initialized", o.mixed]
            got = {n: getattr(o, n) for n in self.names}
            t = repr(o)
            order = self.names
            shown = ", ".join("%s=%r" % (n, got[n]) for n in order)
            if not t.endswith("(" + shown + ")"):
                return ["repr differs", t]
            return [self.token(got[n]) for n in order]
        if k == "node":
            a, b = self.value(e["a"]), self.value(e["b"])
            self.nodes.append([a, b] if e["kind"] == "list" else {"R": R, "S": S, "try": Try, "bad": Bad}[e["kind"]](a, right=b))
            return []
        if k in ("link", "forget"):
            n = self.nodes[e["i"] - 1]
            if k == "forget":
                if hasattr(n, "left"):
                    del n.left
            elif isinstance(n, list):
                n["ab".index(e["side"])] = self.value(e["v"])
            else:
                setattr(n, {"a": "left", "b": "right"}[e["side"]], self.value(e["v"]))
            return []
        n = self.nodes[e["i"] - 1]
        if k == "reprs":
            return self.both(n)
        return self.text(n)

    def text(self, n):
        try:
            return repr(n)
        except ValueError:
            return "ValueError"

    def both(self, n):
        right = n.right
        p = n.right = Pause(right)
        got = []
        p.thread = threading.Thread(target=lambda: got.append(self.text(n)))
        p.thread.start()
        try:
            while p.thread.is_alive() and not p.reached.wait(.0005):
                pass
            here = self.text(n)
        finally:
            p.go.set()
            p.thread.join()
            n.right = right
        return [here] + got


def generate(rng):
    def gen():
        if rng.random() < .4:
            names = rng.sample("abcde", rng.randint(0, 5))
            style = rng.choice(["names"] * 5 + ["defaults"])
            d = names[rng.randint(0, len(names)):] if rng.random() < .8 else rng.sample("abcde", 2)
            if style == "defaults":
                names = []
            elif rng.random() < .05:
                d = d + ["z"]
            out = yield {"op": "define", "style": style, "names": names, "defaults": sorted(d)}
            if not isinstance(out, list) or out == ["TypeError"]:
                return
            names = out
            for _ in range(15):
                p = rng.randint(0, len(names) + (rng.random() < .1))
                rest = names[p:]
                kws = [n for n in rest if n not in d or rng.random() < .5]
                if rng.random() < .3:
                    kws = sorted(rng.sample("abcdez", rng.randint(0, 4)))
                yield {"op": "make", "positional": p, "keywords": kws}
        else:
            kinds = []

            def sound(k, v):
                return k not in ("try", "bad") or v == 0 or (k == "try" and kinds[v - 1] != "try")
            odd = rng.random() < .5
            for _ in range(rng.randint(5, 30)):
                r = rng.random()
                if len(kinds) < 5 and (r < .3 or not kinds):
                    k = rng.choice(["R", "S", "list"] + odd * ["try", "bad"])
                    n = len(kinds)
                    a, b = rng.randint(0, n), rng.randint(0, n)
                    if sound(k, a) and sound(k, b):
                        kinds.append(k)
                        yield {"op": "node", "kind": k, "a": a, "b": b}
                elif not kinds:
                    continue
                elif r < .6:
                    i, v = rng.randint(1, len(kinds)), rng.randint(0, len(kinds))
                    if sound(kinds[i - 1], v):
                        yield {"op": "link", "i": i, "side": rng.choice("ab"), "v": v}
                elif r < .63:
                    i = rng.randint(1, len(kinds))
                    if kinds[i - 1] in "RS":
                        yield {"op": "forget", "i": i}
                else:
                    i = rng.randint(1, len(kinds))
                    k = "reprs" if kinds[i - 1] in "RS" and rng.random() < .3 else "repr"
                    yield {"op": k, "i": i}
    return None, gen()


def check(run):
    b = Binding(run, "Record", Adapter)
    b.cover(dict(Names='{"a", "b", "c"}', Kinds="{}", MaxNodes="0"), next="Construction")
    b.cover(dict(Names='{"a"}', Kinds='{"R", "S", "list"}', MaxNodes="2"), next="Graphs")
    b.cover(dict(Names='{"a"}', Kinds='{"R", "try", "bad"}', MaxNodes=run.pick("2", "3")), next="Graphs")
    # a failure in the middle of a larger graph
    b.cover(dict(Names='{"a"}', Kinds='{"R", "try", "bad"}', MaxNodes="4"), next="Graphs", constraint="Shape",
            extra='Shape == \\A i \\in DOMAIN nodes : nodes[i].kind = <<"R", "try", "R", "bad">>[i]\n'
                  '           /\\ nodes[i].a <= MaxNodes /\\ (nodes[i].b # 0 => i = 2)\n'
                  '           /\\ (Len(nodes) < 4 => \\A j \\in DOMAIN nodes : nodes[j].a = 0 /\\ nodes[j].b = 0)')
    if run.thorough:
        b.cover(dict(Names='{"a", "b", "c", "d"}', Kinds="{}", MaxNodes="0"), next="Construction")
        b.cover(dict(Names='{"a"}', Kinds='{"R", "list"}', MaxNodes="3"), next="Graphs", budget=500,
                extra='Whole == \\A i \\in DOMAIN nodes : nodes[i].a <= MaxNodes', constraint="Whole")
    b.histories(dict(Names="{}", Kinds="{}", MaxNodes="5"), generate, run.pick(150, 5000))
