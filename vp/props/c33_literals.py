"""Values from their text against specs/Literals.tla."""
import builtins
import warnings

from epsilon.unrepr import unrepr
from vp.bind import Binding, tla

ATOMS = {
    "int": {"0": "0", "1": "1", "big": str(10 ** 30), "hex": "0x1f", "under": "1_000"},
    "neg": {"1": "-1", "big": str(-10 ** 30)},
    "float": {"half": "0.5", "exp": "1e300", "neg": "-2.5"},
    "complex": {"j": "2j", "sum": "(1+2j)", "diff": "(1-2j)"},
    "str": {"empty": "''", "x": "'x'", "quote": '"it\'s"', "nul": r"'\x00\n'", "uni": u"'\xe9\u20ac'",
            "call": "'vp_touch()'", "two": "'a' 'b'", "raw": r"r'\d'", "doc": "'''a\nb'''"},
    "bytes": {"empty": "b''", "x": "b'x'", "high": r"b'\xff\x00'"},
    "const": {"None": "None", "True": "True", "False": "False"},
    "name": {"x": "vp_name", "int": "int", "none": "none", "inf": "inf", "nan": "nan", "nil": "nil", "null": "null", "true": "true", "false": "false",
             "undefined": "undefined", "NaN": "NaN", "NotImplemented": "NotImplemented", "builtins": "__builtins__"},
    "call": {"touch": "vp_touch()", "int": "int('3')", "import": "__import__('vp_module')"},
    "method": {"m": "'x'.upper()", "j": "','.join(['a'])"},
    "fstring": {"f": "f'{vp_touch()}'", "n": "f'{1}'"},
    "lambda": {"l": "lambda: 1"},
    "assign": {"a": "a = 1"},
    "walrus": {"w": "(a := 1)"},
}
VALUES = {k: {a: eval(t) for a, t in v.items()} for k, v in ATOMS.items()
          if k in ("int", "neg", "float", "complex", "str", "bytes", "const")}


def text(x, turn=0):
    k, kids = x["k"], [text(y, turn) for y in x["kids"]]
    sp = ["", " ", "  "][turn % 3]
    if k in ATOMS:
        return ATOMS[k][x["a"]]
    if k == "tuple":
        return "(" + sp + ",".join(kids) + ("," if len(kids) == 1 else "") + ")"
    if k == "list":
        return "[" + (sp + "," + sp).join(kids) + sp + "]"
    if k == "set":
        return "{" + ("," + sp).join(kids) + "}"
    if k == "dict":
        return "{" + ("," + sp).join(kids[i] + ":" + sp + kids[i + 1] for i in range(0, len(kids), 2)) + "}"
    one = kids[0] if kids else "1"
    return {"attr": "(%s).real", "item": "(%s)[0]", "sum": "(%s)*2", "not": "not (%s)", "compare": "(%s) == 1",
            "if": "(%s) if 1 else 2", "comp": "[y for y in (%s,)]", "star": "[*(%s,)]"}[k] % one


def value(x):
    kids = [value(y) for y in x["kids"]]
    k = x["k"]
    if k in VALUES:
        return VALUES[k][x["a"]]
    if k == "dict":
        return dict(zip(kids[::2], kids[1::2]))
    return {"tuple": tuple, "list": list, "set": set}[k](kids)


def same(a, b):
    """Equal and of the same types throughout."""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(k in b and same(a[k], b[k]) for k in a) and \
            set(map(repr, a)) == set(map(repr, b))
    if isinstance(a, set):
        return set(map(repr, a)) == set(map(repr, b))
    return repr(a) == repr(b)


def spoil(v):
    """Change whatever can be changed in it."""
    if isinstance(v, (list, tuple)):
        for y in v:
            spoil(y)
    if isinstance(v, dict):
        for y in v.values():
            spoil(y)
    if isinstance(v, list):
        v.append("spoilt")
    elif isinstance(v, dict):
        v["spoilt"] = "spoilt"
    elif isinstance(v, set):
        v.add("spoilt")


def literal(x):
    return x["k"] in VALUES or (x["k"] in ("tuple", "list", "dict", "set") and all(map(literal, x["kids"])))


class Adapter(object):
    turn = 0

    def __init__(self, init):
        self.stack = []
        self.touched = []
        builtins.vp_touch = lambda: self.touched.append(1)
        builtins.vp_name = 7

    def do(self, e):
        k = e["op"]
        if k == "atom":
            self.stack.append({"k": e["k"], "a": e["a"], "kids": []})
            return []
        elif k == "pop":
            self.stack.pop()
            return []
        elif k == "wrap":
            n = len(self.stack) - e["n"]
            self.stack, kids = self.stack[:n], self.stack[n:]
            self.stack.append({"k": e["k"], "a": "", "kids": kids})
            return []
        Adapter.turn += 1
        x = self.stack[-1]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                got = unrepr(text(x, Adapter.turn))
                r = ["value", got]
            except (ValueError, SyntaxError, TypeError):
                r = ["refused"]
        if self.touched:
            return ["executed"]
        if r[0] == "value":
            if not literal(x):
                return ["value", repr(got)]
            v = value(x)
            if not same(got, v):
                return ["wrong", repr(got)]
            # and by way of its own representation
            if not same(unrepr(repr(v)), v):
                return ["representation", repr(v)]
            # and again, whatever became of the first
            spoil(got)
            if not same(unrepr(text(x, Adapter.turn)), v):
                return ["changed", repr(v)]
            return ["value", x]
        return r

    def close(self):
        del builtins.vp_touch, builtins.vp_name


WRAPS = ["tuple", "list", "dict", "set"]
OTHERS = ["attr", "item", "sum", "not", "compare", "if", "comp", "star"]


def generate(rng):
    bad = rng.random() < .4

    def atom():
        k = rng.choice(sorted(VALUES))
        if bad and rng.random() < .08:
            k = rng.choice(sorted(set(ATOMS) - set(VALUES)))
        return {"k": k, "a": rng.choice(sorted(ATOMS[k])), "kids": []}

    def tree(depth, hashable=False):
        if not depth or rng.random() < .3:
            return atom()
        if bad and rng.random() < .06:
            return {"k": rng.choice(OTHERS), "a": "", "kids": [tree(depth - 1)]}
        k = "tuple" if hashable and rng.random() < .95 else rng.choice(WRAPS)
        kids = []
        keys = []
        for _ in range(rng.randrange(4)):
            x = tree(depth - 1, hashable or k in ("set", "dict"))
            if k in ("set", "dict"):
                # no two which are equal as values, such as 1 and True
                try:
                    v = value(x)
                    if v in keys:
                        continue
                    keys.append(v)
                except (KeyError, TypeError):
                    if x in keys:
                        continue
                    keys.append(x)
            kids.append(x)
            if k == "dict":
                kids.append(tree(depth - 1))
        if k == "set" and not kids:
            k = "list"
        return {"k": k, "a": "", "kids": kids}

    def ops(x):
        for y in x["kids"]:
            for o in ops(y):
                yield o
        if x["k"] in ATOMS:
            yield {"op": "atom", "k": x["k"], "a": x["a"]}
        else:
            yield {"op": "wrap", "k": x["k"], "n": len(x["kids"])}

    def gen():
        for _ in range(6):
            for o in ops(tree(3)):
                yield o
            yield {"op": "unrepr"}
    return None, gen()


def check(run):
    b = Binding(run, "Literals", Adapter)
    b.together = False      # they share what is one per process
    every = [(k, a) for k in ATOMS for a in ATOMS[k]]

    def sets(xs):
        return "{%s}" % ", ".join(tla(list(x)) for x in xs)
    wraps = [(k, n) for k in ("tuple", "list", "set", "dict") for n in range(3) if not (k == "set" and n == 0)] + \
        [(k, 1) for k in OTHERS]
    wraps = [w for w in wraps if w != ("dict", 1)]
    b.cover(dict(Atoms=sets(every), Wraps=sets(wraps), MaxStack="1", MaxBuilt="2"), (), ("Pure",), name="every atom")
    few = wraps if run.thorough else [w for w in wraps if w[0] not in OTHERS[2:]]
    b.cover(dict(Atoms=sets([("int", "1"), ("str", "x"), ("call", "touch")]), Wraps=sets(few), MaxStack="2",
                 MaxBuilt=run.pick("4", "5")), (), ("Pure",), name="nested", randoms=(20, 10))
    b.histories(dict(Atoms="{}", Wraps="{}", MaxStack="0", MaxBuilt="0"), generate, run.pick(200, 4000))
