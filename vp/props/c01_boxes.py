"""Juice boxes on the wire against specs/JuiceWire.tla."""
import io
import keyword
import warnings

from epsilon import juice
from vp.bind import Binding, codes, text, tla


class Wire(object):
    disconnecting = False

    def __init__(self):
        self.data = b""

    def write(self, data):
        self.data += data

    def loseConnection(self):
        self.disconnecting = True

    def getPeer(self):
        return "peer"
    getHost = getPeer


class Collector(juice.Juice):
    """Everything of Juice but the dispatch of received boxes."""
    def juiceBoxReceived(self, box):
        self.seen.append(box)


def long(v):
    """A value, or the long one which the specification abbreviates."""
    if v[:1] == [-1]:
        return "\r\n".join([chr(v[1]) * v[2]] * v[3])
    return text(v)


def short(v):
    if len(v) < 5000:
        return codes(v)
    lines = v.split("\r\n")
    if len(set(lines)) == 1 and len(set(lines[0])) == 1:
        return [-1, ord(v[0]), len(lines[0]), len(lines)]
    return ["another", len(v), hash(v)]


class Adapter(object):
    def __init__(self, init=None):
        self.wire = Wire()
        self.sender = Collector(False)
        self.sender.makeConnection(self.wire)
        self.receiver = Collector(True)
        self.receiver.seen = []
        self.receiver.makeConnection(Wire())

    turn = 0

    def box(self, pairs):
        """A box, made in one way or another."""
        Adapter.turn += 1
        how = Adapter.turn % 4
        body = dict(pairs).get("body")
        if how == 0 or not all(isinstance(k, str) for k, v in pairs):
            box = juice.Box()
            for k, v in pairs:
                box[k] = v
        elif how == 1 and body:
            box = juice.Box(body, **dict(p for p in pairs if p[0] != "body"))
        elif how == 2 and "body" in dict(pairs):
            box = juice.Box(**dict(p for p in pairs if p[0] != "body"))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                box.body = body
        else:
            first = juice.Box(**dict(pairs))
            box = first.copy()
            first.clear()
        return box

    def show(self, boxes):
        out = []
        for b in boxes:
            if not isinstance(b, juice.JuiceBox):
                out.append(["not a box", repr(b)])
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if "body" in b and b.body is not b["body"]:
                    out.append(["another body"])
            out.append(["box", [[codes(k), short(v)] for k, v in b.items()]])
        return out

    def do(self, op):
        k = op["op"]
        if k == "parse":
            out = self.show(juice.parseString(self.wire.data))
            if self.show(juice.parse(io.BytesIO(self.wire.data))) != out:
                return ["text and file differ"]
            return out
        if k == "send":
            box = self.box([(text(key), long(v)) for key, v in op["box"]])
            n = len(self.wire.data)
            box.sendTo(self.sender)
            return [["wrote", len(self.wire.data) - n]]
        if k == "inject":
            self.wire.data += bytes(op["bytes"])
            return []
        data, self.wire.data = self.wire.data[:op["n"]], self.wire.data[op["n"]:]
        self.receiver.seen = []
        bad = []
        try:
            self.receiver.dataReceived(data)
        except Exception:
            bad = [["malformed"]]
        return self.show(self.receiver.seen) + bad


def project(out):
    if not isinstance(out, list):
        return out
    return [[e[0], sorted(e[1])] if e[0] == "box" else e for e in out]


KW = [codes(k) for k in keyword.kwlist if k == k.lower()]


def box(*pairs):
    return [[codes(k), codes(v)] for k, v in pairs]


def consts(boxes, foreign=(), pipe=2, deliver=9999):
    return dict(Boxes="{%s}" % ", ".join(tla(b) for b in boxes),
                Foreign="{%s}" % ", ".join(tla(list(f)) for f in foreign),
                Keywords="{%s}" % ", ".join(tla(k) for k in KW),
                MaxPipe=str(pipe), MaxDeliver=str(deliver))


SINGLES = [
    box(), box(("a", "")), box(("a", "x")), box(("body", "")), box(("body", "q")),
    box(("a", "\r\n")), box(("a", "x\r")), box(("a", "\n")), box(("a", "\r\nb: c")),
    box(("a", "\r\n\r\n")), box(("a", " x ")), box(("a", ": ")), box(("a_b", "1"), ("c", "2")),
    box(("_ask", "1"), ("_command", "go"), ("body", "x\r\n\r\ny")),
    box(("class", "k"), ("Import", "i")), box(("A", "u")), box(("body", "\u00e9")),
    box(("v", "\u20ac\U0001f600"), ("body", "\u20ac")), box(("a", "\r\r\n\n")),
    box(("body", "\r\n"), ("z", "-1")), box(("a", "1"), ("body", "0123456789")),
    box(("\tk", "v")), box(("k ", "v"), ("k", "w")), box(("a b\t", "v")), box(("x:y", "z")), box(("n\u00e9_t", "v"), ("\u20ac", "w")), box(("\x0ck", "v")),
]
FOREIGN = [
    b"KEY: v\r\n\r\n", b"k: a\r\n b\r\n\r\n", b"-Length: 2\r\nX-Y: 1\r\n\r\n\r\n",
    b"x: 1\r\nX: 2\r\n\r\n", b"-LENGTH: 1\r\n\r\n:",
    b"_ask: 1\r\n-Command: c\r\n\r\n", b"from: f\r\n\r\n", b"-Length: 0\r\n\r\n",
    b"k: a\r\n \r\n \r\n\r\n", b"K\xc3\xa9Y: \xc3\x89\r\n\r\n", b"a: b: c\r\n\r\n", b"a: 1\r\n\r\n",
]
BAD = [b"oops\r\n\r\n", b" x: 1\r\n\r\n", b"a:b\r\n\r\n", b"-Length: x\r\n\r\n", b"-Length: -1\r\n\r\n",
       b"-Length: 1.5\r\n\r\n", b"-Length: \r\n\r\n", b"a: \xff\r\n\r\n", b"-Length: 1\r\n\r\n\xff",
       b"a: 1\r\nb\r\n\r\n", b"a: 1\r\n\xfe: 2\r\n\r\n", b"-Length: 1\r\n 2\r\n\r\n"]
PAIRED = [box(("body", "q\r")), box(("a", "\r\n")), box(("b", "1"), ("body", "xy"))]


def generate(rng):
    chars = "aZ9-_: \r\n\t\x00\u00e9\u20ac\U0001f600"

    def value():
        n = rng.choice([0, 1, 2, 5, 9, 30])
        return "".join(rng.choice(chars + "\r\n\r\n" + "abc") for _ in range(n))

    def gen():
        left = 0
        for _ in range(rng.randint(2, 8)):
            clean = not left
            for _ in range(rng.choice([1, 1, 1, 2, 5])):
                if rng.random() < .2:
                    w = rng.choice(FOREIGN)
                    yield {"op": "inject", "bytes": list(w)}
                    left += len(w)
                else:
                    keys = set()
                    pairs = []
                    for _ in range(rng.choice([0, 1, 2, 3, 6])):
                        k = "".join(rng.choice("abXY_-09" if rng.random() < .8 else "aB -\t:#\x0c.") for _ in range(rng.randint(1, 8)))
                        k = rng.choice([k, k, k, "body", "_ask", "class", "while", "a_b_c", "_command"])
                        if k[0] == " " or ": " in k or k[-1] == ":":
                            continue
                        nk = juice_norm(k)
                        if nk not in keys and nk != "_length":
                            if nk == "body":
                                k = "body"
                            keys.add(nk)
                            pairs.append((k, value()))
                    out = yield {"op": "send", "box": box(*pairs)}
                    if not isinstance(out, list):
                        return
                    left += out[0][1]
            if clean and rng.random() < .3:
                yield {"op": "parse"}
            style = rng.choice(["all", "bytes", "mixed", "leave"])
            while left:
                n = {"all": left, "bytes": 1, "mixed": rng.randint(1, 20),
                     "leave": rng.randint(1, 60)}[style]
                n = min(n, left)
                left -= n
                yield {"op": "deliver", "n": n}
                if style == "leave" and rng.random() < .5:
                    break
        if left:
            yield {"op": "deliver", "n": left}
    return None, gen()


def juice_norm(k):
    return k.lower().replace("-", "_")


def big(rng):
    """Long values: lines of up to a million bytes, bodies of any length."""
    def gen():
        for key, unit, n, lines in [("a", "x", 20000, 1), ("a", "x", 1000000, 1), ("a", "\u20ac", 300000, 1),
                                    ("a", "x", 60000, 40), ("body", "x", 20000, 1), ("body", "x", 3000000, 1),
                                    ("body", "\u00e9", 5000, 500), ("b", "\r", 5000, 1), ("b", "\n", 6000, 1)]:
            v = [codes(key), [-1, ord(unit), n, lines]]
            left = 0
            for b in ([[codes("i"), codes("0")], v], [v, [codes("k"), codes("\r\n")]]):
                out = yield {"op": "send", "box": b}
                if not isinstance(out, list):
                    return
                left += out[0][1]
            yield {"op": "parse"}
            size = rng.choice([left, 65536, 100001])
            while left:
                k = min(left, size)
                left -= k
                out = yield {"op": "deliver", "n": k}
                if not isinstance(out, list):
                    return
    return None, gen()


def many(rng):
    def gen():
        n = 0
        for i in range(400):
            out = yield {"op": "send", "box": box(("i", str(i)), ("body", "q"))}
            if not isinstance(out, list):
                return
            n += out[0][1]
        yield {"op": "deliver", "n": n}
    return None, gen()


def check(run):
    b = Binding(run, "JuiceWire", Adapter, project)
    inv = ("Prompt",)
    b.cover(consts(SINGLES, FOREIGN + BAD, 1), inv, randoms=run.pick((50, 20), (500, 40)))
    b.cover(consts(PAIRED, [b"x: 1\r\n\r\n"], 2), inv, randoms=run.pick((50, 20), (500, 40)))
    if run.thorough:
        b.cover(consts(SINGLES, FOREIGN + BAD, 2, 3), inv)
        b.cover(consts(PAIRED[:2], [b"-Length: 1\r\n\r\n\r"], 3), inv)
    b.histories(consts([]), many, 1)
    b.histories(consts([]), big, run.pick(1, 5))
    b.histories(consts([]), generate, run.pick(100, 2500))
