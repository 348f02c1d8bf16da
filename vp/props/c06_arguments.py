"""Typed arguments against specs/JuiceArgs.tla."""
import datetime
import os
import shutil
import tempfile

from twisted.python.filepath import FilePath

from epsilon import juice
from epsilon.extime import Time
from vp.bind import Binding, codes, text, tla
from vp.props.calls import Transport

EPOCH = datetime.datetime(1970, 1, 1)


def split(s):
    d, us = s.split(".")
    return int(d), int(us)


def mktime(s):
    d, us = split(s)
    return Time.fromDatetime(EPOCH + datetime.timedelta(seconds=d, microseconds=us))


def untime(t):
    delta = t.asDatetime().replace(tzinfo=None) - EPOCH
    return "%d.%d" % (delta.days * 86400 + delta.seconds, delta.microseconds)


TRUTH = [False, True, 0, 3, "", "False"]
LINK = "/link-to-a-directory"
SUB = [("x", juice.Integer()), ("y", juice.Unicode(optional=True))]
TREE = [("kids", juice.JuiceList(SUB)), ("u", juice.Unicode()), ("l", juice.ListOf(juice.Integer()))]


def boxes(v):
    """A list of boxes; the second argument of each is optional."""
    return [dict([("x", int(text(b[0])))] + [("y", text(y)) for y in b[1:]]) for b in v]


def unboxes(o):
    return [[codes(str(chk(d["x"], int)))] + ([] if d["y"] is None else [codes(chk(d["y"], str))])
            for d in chk(o, list) if set(d) == {"x", "y"} or chk(d, bool)]


# type name -> (argument class, spec value -> object, object -> spec value)
TYPES = {
    "Integer": (juice.Integer, lambda v: int(text(v)), lambda o: codes(str(chk(o, int)))),
    "String": (juice.String, text, lambda o: codes(chk(o, str))),
    "Unicode": (juice.Unicode, text, lambda o: codes(chk(o, str))),
    "Boolean": (juice.Boolean, lambda v: TRUTH[v[0]], lambda o: [int(chk(o, bool))]),
    "Float": (juice.Float, lambda v: float(text(v)), lambda o: codes(repr(chk(o, float)))),
    "Base64": (juice.Base64Binary, bytes, lambda o: list(chk(o, bytes))),
    "Path": (juice.Path, lambda v: FilePath(text(v)), lambda o: codes(chk(o, FilePath).path)),
    "Time": (juice.Time, lambda v: mktime(text(v)), lambda o: codes(untime(chk(o, Time)))),
    "Encoded": (lambda **k: juice.EncodedString("utf-8"), text, lambda o: codes(chk(o, str))),
    "Ascii": (lambda **k: juice.EncodedString("ascii"), text, lambda o: codes(chk(o, str))),
    "Latin": (lambda **k: juice.EncodedString("iso-8859-1"), text, lambda o: codes(chk(o, str))),
    "Boxes": (lambda **k: juice.JuiceList(SUB), lambda v: boxes(v), lambda o: unboxes(o)),
    "Tree": (lambda **k: juice.JuiceList(TREE),
             lambda v: [dict(kids=boxes(k), u=text(u), l=[int(text(i)) for i in l]) for k, u, l in v],
             lambda o: [[unboxes(chk(d, dict)["kids"]), codes(chk(d["u"], str)),
                         [codes(str(chk(i, int))) for i in chk(d["l"], list)]] for d in chk(o, list)]),
    "Lists": (lambda **k: juice.ListOf(juice.ListOf(juice.Unicode(), "/"), delimiter="; "),
              lambda v: [[text(x) for x in l] for l in v],
              lambda o: [[codes(chk(x, str)) for x in chk(l, list)] for l in chk(o, list)]),
}
for _t in ("Integer", "String", "Unicode", "Boolean", "Base64", "Float", "Time", "Path"):
    _c, _i, _o = TYPES[_t]
    TYPES["ListOf:" + _t] = (
        lambda _c=_c, **k: juice.ListOf(_c()),
        lambda v, _i=_i: [_i(x) for x in v],
        lambda o, _o=_o: [_o(x) for x in chk(o, list)])


def chk(o, t):
    if not isinstance(o, t):
        raise TypeError("%r is not %s" % (o, t.__name__))
    return o


def spelled(n, how):
    return {"same": n, "upper": n.upper(), "lower": n.lower(), "dash": n.replace("_", "-")}[how]


def command(args):
    lst = []
    for a in args:
        make = juice.Body if a["n"] == "body" and a["t"] == "String" else TYPES[a["t"]][0]
        lst.append((a["n"], make(optional=True) if a["opt"] else make()))
    d = dict(commandName="cmd", arguments=lst, response=lst)
    if not args:
        d = {}
    elif len(args) % 2:
        del d["commandName"]        # it is that of the class
    return type("Cmd", (juice.Command,), d)


class Server(juice.Juice):
    def command_CMD(self, **kw):
        return self.owner.served(kw)


class Adapter(object):
    def __init__(self, init=None):
        self.events = []
        self.top = None
        self.client = juice.Juice(False)
        self.server = Server(True)
        self.server.owner = self
        self.client.makeConnection(Transport(self, "C"))
        self.server.makeConnection(Transport(self, "S"))

    def close(self):
        if self.top is not None:
            shutil.rmtree(self.top)

    def link(self):
        """The path of a link to a directory."""
        if self.top is None:
            self.top = tempfile.mkdtemp(prefix="vp-arguments-")
            os.symlink(self.top, os.path.join(self.top, "link"))
        return os.path.join(self.top, "link")

    def event(self, *e):
        self.events.append(["closing"] if e[0] == "closing" else list(e))

    def got(self, kw):
        if set(kw) != set(a["n"] for a in self.args):
            return ["names", sorted(kw)]
        out = []
        for a in self.args:
            o = kw[a["n"]]
            v = o if o is None else TYPES[a["t"]][2](o)
            if a["t"] == "Path" and v is not None and self.top is not None:
                v = codes(text(v).replace(self.link(), LINK))
            out.append([a["n"]] if o is None else [a["n"], v])
        return out

    def served(self, kw):
        self.event("served", self.got(kw))
        r = {}
        for n, v in kw.items():
            if v is not None or self.op["none"]:
                r[spelled(n, self.op["spelling"])] = v
        if self.op["extra"]:
            r["unheard_of"] = object()
        return r

    def pump(self):
        for _ in range(3):
            for x, y in ((self.client, self.server), (self.server, self.client)):
                data, x.transport.data = x.transport.data, b""
                if data and not y.transport.disconnecting:
                    y.dataReceived(data)

    def do(self, op):
        self.events = []
        self.op, self.args = op, op["args"]
        C = command(self.args)
        Server.command_CMD.command = C
        if op["op"] == "bad":
            box = juice.Box(_command="cmd", _ask="1")
            for n, v in op["box"]:
                box[n] = text(v)
            self.client.sendBoxCommand("cmd", box).addCallbacks(
                lambda b: self.event("result"),
                lambda f: self.event(*(["unhandled"] if f.value.errorCode == "UNHANDLED" else [repr(f.value)])))
            self.pump()
            return self.events
        kw = {}
        for a in self.args:
            if a["has"]:
                n = spelled(a["n"], op["spelling"])
                kw[n] = TYPES[a["t"]][1](a["v"])
                if a["t"] == "Path" and text(a["v"]).startswith(LINK):
                    kw[n] = FilePath(kw[n].path.replace(LINK, self.link()))
            elif op["none"] and a["opt"]:
                kw[a["n"]] = None
        if op["extra"]:
            kw["unheard_of"] = object()
        try:
            c = C(**kw)
        except RuntimeError:
            return [["forgot"]]
        try:
            d = c.do(self.client)
        except (AssertionError, UnicodeError):
            if self.client.transport.data:
                self.event("wrote")
            self.event("refused")
            return self.events
        wire = self.client.transport.data
        boxes = juice.parseString(wire)
        self.event("wire", [[a["n"], codes(boxes[0][a["n"]])] for a in self.args
                            if a["has"] and a["n"] in boxes[0] and
                            a["t"].replace("ListOf:", "") in ("Integer", "String", "Unicode", "Boolean", "Base64", "Lists")])
        if "unheard_of" in boxes[0] or len(boxes) != 1:
            self.event("sent too much")
        d.addCallbacks(lambda r: self.event("result", self.got(r)),
                       lambda f: self.event("failed", repr(f.value)[:200]))
        self.pump()
        return self.events


def arg(n, t, v=None, opt=False):
    return {"n": n, "t": t, "opt": opt, "has": v is not None, "v": [] if v is None else v}


def call(*args, **kw):
    d = {"op": "call", "args": list(args), "spelling": "same", "extra": False, "none": False}
    d.update(kw)
    return d


VALUES = {
    "Integer": [codes(str(x)) for x in (0, -1, 7, 1000000, -10 ** 30)],
    "String": [codes(x) for x in ("", "a", " a ", "\r\n", "a\r\nb: c", "\u00e9", ": ")],
    "Unicode": [codes(x) for x in ("", "\u20ac\U0001f600", "x\ny", "\r\n\r\n")],
    "Boolean": [[0], [1], [2], [3], [4], [5]],
    "Float": [codes(repr(x)) for x in (0.0, -1.5, 0.1, 1e300, 5e-324, 1 / 3.)],
    "Base64": [list(x) for x in (b"", b"\0", b"ab", b"\xff\xfe\xfd", bytes(range(100)))],
    "Path": [codes(x) for x in ("/a/b", "/\u00e9 x", LINK, LINK + "/x")],
    "Time": [codes(x) for x in ("0.0", "1165432100.123456", "1165432100.100000", "951782400.1")],
    "Encoded": [codes("a\u20ac")],
    "Ascii": [codes("a"), codes(""), codes("\x7f\r\n: "), codes("a\x80"), codes("\u20ac")],
    "Boxes": [[], [[codes("1"), codes("")]], [[codes("1")], [codes("2"), codes(" ")]], [[codes("-5"), codes("\r\n\u00e9")], [codes("2"), codes(": ")]]],
    "Tree": [[[[[codes("1")], [codes("2"), codes("\r\n\r\n")]], codes("\u20ac: "), [codes("0"), codes("-7")]],
              [[], codes(""), [codes("3")]]], []],
    "Lists": [[[codes("a"), codes("b, c")], [codes("")]], [[codes("a/b")]], [[codes("a"), codes("b; c")]],
              [[codes("a; b")]], [[codes("x;")], [codes(" y")]]],
    "ListOf:Integer": [[codes("1")], [codes("1"), codes("-22")]],
    "ListOf:String": [[codes("a"), codes("b c"), codes("")], [codes("a,"), codes(" b")], [codes("a, b"), codes("c")],
                      [codes("")]],
    "ListOf:Unicode": [[codes("\u20ac"), codes("x,y")]],
    "ListOf:Boolean": [[[1], [0], [1]], [[3], [2]]],
    "ListOf:Base64": [[[1, 2], [255]]],
    "ListOf:Float": [[codes("1.5"), codes("-0.25")]],
    "ListOf:Time": [[codes("10.5"), codes("951782400.0")]],
    "ListOf:Path": [[codes("/a"), codes("/b")]],
}
# names which cannot be parameters of a Python function
RESERVED = [w.title() for w in
            ("and as assert async await break class continue def del elif else except finally for from "
             "global if import in is lambda nonlocal not or pass raise return try while with yield").split()]
OPTIONAL = ("Integer", "String", "Unicode", "Boolean", "Float", "Base64", "Path", "Time")


def calls():
    out = []
    for t, vs in sorted(VALUES.items()):
        for v in vs:
            for n in ("a_b", "body") + (("Class",) if t in ("Integer", "Unicode") else ()):
                out.append(call(arg(n, t, v)))
                if t in OPTIONAL:
                    out.append(call(arg(n, t, v, True)))
        out.append(call(arg("a", t)))
        if t in OPTIONAL:
            out.append(call(arg("a", t, None, True)))
            out.append(call(arg("a", t, None, True), none=True))
    i, s, b = VALUES["Integer"][3], VALUES["String"][4], [1]
    for sp in ("same", "upper", "dash"):
        out.append(call(arg("x_y", "Integer", i), arg("z", "String", s, True), spelling=sp))
        out.append(call(arg("x_y", "Integer", i), arg("z", "String", None, True), extra=True, spelling=sp))
        out.append(call(arg("x_y", "Integer", None), arg("z", "String", s), spelling=sp))
    for n in RESERVED:
        out.append(call(arg(n, "Integer", i), spelling="lower"))
        out.append(call(arg(n, "String", s, True)))
    out.append(call(arg("Class", "Integer", None), arg("z", "Boolean", b), spelling="lower"))
    out.append(call())
    bad = [("Integer", "x"), ("Integer", ""), ("Boolean", "yes"), ("Boolean", "true"), ("Boolean", ""),
           ("Float", "1.x"), ("Time", "yesterday"), ("ListOf:Integer", "1, x"), ("Integer", None), ("String", None),
           ("Ascii", "a\u00e9"), ("Ascii", "\x80"), ("Base64", "YQ")]
    for t, w in bad:
        out.append({"op": "bad", "args": [arg("q", t)],
                    "box": [] if w is None else [["q", codes(w)]]})
    return out


def generate(rng):
    def scalar(t):
        if t == "Integer":
            return codes(str(rng.choice([rng.randint(-5, 5), rng.randint(-10 ** 9, 10 ** 9), rng.getrandbits(200)])))
        if t in ("String", "Unicode", "Encoded"):
            return [ord(rng.choice("ab ,:\r\n-_\t\u00e9\u20ac\U0001f600\x00")) for _ in range(rng.choice([0, 1, 3, 12]))]
        if t == "Ascii":
            return [rng.choice([97, 13, 10, 0, 32, 58, rng.randint(0, 127), rng.randint(0, 160)])
                    for _ in range(rng.choice([0, 1, 3, 12]))]
        if t == "Boolean":
            return [rng.choice([0, 1, 0, 1, 2, 3, 4, 5])]
        if t == "Float":
            return codes(repr(rng.choice([rng.random(), rng.uniform(-1e9, 1e9), rng.random() * 10 ** rng.randint(-300, 300)])))
        if t == "Base64":
            return [rng.randint(0, 255) for _ in range(rng.choice([0, 1, 2, 3, 20, 70]))]
        if t == "Path":
            return codes(rng.choice(["/", LINK + "/"]) + "/".join(rng.choice(["a", "b c", "\u00e9"]) for _ in range(rng.randint(1, 3))))
        return codes("%d.%d" % (rng.randint(0, 4 * 10 ** 9), rng.choice([0, 1, 10, 100000, 999999, rng.randint(0, 999999)])))

    def value(t):
        if t == "Boxes":
            return [[scalar("Integer"), scalar("Unicode")][:rng.choice([1, 2, 2])] for _ in range(rng.choice([0, 1, 2, 5]))]
        if t == "Tree":
            return [[value("Boxes"), scalar("Unicode"), value("ListOf:Integer")] for _ in range(rng.choice([0, 1, 2]))]
        if t == "Lists":
            return [[[ord(rng.choice("ab,;: /\u20ac" if rng.random() < .1 else "ab,: \u20ac")) for _ in range(rng.choice([0, 1, 3]))]
                     for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([1, 2, 3]))]
        if t.startswith("ListOf:"):
            return [scalar(t[7:]) for _ in range(rng.choice([1, 2, 5]))]
        return scalar(t)

    def gen():
        for _ in range(10):
            args = []
            for n in rng.sample(["a", "b_c", "body", "d1", "x_y_z"] + RESERVED, rng.randint(0, 5)):
                t = rng.choice(sorted(set(TYPES) - {"Latin"}))
                opt = t in OPTIONAL and rng.random() < .4
                has = rng.random() < (.6 if opt else .95)
                args.append(arg(n, t, value(t) if has else None, opt))
            yield call(*args, spelling=rng.choice(["same", "same", "upper", "dash"]),
                       extra=rng.random() < .2, none=rng.random() < .3)
    return None, gen()


def check(run):
    b = Binding(run, "JuiceArgs", Adapter)
    b.cover(dict(Calls="{%s}" % ",\n ".join(tla(c) for c in calls())), (), ("Never",),
            randoms=run.pick((30, 20), (300, 40)))
    b.histories(dict(Calls="{}"), generate, run.pick(150, 4000))
    # bytes which are not UTF-8 do not come through
    for n in ("a_b", "body"):
        run.known(lambda: b.histories(dict(Calls="{}"), lambda rng: (
            None, iter([call(arg(n, "Latin", codes("\u00e9")))])), 1))
