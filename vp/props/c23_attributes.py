"""Attributes computed on access against specs/Attributes.tla."""
from epsilon.descriptor import attribute, requiredAttribute
from epsilon.remember import remembered
from vp.bind import Binding


class Oops(Exception):
    pass


VALUES = {"none": None, "zero": 0}
KINDS = ("g", "s", "d", "gs", "gd", "sd", "gsd", "n")


class Token(object):
    def __init__(self, n):
        self.n = n


def creation(name, other):
    def create(self):
        o = self.owner
        o.count += 1
        n = o.count
        o.events.append(["made", self.number, name])
        how, o.how = o.how, "new"
        if how == "fail":
            raise Oops()
        if how == "nested":
            return read(self, other)
        if how in VALUES:
            return VALUES[how]
        return Token(n)
    if name in "pq":
        create.__name__ = str(name)
    elif name in "lm":
        return lambda self: create(self)
    else:
        create.__name__ = "u"
    return create


def read(o, a):
    if a == "v":
        return super(o.overriding, o).u
    return getattr(o, a)


class Base(object):
    p = remembered(creation("p", "q"))
    q = remembered(creation("q", "p"))
    l = remembered(creation("l", "m"))
    m = remembered(creation("m", "l"))
    u = remembered(creation("v", "u"))
    need = requiredAttribute("need")
    cell = 0

    def __init__(self, owner, number):
        self.owner, self.number = owner, number


def get(self):
    return self.cell


def set_(self, value):
    self.cell = value


def delete(self):
    self.cell = 0


ns = {}
for k in KINDS:
    body = {}
    if "g" in k:
        body["get"] = get
    if "s" in k:
        body["set"] = set_
    if "d" in k:
        body["delete"] = delete
    # what "class x(attribute): ..." does inside of a class statement
    ns[str(k)] = type(attribute)(str(k), (attribute,), body)
Thing = type(str("Thing"), (Base,), ns)


class Overriding(Thing):
    u = remembered(creation("u", "v"))


Overriding.overriding = Overriding


class Sub(Overriding):
    pass


# a class by the same name as the one it is derived from, of another module
Twin = type(Base.__name__, (Thing,), {"u": remembered(creation("u", "v")), "__module__": "vp.elsewhere"})
Twin.overriding = Twin


class Later(Overriding):
    """Some of its attributes were added to it later."""


Later.l = remembered(creation("l", "m"))
Later.m = remembered(creation("m", "l"))
Later.p = remembered(creation("p", "q"))


class Empty(Overriding):
    """False, equal to everything and not hashable."""
    def __len__(self):
        return 0

    def __eq__(self, other):
        return True
    __hash__ = None


class Derived(Base):
    need = "its own"


class Adapter(object):
    turn = 0

    def __init__(self, init):
        Adapter.turn += 1
        self.objects = []
        self.events = []
        self.count = 0
        self.known = {}

    def name(self, v):
        if v is None:
            return "None"
        if isinstance(v, Token):
            # the very object which was made
            if self.known.setdefault(v.n, v) is not v:
                return "another"
            return "v%d" % v.n
        return str(v)

    def do(self, e):
        self.events = []
        k = e["op"]
        if k == "new":
            cls = (Overriding, Empty, Sub, Twin, Later)[(self.turn + len(self.objects)) % 5]
            self.objects.append(cls(self, len(self.objects) + 1))
            return []
        if k == "derived":
            return [Derived(self, 0).need]
        o = self.objects[e["i"] - 1]
        if k == "remembered":
            self.how = e["how"]
            try:
                v = [self.name(read(o, e["a"]))]
            except Oops:
                v = ["failed"]
            return v + self.events
        try:
            if k == "get":
                return [getattr(o, e["kind"])]
            if k == "set":
                setattr(o, e["kind"], e["v"])
            elif k == "delete":
                delattr(o, e["kind"])
            elif k == "require":
                return [self.name(o.need)]
            elif k == "drop":
                del o.need
            elif k == "supply":
                o.need = None if e["v"] == "None" else e["v"]
            return []
        except AttributeError:
            return ["AttributeError"]


def generate(rng):
    def gen():
        n = 0
        for _ in range(50):
            if n == 0 or (n < 5 and rng.random() < .1):
                n += 1
                yield {"op": "new"}
                continue
            i = rng.randint(1, n)
            k = rng.choice(["remembered", "remembered", "remembered", "get", "set", "delete", "require", "drop", "supply",
                            "derived"])
            e = {"op": k}
            if k != "derived":
                e["i"] = i
            if k == "remembered":
                e.update(a=rng.choice("ppqqlmuv"), how=rng.choice(["new", "none", "zero", "fail", "fail", "nested"]))
            elif k in ("get", "set", "delete"):
                e["kind"] = rng.choice(KINDS)
            if k == "set":
                e["v"] = rng.randint(1, 9)
            if k == "supply":
                e["v"] = rng.choice(["None", "x", "y"])
            yield e
    return None, gen()


def check(run):
    b = Binding(run, "Attributes", Adapter)
    b.cover(dict(MaxObjects=run.pick("1", "2"), Hows='{"new", "none", "zero", "fail", "nested"}', Attrs='{"p", "q"}'),
            (), ("Once",), budget=run.pick(None, 600))
    b.cover(dict(MaxObjects="2", Hows='{"none", "new"}', Attrs='{"p", "q"}'), (), ("Once",), budget=run.pick(60, 300),
            extra="Plain == \\A i \\in DOMAIN objects : objects[i].cell = 0 /\\ objects[i].req = Nothing",
            constraint="Plain")
    for a in ("{\"l\", \"m\"}", "{\"u\", \"v\"}"):
        b.cover(dict(MaxObjects="1", Hows='{"new", "fail", "nested"}', Attrs=a), (), ("Once",),
                extra="Plain == \\A i \\in DOMAIN objects : objects[i].cell = 0 /\\ objects[i].req = Nothing",
                constraint="Plain")
    b.histories(dict(MaxObjects="9", Hows="{}", Attrs="{}"), generate, run.pick(150, 5000))
