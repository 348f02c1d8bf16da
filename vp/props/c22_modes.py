"""Modal objects against specs/Modes.tla."""
from epsilon.modal import Modal, ModalType, mode
from vp.bind import Binding, tla

CLASSES = [
    dict(attribute="mode", initial="alpha", modes=[
        dict(name="alpha", methods=["one", "two", "__enter__", "__exit__"]),
        dict(name="beta", methods=["two", "three", "__enter__", "__exit__"]),
        dict(name="nil", methods=["one"])]),
    dict(attribute="state", initial="beta", modes=[
        dict(name="alpha", methods=["one", "__enter__", "__exit__"]),
        dict(name="beta", methods=["one", "two", "__enter__", "__exit__"]),
        dict(name="nil", methods=["two", "__enter__", "__exit__"])]),
    dict(attribute="_where", initial="gamma", modes=[
        dict(name="gamma", methods=["three", "__exit__"]),
        dict(name="beta", methods=["__enter__", "two"])]),
    # with the mode every Modal has
    dict(attribute="mode", initial="nil", modes=[
        dict(name="nil", methods=["__enter__", "__exit__"]),
        dict(name="alpha", methods=["one", "__enter__", "__exit__"]),
        dict(name="beta", methods=["one", "two", "__enter__"])]),
]


def make(spec, how, turn):
    """The class a specification describes."""
    attr = str(spec["attribute"])
    modes = [m for m in spec["modes"] if m["name"] != "nil" or spec["initial"] != "nil"]
    if len(modes) < len(spec["modes"]) and how == 5:
        how = 0

    def method(m, f):
        def run(self):
            if f == "__enter__":
                self.log.append(["enter", m, getattr(self, attr)])
            elif f == "__exit__":
                self.log.append(["exit", m, getattr(self, attr)])
            else:
                self.check()
                return [m, f]
        run.__name__ = str(f)
        return run

    def plain(self):
        self.check()
        return ["plain", getattr(self, attr)]

    def hop(self, m, f):
        setattr(self, attr, m)
        return getattr(self, f)()

    def leap(self, m, f):
        self.transitionTo(m)
        return getattr(self, f)()

    def init(self):
        self.log = []
        self.identity = id(self)

    def check(self):
        assert self.identity == id(self)
    ns = dict(plain=plain, hop=hop, leap=leap, check=check)
    own = dict(modeAttribute=attr, initialMode=spec["initial"])
    ns["__init__"] = init
    if turn % 2:
        ns["__doc__"] = "What it is."
    for k, m in enumerate(modes):
        fs = {str(f): method(m["name"], f) for f in m["methods"]}
        bases = (mode,)
        if turn // 2 % 3 and how != 8:      # methods a mode inherits are its own
            mine = sorted(fs)[(turn + k) % 3::3]
            given = {f: fs.pop(f) for f in sorted(fs) if f not in mine}
            if turn // 2 % 3 == 1:
                bases = (type(str("Given"), (mode,), given),)
            else:
                bases = (type(str("Given"), (object,), given), mode)
        if turn // 4 % 2:
            fs["__doc__"] = "What it does then."
        ns[str(m["name"])] = type(str(m["name"]), bases, fs)

    def new(name, *bases, **ns):
        return ModalType(str(name), bases, ns)
    if how == 0:
        cls = new("Thing", Modal, **(dict(ns, **own) if len(modes) == len(spec["modes"]) else ns))
    elif how == 1:       # a subclass is the same machine
        cls = new("Sub", new("Thing", Modal, **dict(ns, **own)))
    elif how == 2:       # where the mode is kept and which is the first, from a base
        cls = new("Thing", Mixin, new("Base", Modal, **own), **ns)
    elif how == 3:       # from the base of a base, but for the first mode
        base = new("Between", new("Base", Modal, modeAttribute=attr, initialMode="elsewhere"), Mixin)
        cls = new("Thing", base, initialMode=spec["initial"], **ns)
    elif how == 4:       # from the first of two machines
        cls = new("Thing", new("First", Mixin, Modal, **own),
                  new("Second", Modal, modeAttribute="other", initialMode="elsewhere"), **ns)
    elif how == 6:       # kept elsewhere than in the base, whose methods follow
        base = dict(own, modeAttribute="other", initialMode="elsewhere")
        cls = new("Sub", new("Thing", Modal, **dict(ns, **base)), **own)
    elif how in (7, 8):  # some of the modes, or all but for some methods, from a base
        sub, modes = {}, [str(m["name"]) for m in modes]
        for i, m in enumerate(modes):
            if how == 8:
                given, ns[m] = ns[m], type(m, (mode,), {})
                sub[m] = type(m, (mode,), {})
                for j, f in enumerate(sorted(f for f in vars(given) if callable(vars(given)[f]))):
                    setattr([sub, ns][(i + j) % 2][m], f, vars(given)[f])
                    if (i + j) % 2 == 0 and j % 3 == 0:      # another in the base, which does not count
                        setattr(ns[m], f, plain)
            elif i % 2:
                sub[m] = ns.pop(m)
        cls = new("Sub", new("Thing", Modal, **dict(ns, **own)), Mixin, **sub)
    elif how == 9:       # whichever of two counts, it is one
        base = new("Base", Modal, **own)
        cls = new("Thing", new("First", base), new("Second", base, modeAttribute="other"), **ns)
        attr = cls.modeAttribute
    else:                # without Modal
        cls = new("Thing", Mixin, **dict(ns, transitionTo=Modal.__dict__["transitionTo"], **own))
    return cls, attr


class Mixin(object):
    pass


class Adapter(object):
    CLASSES = CLASSES
    turn = 0

    def __init__(self, init):
        Adapter.turn += 1
        self.classes = [make(c, (i + self.turn) % 10, self.turn // 10) for i, c in enumerate(self.CLASSES)]
        self.objects = []
        self.sets = 0

    def do(self, e):
        k = e["op"]
        if k == "new":
            c, a = self.classes[e["class"] - 1]
            o = c()
            self.objects.append((o, a))
            return [getattr(o, a) or ""]
        if k == "define":
            ns = {}
            if e["attribute"]:
                ns["modeAttribute"] = "state"
            if e["initial"]:
                ns["initialMode"] = "one"
            bases = {"none": (), "plain": (Mixin,), "modal": (Mixin, Modal)}[e["base"]]
            try:
                c = ModalType("New", bases, ns)
            except TypeError:
                return ["TypeError"]
            return [c.modeAttribute, getattr(c(), c.modeAttribute)]
        if k == "unbound":
            try:
                getattr(self.classes[e["class"] - 1][0], e["method"])
            except AttributeError:
                return ["AttributeError"]
            return ["found"]
        o, a = self.objects[e["i"] - 1]
        if k == "where":
            docs = {c.__doc__ for c in type(o).__mro__ if isinstance(c, ModalType)}
            if not docs <= {None, "What it is."} or not isinstance(o.__doc__, (str, type(None))):
                return ["misdocumented", sorted(map(str, docs))]
            return [getattr(o, a) or ""]
        if k == "plain":
            r = o.plain()
            return [r[0], r[1] or ""]
        if k == "set":
            self.sets += 1
            setattr(o, a, e["mode"] or ["", None, 0, (), False][self.sets % 5])
            return []
        if k == "go":
            del o.log[:]
            o.transitionTo(e["mode"])
            return list(o.log)
        try:
            if k == "call":
                return getattr(o, e["method"])()
            if k == "leap":
                del o.log[:]
                return o.log + [o.leap(e["mode"], e["method"])]
            return o.hop(e["mode"], e["method"])
        except AttributeError:
            return o.log + [["AttributeError"]] if k == "leap" else ["AttributeError"]


def generate(rng):
    def gen():
        objs = []
        for _ in range(50):
            r = rng.random()
            if not objs or (r < .1 and len(objs) < 5):
                c = rng.randrange(4)
                objs.append([c, CLASSES[c]["initial"]])
                yield {"op": "new", "class": c + 1}
                continue
            i = rng.randrange(len(objs))
            c, m = objs[i]
            modes = {x["name"]: x["methods"] for x in CLASSES[c]["modes"]}
            k = rng.choice(["call", "call", "plain", "set", "go", "go", "hop", "leap", "where", "unbound", "define"])
            to = rng.choice(sorted(modes))
            if k == "set" and rng.random() < .3:
                to = rng.choice(["", "elsewhere", "nil"])
            f = rng.choice(["one", "two", "three"])
            if k == "call":
                yield {"op": k, "i": i + 1, "method": f}
            elif k in ("plain", "where"):
                yield {"op": k, "i": i + 1}
            elif k == "set":
                objs[i][1] = to
                yield {"op": k, "i": i + 1, "mode": to}
            elif k == "go":
                if m in modes:
                    objs[i][1] = to
                    yield {"op": k, "i": i + 1, "mode": to}
            elif k == "define":
                yield {"op": k, "attribute": rng.random() < .7, "initial": rng.random() < .7,
                       "base": rng.choice(["none", "plain", "modal"])}
            elif k == "leap":
                if m in modes:
                    objs[i][1] = to
                    yield {"op": k, "i": i + 1, "mode": to, "method": f}
            elif k == "hop":
                objs[i][1] = to
                yield {"op": k, "i": i + 1, "mode": to, "method": f}
            elif any(f in x for x in modes.values()):
                yield {"op": k, "class": c + 1, "method": f}
    return None, gen()


def check(run):
    b = Binding(run, "Modes", Adapter)
    cs = tla(CLASSES)
    b.cover(dict(Classes=cs, MaxObjects=run.pick("2", "3")), ("Defined",))
    b.histories(dict(Classes=cs, MaxObjects="9"), generate, run.pick(150, 5000))
