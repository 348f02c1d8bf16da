"""Adapter: specs/Router.tla's operations on epsilon.amprouter."""
from twisted.protocols.amp import BinaryBoxProtocol, Box, IBoxReceiver, IBoxSender, parseString
from twisted.python.failure import Failure
from zope.interface import implementer

from epsilon import amprouter
from vp.bind import Binding

BOXES = {"b0": {}, "b1": {"a": "1"}, "b2": {"a": "1", "_command": "x", "route": "a"},
         "b3": {"_ask": "7", "b": ""}}


class Why(Exception):
    pass


@implementer(IBoxReceiver)
class Receiver(object):
    def __init__(self, owner, index, react, sib):
        self.owner, self.index, self.react, self.sib = owner, index, react, sib
        self.route = None

    # any object will do: one which is false, and equal to the others

    def __len__(self):
        return 0

    def __eq__(self, other):
        return isinstance(other, Receiver)
    __hash__ = None

    def startReceivingBoxes(self, sender):
        o = self.owner
        if not o.again:
            o.event("started", self.index)
        if not (sender is self.route and IBoxSender.providedBy(sender)):
            o.event("wrong-sender", self.index)
        if self.react == "child":
            r = o.bind("auto", "no", 0)
            o.state[len(o.receivers)] = "joined"
            r.connectTo(u"kid")
        elif self.react == "join":
            s = o.routes.get(self.sib)
            if s is not None and o.state[self.sib] == "open":
                o.state[self.sib] = "joined"
                s.connectTo(u"joined")
        elif self.react == "quit":
            o.state[self.index] = "gone"
            self.route.unbind()

    def ampBoxReceived(self, box):
        self.owner.event("got", self.index, self.owner.boxid(box))

    def stopReceivingBoxes(self, reason):
        o = self.owner
        o.event("stopped", self.index, "why" if reason is o.reason else "?")
        if self.react == "drop":
            self.route.unbind()


@implementer(IBoxSender)
class Sender(object):
    def __init__(self, owner):
        self.owner = owner

    def sendBox(self, box):
        box = dict(box)
        r = box.pop("_route", None)
        self.owner.event("sent", "none" if r is None else r, self.owner.boxid(box))

    def unhandledError(self, failure):
        self.owner.event("error", self.owner.failures.index(failure) + 1
                         if failure in self.owner.failures else "?")


class Adapter(object):
    def __init__(self, init=None):
        self.router = amprouter.Router()
        self.events = []
        self.receivers = []
        self.routes = {}
        self.state = {}
        self.issued = []           # every identifier the router ever chose
        self.minted = []
        self.reason = Failure(Why("over"))
        self.failures = []
        self.remote = {}
        self.again = False
        self.sends = 0

    def event(self, *e):
        self.events.append(list(e))

    def boxid(self, box):
        for k, v in BOXES.items():
            if dict(box) == v:
                return k
        return repr(sorted(dict(box).items()))

    def actual(self, name):
        if name == "none":
            return None
        if name.startswith("#"):
            r = self.routes.get(int(name[1:]))
            return r.localRouteName
        if name.startswith("@"):
            return self.minted[int(name[1:]) - 1]
        return name

    def fresh(self, name):
        used = self.issued + [r.localRouteName for i, r in self.routes.items()
                              if self.state[i] != "gone"]
        self.event("fresh" if isinstance(name, str) and name not in used else "stale")
        self.issued.append(name)

    def receiver(self, i, react, sib):
        return Receiver(self, i, react, sib)

    def bind(self, name, react, sib):
        i = len(self.receivers) + 1
        rc = self.receiver(i, react, sib)
        self.receivers.append(rc)
        if name == "auto":
            route = self.router.bindRoute(rc)
            self.fresh(route.localRouteName)
        else:
            n = self.actual(name)
            for j, r in self.routes.items():
                if r.localRouteName == n:
                    self.state[j] = "gone"
            route = self.router.bindRoute(rc, n)
            if route.localRouteName != n:
                self.event("misnamed", i)
        rc.route = route
        self.routes[i] = route
        self.state[i] = "open"
        return route

    def do(self, op):
        self.events = []
        k = op["op"]
        if k == "bind":
            self.bind(op["name"], op["react"], op["sib"])
        elif k == "mkid":
            n = self.router.createRouteIdentifier()
            self.fresh(n)
            self.minted.append(n)
        elif k == "connect":
            self.state[op["i"]] = "joined"
            self.remote[op["i"]] = op["remote"]
            self.routes[op["i"]].connectTo(None if op["remote"] == "none" else op["remote"])
        elif k == "reconnect":
            # whether its receiver is started again is not specified
            self.again = True
            self.remote[op["i"]] = op["remote"]
            self.routes[op["i"]].connectTo(None if op["remote"] == "none" else op["remote"])
            self.again = False
        elif k == "unbind":
            self.state[op["i"]] = "gone"
            self.routes[op["i"]].unbind()
        elif k == "start":
            self.router.startReceivingBoxes(Sender(self))
        elif k == "stop":
            self.router.stopReceivingBoxes(self.reason)
        elif k == "recv":
            box = dict(BOXES[op["box"]])
            n = self.actual(op["name"])
            if n is not None:
                box["_route"] = n
            try:
                self.router.ampBoxReceived(box)
            except Exception:
                self.event("refused")
        elif k == "send":
            box = dict(BOXES[op["box"]])
            self.sends += 1
            if self.sends % 2 and self.remote.get(op["i"], "none") != "none":
                box["_route"] = "another"       # it was sent by another route before
            try:
                self.routes[op["i"]].sendBox(box)
            except amprouter.RouteNotConnected:
                self.event("notconnected")
        elif k == "fail":
            f = Failure(Why(str(op["i"])))
            self.failures = [None] * (op["i"] - 1) + [f]
            self.routes[op["i"]].unhandledError(f)
        return self.events


class Many(Receiver):
    """The receiver of all of the routes."""
    def __init__(self, owner):
        self.mine = []
        Receiver.__init__(self, owner, 0, "no", 0)

    route = property(lambda self: None, lambda self, route: self.mine.append(route))

    def startReceivingBoxes(self, sender):
        o = self.owner
        if not o.again:
            o.event("started", 0)
        if not any(sender is r for r in self.mine):
            o.event("wrong-sender", 0)


class Shared(Adapter):
    """The same receiver bound again and again."""
    only = None

    def receiver(self, i, react, sib):
        if self.only is None:
            self.only = Many(self)
        return self.only


def shared(p):
    """Which route a receiver heard of does not show."""
    def q(out):
        return p([[e[0], 0] + e[2:] if e[0] in ("got", "started", "stopped") else e for e in out]
                 if isinstance(out, list) else out)
    return q


def sharing(run, p, **consts):
    b = Binding(run, "Router", Shared, shared(p))
    b.cover(dict(dict(MaxRoutes="3", Literals='{"none", "a"}', Remotes='{"r"}', Boxes="{}", Reacts='{"no"}', MaxIds="0"),
                 **consts), INVARIANTS, PROPERTIES, name="one receiver", budget=run.pick(30, 300))
    b.histories(dict(MaxRoutes="9", Literals="{}", Remotes="{}", Boxes="{}", Reacts="{}", MaxIds="9"),
                lambda rng: (None, generate(rng, 8, 60, ("no",))), run.pick(30, 500))


ORDER = ("got", "sent", "error", "refused", "notconnected")


def project(kinds):
    def p(out):
        if not isinstance(out, list):
            return out
        return sorted((e for e in out if e[0] in kinds), key=repr)
    return p


DISPATCH = project(("got", "sent", "error", "refused", "notconnected", "misnamed"))
LIFECYCLE = project(("fresh", "stale", "started", "stopped", "wrong-sender"))


def generate(rng, nmax, length, reacts=("no", "no", "child", "join", "quit", "drop")):
    """A random history: the operations the specification allows."""
    routes = []     # dicts mirrored
    up = "new"
    ids = 0

    def bindmirror(name, react, sib):
        i = len(routes) + 1
        nm = "#%d" % i if name == "auto" else name
        for r in routes:
            if r["bound"] and r["name"] == nm:
                r["bound"] = False
        routes.append({"name": nm, "remote": None, "bound": True, "react": react, "sib": sib})
        return i

    def start(i):
        r = routes[i - 1]
        if r["react"] == "child":
            k = bindmirror("auto", "no", 0)
            routes[k - 1]["remote"] = "kid"
        elif r["react"] == "join":
            s = r["sib"]
            if 1 <= s <= len(routes) and routes[s - 1]["bound"] and routes[s - 1]["remote"] is None:
                routes[s - 1]["remote"] = "joined"
                start(s)
        elif r["react"] == "quit":
            r["bound"] = False
    for _ in range(length):
        ops = ["bind"] * 3 * (len(routes) < nmax) + ["mkid"]
        if routes:
            ops += ["connect"] * 4 + ["unbind", "send", "send", "recv", "recv", "recv", "fail"]
        ops += ["start"] + ["stop"] * (rng.random() < .1)
        k = rng.choice(ops)
        i = rng.randint(1, len(routes)) if routes else 0
        r = routes[i - 1] if routes else None
        if k == "bind":
            auto = ids or any(x["name"].startswith("#") for x in routes)
            n = rng.choice(["auto", "auto", "none", "a", "b", "ab", "A", "a b"]
                           + ([] if auto else ["0", "1", "2", "3"])
                           + ["@%d" % (j + 1) for j in range(ids)][:2])
            rx = rng.choice(reacts)
            s = rng.randint(1, nmax) if rx == "join" else 0
            bindmirror(n, rx, s)
            yield {"op": "bind", "name": n, "react": rx, "sib": s}
        elif k == "mkid":
            ids += 1
            yield {"op": "mkid"}
        elif k == "connect" and r["bound"] and r["remote"] is None:
            rem = rng.choice(["none", "x", "0", "\u00e9", ""])
            r["remote"] = rem
            if up == "up":
                start(i)
            yield {"op": "connect", "i": i, "remote": rem}
        elif k == "connect" and r["bound"] and r["react"] in ("no", "drop") and rng.random() < .3:
            r["remote"] = rng.choice(["none", "x", "y", ""])
            yield {"op": "reconnect", "i": i, "remote": r["remote"]}
        elif k == "unbind" and any(x["bound"] and x["name"] == r["name"] for x in routes):
            r["bound"] = False
            yield {"op": "unbind", "i": i}
        elif k == "start" and up == "new" and rng.random() < .3:
            up = "up"
            for j in [j for j, x in enumerate(routes, 1) if x["bound"] and x["remote"] is not None]:
                start(j)
            yield {"op": "start"}
        elif k == "stop" and up == "up":
            yield {"op": "stop", "reason": "why"}
            return
        elif k == "recv" and up == "up":
            n = rng.choice(["none", "zzz", "a"] + ([r["name"]] * 3 if r["bound"] or r["name"].startswith("#") else []))
            yield {"op": "recv", "name": n, "box": rng.choice(sorted(BOXES))}
        elif k == "send" and (up == "up" or r["remote"] is None):
            yield {"op": "send", "i": i, "box": rng.choice(sorted(BOXES))}
        elif k == "fail" and up == "up":
            yield {"op": "fail", "i": i}
    if up == "up":
        yield {"op": "stop", "reason": "why"}


INVARIANTS = ("OneHolder", "LiveMeansConnected", "UpMeansLive", "FreshAutos")
PROPERTIES = ("StartedOnce", "StoppedIsFinal")


class Pipe(object):
    """The transport of a real AMP connection."""
    disconnecting = False

    def __init__(self):
        self.data = b""

    def write(self, data):
        self.data += data

    def writeSequence(self, seq):
        self.data += b"".join(seq)

    def loseConnection(self):
        self.disconnecting = True

    def getPeer(self):
        return "peer"
    getHost = getPeer


class Wired(Adapter):
    """The same operations, with the router on a real AMP connection: boxes go
    out and come in as bytes."""
    def do(self, op):
        self.events = []
        k = op["op"]
        if k == "start":
            self.amp = BinaryBoxProtocol(self.router)
            self.amp.makeConnection(Pipe())
            return self.events
        if k == "recv":
            box = Box({x.encode("utf-8"): y.encode("utf-8") for x, y in BOXES[op["box"]].items()})
            n = self.actual(op["name"])
            if n is not None:
                box[b"_route"] = n.encode("utf-8")
            try:
                self.amp.dataReceived(box.serialize())
            except Exception:
                self.event("refused")
            return self.events
        if k == "send":
            self.amp.transport.data = b""
            box = Box({x.encode("utf-8"): y.encode("utf-8") for x, y in BOXES[op["box"]].items()})
            try:
                self.routes[op["i"]].sendBox(box)
            except amprouter.RouteNotConnected:
                self.event("notconnected")
                return self.events
            for b in parseString(self.amp.transport.data):
                r = b.pop(b"_route", None)
                self.event("sent", "none" if r is None else r.decode("utf-8"), self.boxid(b))
            return self.events
        return Adapter.do(self, op)

    def boxid(self, box):
        return Adapter.boxid(self, {k.decode("utf-8"): v.decode("utf-8") for k, v in box.items()})


def wired():
    """Histories on a real AMP connection: without names, and with them."""
    def bind(name):
        return {"op": "bind", "name": name, "react": "no", "sib": 0}
    for remote in ("none", "r"):
        yield [bind("none"), {"op": "connect", "i": 1, "remote": remote}, {"op": "start"},
               {"op": "send", "i": 1, "box": "b2"}]
    for name in ("none", "a"):
        yield [bind(name), {"op": "connect", "i": 1, "remote": "none"}, {"op": "start"},
               {"op": "recv", "name": name, "box": "b2"}]
    yield [bind("none"), bind("a"), {"op": "connect", "i": 1, "remote": "none"},
           {"op": "connect", "i": 2, "remote": "none"}, {"op": "start"},
           {"op": "recv", "name": "a", "box": "b1"}]
