"""Adapter: specs/JuiceCalls.tla's operations on a pair of Juice protocols."""
from twisted.internet import defer, error
from twisted.python.failure import Failure

from epsilon import juice


class Declared(Exception):
    pass


class Sub(Declared):
    pass


class Declared2(Exception):
    pass


class Derived(Sub):
    pass


class FatalSub(Declared2):
    pass


class Fatal(Exception):
    pass


class Secret(Exception):
    pass


class Gone(Exception):
    pass


class Cmd(juice.Command):
    arguments = [("r", juice.Integer()), ("payload", juice.Unicode())]
    response = [("r", juice.Integer()), ("payload", juice.Unicode())]
    errors = {Declared: "E1", Declared2: "E2", Derived: "E3"}
    fatalErrors = {Fatal: "F", FatalSub: "G"}


def command(nm, **kw):
    d = dict(commandName=nm, arguments=Cmd.arguments, response=Cmd.response,
             errors=Cmd.errors, fatalErrors=Cmd.fatalErrors)
    d.update(kw)
    return type("Cmd_" + nm.replace("-", ""), (juice.Command,), d)


EXTRA = [("who", juice.Peer()), ("whoDomain", juice.PeerDomain()), ("whoUser", juice.PeerUser()),
         ("me", juice.Host()), ("meDomain", juice.HostDomain()), ("meUser", juice.HostUser())]

# nor can the peer say anything else about the connection
FORGED = [("me", juice.Unicode(True))]

COMMANDS = {
    "hold": command("Ho-ld", extra=EXTRA, arguments=Cmd.arguments + FORGED, response=Cmd.response + FORGED),
    "heir": type("Heir", (Cmd,), {}),
    "echo": command("echo"),
    "oops": command("OOPS"),
    "boom": command("boom"),
    "dead": command("dead"),
    "nope": command("nope"),
    "hidden": command("hidden", namespaces=["admin"]),
    "both": command("both", namespaces=[None, "admin"]),
    "never": command("never", namespaces=[]),
}


NAMESPACES = {"ns": "admin", "nssub": "administrator", "nspre": "adm", "nscase": "Admin", "nsvoid": ""}
OFFERS = {"new": [9, 1], "old": [0, 1], "first": [1, 0, 7], "last": [0, -3, 300, 1],
          "high": [120, 2, 12, 1]}
juice.VERSIONS.append(12)


def payload(r):
    return "p%d: \r\n %s\u00e9\n" % (r, "x" * (r % 3))


def content(r):
    """The body of the box of an untyped request, if it has one."""
    return ["", "b%d\r\n\r\nx: 1\r\n" % r, "\u20ac"][r % 3]


def desc(r):
    return "d%d:\r\n\u20ac " % r


class Address(object):
    def __init__(self, kind, side):
        self.resource, self.domain = kind + " resource " + side, kind + " domain " + side

    def __eq__(self, other):
        return isinstance(other, Address) and vars(self) == vars(other)
    __hash__ = None


def extra(side):
    p, h = Address("peer", side), Address("host", side)
    return dict(who=p, whoDomain=p.domain, whoUser=p.resource, me=h, meDomain=h.domain, meUser=h.resource)


# what the other side, perhaps not this implementation, understands
FIELDS = {"_ask", "_answer", "_command", "_error", "_error_code", "_error_description",
          "r", "payload", "version", "versions", "class_", "body"} | {k.lower() for k, _ in EXTRA}


class Transport(object):
    def __init__(self, owner, side):
        self.owner, self.side = owner, side
        self.data = b""
        self.disconnecting = False
        self.lost = False

    def write(self, data):
        if not self.disconnecting and not self.lost:
            self.data += data

    def loseConnection(self):
        if not self.disconnecting and not self.lost:
            self.disconnecting = True
            self.owner.event("closing", self.side)

    def getPeer(self):
        return "peer"
    getHost = getPeer

    def getQ2QPeer(self):
        return Address("peer", self.side)

    def getQ2QHost(self):
        return Address("host", self.side)


class Proto(juice.Juice):
    owner = side = None

    def serve(self, r, p, **kw):
        ok = p == payload(r) and kw in ({}, extra(self.side))
        self.owner.event(*(["served", r] if ok else ["garbled", r, p, repr(kw)]))

    def command_HO_LD(self, r, payload, **kw):
        self.serve(r, payload, **kw)
        if not kw:
            self.owner.event("garbled", r)
        d = defer.Deferred()
        self.owner.held[r] = d
        return d
    command_HO_LD.command = COMMANDS["hold"]

    def command_HEIR(self, r, payload):
        self.serve(r, payload)
        d = defer.Deferred()
        self.owner.held[r] = d
        return d
    command_HEIR.command = COMMANDS["heir"]

    def command_ECHO(self, r, payload):
        self.serve(r, payload)
        return dict(r=r, payload=payload)
    command_ECHO.command = COMMANDS["echo"]

    def command_OOPS(self, r, payload):
        self.serve(r, payload)
        raise Declared(desc(r))
    command_OOPS.command = COMMANDS["oops"]

    def command_BOOM(self, r, payload):
        self.serve(r, payload)
        if r % 3 == 0:
            return dict(payload=payload)            # which is not all it promised
        if r % 3 == 2:
            return dict(r="many", payload=payload)  # nor is this
        raise Secret("internal")
    command_BOOM.command = COMMANDS["boom"]

    def command_DEAD(self, r, payload):
        self.serve(r, payload)
        return defer.fail(Fatal(desc(r)))
    command_DEAD.command = COMMANDS["dead"]

    def command_HIDDEN(self, r, payload):
        self.owner.event("served", r)
        return dict(r=r, payload=payload)
    command_HIDDEN.command = COMMANDS["hidden"]

    def command_BOTH(self, r, payload):
        self.serve(r, payload)
        return dict(r=r, payload=payload)
    command_BOTH.command = COMMANDS["both"]

    def command_NEVER(self, r, payload):
        self.owner.event("served", r)
        return dict(r=r, payload=payload)
    command_NEVER.command = COMMANDS["never"]

    def dispatchCommand(self, proto, cmd, box, namespace=None):
        # an application gives everyone access to every namespace
        if ":" in cmd:
            namespace, cmd = cmd.split(":", 1)
        return juice.Juice.dispatchCommand(self, proto, cmd, box, namespace)

    def juice_HIDDEN(self, box):
        self.owner.event("served", int(box["r"]))
        return juice.Box(r=box["r"], payload=box["payload"])

    def old(self, box):
        r = int(box["r"])
        if box.get("body", "") != content(r):
            self.owner.event("garbled", r, box["body"])
        self.serve(r, box["payload"])

    def juice_OLD_HOLD(self, box):
        r = int(box["r"])
        self.old(box)
        d = defer.Deferred()
        self.owner.held[r] = d
        return d.addCallback(lambda res: juice.Box(content(r), r=str(res["r"]), payload=res["payload"]))

    def juice_OLD_ECHO(self, box):
        self.old(box)
        return juice.Box(content(int(box["r"])), r=box["r"], payload=box["payload"])

    def juice_OLD_BOOM(self, box):
        self.old(box)
        raise Secret("internal")


class Adapter(object):
    protocol = Proto
    odd = False

    def __init__(self, init=None):
        self.events = []
        self.held = {}
        self.count = 0
        self.side_of = {}
        self.sides = {}
        for s in "AB":
            f = (juice.JuiceServerFactory if s == "B" else juice.JuiceClientFactory)()
            if type(f.buildProtocol(None)) is not juice.Juice:
                self.odd = True
            f.protocol = self.protocol
            p = self.sides[s] = f.buildProtocol(None)
            if p.factory is not f or (p.isServer, p.isClient) != (s == "B", s == "A"):
                self.odd = True
            p.owner, p.side = self, s
            p.makeConnection(Transport(self, s))
        self.ver = {"A": 0, "B": 0}
        self.reason = Failure(Gone("gone"))

    def event(self, *e):
        self.events.append(list(e))

    def call(self, side, cmd, want, style):
        self.count += 1
        r = self.count
        p = self.sides[side]
        self.side_of[r] = side
        ask = want == "ask"
        if cmd in ("vers", "vers12"):
            d = p.renegotiateVersion(int(cmd[4:] or 1))
        elif cmd == "novers":
            d = juice.Negotiate(versions=[7, 8]).do(p)
        elif cmd in OFFERS:
            d = juice.Negotiate(versions=OFFERS[cmd]).do(p)
        elif style == "old":
            d = p.sendCommand("old-" + cmd, content(r), ask, r=str(r), payload=payload(r))
        elif style in NAMESPACES:
            d = COMMANDS[cmd](r=r, payload=payload(r)).do(p, NAMESPACES[style], requiresAnswer=ask)
        else:
            forged = dict(me="forged") if cmd == "hold" and r % 2 else {}
            d = COMMANDS[cmd](r=r, payload=payload(r), **forged).do(p, requiresAnswer=ask)
        if not ask:
            if d is not None:
                try:
                    d.addErrback(lambda f: self.failed(f, r))
                except AttributeError:
                    self.event("odd", r)
            return

        def result(v):
            if cmd in ("vers", "vers12"):
                ok = v == int(cmd[4:] or 1)
            elif cmd in OFFERS:
                ok = v == {"version": 12 if cmd == "high" else 1}
            elif style == "old":
                ok = v["r"] == str(r) and v["payload"] == payload(r) and v.get("body", "") == content(r)
            else:
                want = dict(r=r, payload=payload(r))
                if cmd == "hold":
                    want.update(extra(side))
                ok = v == want
            self.event(*(["result", r] if ok else ["garbled", r, repr(v)]))

        def failed(f):
            self.failed(f, r)
            if style == "lax":
                return f

        def again(v):
            if style == "again":
                self.call(side, "hold", "ask", "plain")
            return v
        d.addCallbacks(result, failed)
        d.addBoth(again)
        if style == "lax":
            self.keep = getattr(self, "keep", []) + [d]

    def failed(self, f, r):
        v = f.value
        if isinstance(v, Gone):
            name = "Gone" if v is self.reason.value else "?"
        elif isinstance(v, error.ConnectionLost):
            name = "ConnectionLost"
        elif isinstance(v, juice.UnhandledRemoteJuiceError):
            name = "Unhandled"
        elif isinstance(v, juice.RemoteJuiceError):
            name = "Remote:" + v.errorCode
        else:
            name = type(v).__name__
            if str(v) != desc(r):
                name += " with " + repr(str(v))
        if "internal" in str(v) or "Secret" in str(v):
            name += " leaking"
        self.event("failed", r, name)

    def versions(self):
        for s, p in sorted(self.sides.items()):
            if p.protocolVersion != self.ver[s]:
                self.ver[s] = p.protocolVersion
                self.event("version", s, p.protocolVersion)

    def feed(self, side, data, chunk):
        p = self.sides[side]
        n = chunk or len(data)
        for i in range(0, len(data), n):
            if p.transport.disconnecting:
                break
            p.dataReceived(data[i:i + n])

    def do(self, op):
        self.events = []
        k = op["op"]
        if k == "call":
            self.call(op["side"], op["cmd"], op["want"], op["style"])
            if self.odd:
                self.event("odd")
        elif k == "deliver":
            o = self.sides["B" if op["side"] == "A" else "A"].transport
            data, o.data = o.data, b""
            for b in juice.parseString(data):
                if not set(b) <= FIELDS:
                    self.event("odd", sorted(b))
            self.feed(op["side"], data, op["chunk"])
        elif k == "answer":
            r, how = op["r"], op["how"]
            d = self.held.pop(r)
            if how == "ok":
                d.callback(dict(r=r, payload=payload(r), **{"me": "forged"} if r % 3 else {}))
            elif how == "undeclared" and r % 2:
                d.callback({})
            else:
                d.errback(Failure({"declared": Declared(desc(r)), "declared2": Declared2(desc(r)),
                                   "subclass": Sub(desc(r)), "fatal": Fatal(desc(r)),
                                   "derived": Derived(desc(r)), "fatalsub": FatalSub(desc(r)),
                                   "undeclared": Secret("internal")}[how]))
        elif k == "lose":
            p = self.sides[op["side"]]
            p.transport.lost = True
            p.connectionLost(self.reason)
        elif k == "repeat":
            s = op["side"]
            # the tag of request r: requests of a side are numbered from one
            r = op["r"]
            tag = "%x" % len([q for q in self.side_of if q <= r and self.side_of[q] == s])
            try:
                self.feed(s, juice.Box(_answer=tag, r="1", payload="x").serialize(), 0)
            except Exception:
                self.sides[s].transport.disconnecting = True
                self.events = [["refused"]]
        self.versions()
        return self.events


def project_outcomes(out):
    if not isinstance(out, list):
        return out
    return sorted([e[:2] for e in out if e[0] in ("served", "result", "failed", "refused")]
                  + [e for e in out if e[0] in ("garbled", "odd")], key=repr)


def project_errors(out):
    if not isinstance(out, list):
        return out
    r = []
    for e in out:
        if e[0] in ("failed", "version", "closing", "served", "odd"):
            r.append(e)
    return sorted(r, key=repr)


def consts(cmds, wants, styles, hows, reqs, chunks=(0,), sides="A"):
    q = lambda xs: "{%s}" % ", ".join('"%s"' % x for x in xs)
    return dict(Cmds=q(cmds), Wants=q(wants), Styles=q(styles), Hows=q(hows),
                MaxReqs=str(reqs), Chunks="{%s}" % ", ".join(map(str, chunks)), Sides=q(sides))


INVARIANTS = ("LostMeansDone",)
PROPERTIES = ("OneOutcome", "DoneStays")


def generate(rng, length, errors):
    def gen():
        reqs = {}        # r -> dict, mirrored roughly from what is observed
        up = {"A": "up", "B": "up"}
        chan = {"A": 0, "B": 0}
        n = 0
        held = set()
        done = set()
        stop = False
        for _ in range(length):
            ops = []
            ops += ["call"] * 4
            ops += ["deliver"] * 4 + ["answer"] * 3 * bool(held)
            if rng.random() < .04:
                ops = ["lose"]
            k = rng.choice(ops)
            if k == "call":
                s = rng.choice("AB")
                want = rng.choice(["ask"] * 5 + ["tell"])
                style = "plain" if want == "tell" else rng.choice(["plain", "plain", "old", "lax", "again", "ns", "nssub"])
                if style in ("lax", "nssub") and not errors:
                    style = "plain"
                if style == "nssub":
                    style = rng.choice(sorted(NAMESPACES)) if rng.random() < .2 else "ns"
                bad = ["oops", "oops"]
                if errors and rng.random() < .15:
                    bad = ["boom", "dead", "nope", "hidden", "never"]
                if style == "old":
                    cmd = rng.choice(["hold", "hold", "echo"])
                elif style in NAMESPACES:
                    cmd = rng.choice(["both", "hidden"] + ["echo", "never", "hold"] * (bad[0] == "boom"))
                else:
                    cmd = rng.choice(["hold", "hold", "echo", "heir", "both"] + bad)
                    if errors and want == "ask" and style != "again" and rng.random() < .05:
                        cmd = rng.choice(sorted(OFFERS) + ["vers", "vers12"])
                    if want == "tell" and cmd == "oops":
                        cmd = "echo"
                op = {"op": "call", "side": s, "cmd": cmd, "want": want, "style": style}
                out = yield op
                n += 1
                reqs[n] = op
                if up[s] == "up":
                    chan[s] += 1
            elif k == "deliver":
                s = rng.choice("AB")
                o = "BA"["AB".index(s)]
                if up[s] != "up" or not chan[o]:
                    continue
                chan[o] = 0
                out = yield {"op": "deliver", "side": s, "chunk": rng.choice([0, 0, 1, 5, 40])}
            elif k == "answer":
                r = rng.choice(sorted(held))
                held.discard(r)
                hows = ["ok", "ok", "declared", "declared2", "subclass", "derived"]
                if errors and rng.random() < .2:
                    hows = ["fatal", "undeclared", "fatalsub"]
                if reqs[r]["style"] == "old" or reqs[r]["want"] == "tell":
                    hows = ["ok"]
                s = "BA"["AB".index(reqs[r]["side"])]
                if up[s] == "up" and reqs[r]["want"] == "ask":
                    chan[s] += 1
                out = yield {"op": "answer", "r": r, "how": rng.choice(hows)}
            else:
                s = rng.choice("AB")
                if up[s] == "lost":
                    continue
                up[s] = "lost"
                out = yield {"op": "lose", "side": s}
            if not isinstance(out, list):
                return
            for e in out:
                if e[0] == "served":
                    if reqs[e[1]]["cmd"] in ("hold", "heir"):
                        if e[1] not in done:
                            held.add(e[1])
                    elif reqs[e[1]]["want"] == "ask":
                        chan["BA"["AB".index(reqs[e[1]]["side"])]] += 1
                elif e[0] == "closing":
                    up[e[1]] = "closing" if up[e[1]] == "up" else up[e[1]]
                elif e[0] in ("result", "failed"):
                    r = e[1]
                    done.add(r)
                    held.discard(r)
                    if r in reqs and reqs[r]["style"] == "again":
                        n += 1
                        reqs[n] = {"side": reqs[r]["side"], "cmd": "hold", "want": "ask", "style": "plain"}
                        if up[reqs[r]["side"]] == "up":
                            chan[reqs[r]["side"]] += 1
                elif e[0] not in ("version",):
                    return
        for s in "AB":
            if up[s] != "lost":
                yield {"op": "lose", "side": s}
    return None, gen()
