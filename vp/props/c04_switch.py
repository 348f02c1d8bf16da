"""Protocol switching against specs/JuiceSwitch.tla."""
from twisted.internet import defer, protocol
from twisted.python.failure import Failure

from epsilon import juice
from vp.bind import Binding
from vp.props.calls import Transport, Gone


class No(Exception):
    pass


class Secret(Exception):
    pass


class Echo(juice.Command):
    commandName = "echo"
    arguments = [("r", juice.Integer())]
    response = [("r", juice.Integer())]


class Slow(Echo):
    commandName = "slow"


class Switch(juice.ProtocolSwitchCommand):
    commandName = "switch-it"
    arguments = [("style", juice.String()), ("body", juice.String(optional=True))]
    errors = {No: "NO"}


class Inner(protocol.Protocol):
    def __init__(self, owner, side):
        self.owner, self.side = owner, side

    def connectionMade(self):
        self.owner.event("made", self.side)
        if self.transport is not self.owner.sides[self.side].transport:
            self.owner.event("wrong transport")
        if self.owner.greet == "drop":
            self.transport.lost = self.transport.disconnecting = True
            self.owner.sides[self.side].connectionLost(self.owner.reason)
        elif self.owner.greet == "close":
            self.transport.loseConnection()
        elif self.owner.greet == "yes":
            self.transport.write({"C": b"C\r\n", "S": b"S: \r\n\r\n"}[self.side])

    def dataReceived(self, data):
        ev = self.owner.events
        if ev and ev[-1][:2] == ["data", self.side]:
            ev[-1][2].extend(data)
        else:
            self.owner.event("data", self.side, list(data))

    def connectionLost(self, reason):
        self.owner.event("innerlost", self.side)
        if reason is not self.owner.reason:
            self.owner.event("wrong reason")


class Factory(protocol.ClientFactory):
    def __init__(self, owner):
        self.owner = owner
        self.inner = None

    def buildProtocol(self, addr):
        if addr != self.owner.sides["C"].transport.getPeer():
            self.owner.event("for nobody", repr(addr))
        if self.inner is not None:
            self.owner.event("built twice")
        self.inner = Inner(self.owner, "C")
        return self.inner

    def clientConnectionLost(self, connector, reason):
        self.owner.event("factorylost")

    def clientConnectionFailed(self, connector, reason):
        self.owner.event("factoryfailed")


class Proto(juice.Juice):
    def command_ECHO(self, r):
        self.owner.event("served", r)
        return dict(r=r)
    command_ECHO.command = Echo

    def command_SLOW(self, r):
        self.owner.event("served", r)
        d = self.owner.held[r] = defer.Deferred()
        return d
    command_SLOW.command = Slow

    def command_SWITCH_IT(self, style, body):
        self.owner.event("asked")
        if (body or "") != ("x\r\n" if style == "body" else ""):
            self.owner.event("garbled")
        if style in ("sync", "body"):
            return Inner(self.owner, self.side)
        if style == "refuse":
            raise No("no")
        if style == "boom":
            raise Secret()
        self.owner.pending = defer.Deferred()
        return self.owner.pending
    command_SWITCH_IT.command = Switch


class Adapter(object):
    def __init__(self, init):
        self.greet = init["greet"] if isinstance(init, dict) else init[-1]
        self.events = []
        self.calls = 0
        self.held = {}
        self.reason = Failure(Gone("gone"))
        self.sides = {}
        for s in "CS":
            p = self.sides[s] = Proto(s == "S")
            p.owner, p.side = self, s
            p.makeConnection(Transport(self, s))

    def event(self, *e):
        self.events.append(list(e))

    def do(self, op):
        self.events = []
        k = op["op"]
        if k == "call":
            n = len(self.sides[op["side"]].transport.data)
            r = self.calls + 1
            try:
                d = (Slow if op["want"] == "hold" else Echo)(r=r).do(self.sides[op["side"]], requiresAnswer=op["want"] != "tell")
            except AssertionError:
                self.event("locked")
                if len(self.sides[op["side"]].transport.data) != n:
                    self.event("wrote")
                return self.events
            self.calls += 1
            if op["want"] == "tell":
                return self.events
            d.addCallbacks(lambda v: self.event(*(["result", r] if v == {"r": r} else ["garbled"])),
                           lambda f: self.event("failed", r))
        elif k == "switch":
            kw = {"style": op["style"]}
            if op["style"] == "body":
                kw["body"] = "x\r\n"
            if op["style"] == "ns":
                d = Switch(Factory(self), **kw).do(self.sides["C"], "elsewhere")
            else:
                d = Switch(Factory(self), **kw).do(self.sides["C"])
            d.addCallbacks(lambda v: self.event("switched"), lambda f: self.event("switchfailed"))
        elif k == "answer":
            d = self.held.pop(op["r"])
            if op["how"] == "ok":
                d.callback(dict(r=op["r"]))
            else:
                d.errback(Secret())
        elif k == "decide":
            d, self.pending = self.pending, None
            if op["how"] == "agree":
                d.callback(Inner(self, "S"))
            else:
                d.errback({"refused": No("later"), "failed": Secret()}[op["how"]])
        elif k == "raw":
            self.sides[op["side"]].transport.write(bytes(op["bytes"]))
        elif k == "deliver":
            o = self.sides["S" if op["side"] == "C" else "C"].transport
            data, o.data = o.data, b""
            p = self.sides[op["side"]]
            n = op["chunk"] or len(data)
            for i in range(0, len(data), n):
                if p.transport.disconnecting:
                    break
                p.dataReceived(data[i:i + n])
        elif k == "lose":
            p = self.sides[op["side"]]
            p.transport.lost = True
            p.connectionLost(self.reason)
        return self.events


def project(out):
    if not isinstance(out, list):
        return out
    # the order of what is observed matters per side only
    return sorted((e for e in out if "data" != e[0] and "made" != e[0]), key=repr) + \
        [[e for e in out if e[0] in ("data", "made") and e[1] == s] for s in "CS"]


def consts(styles=(), calls=0, raws=(), maxraws=0, chunks=(0,), greets='{"yes", "no", "close", "drop"}',
           wants='{"ask", "tell"}'):
    return dict(Styles="{%s}" % ", ".join('"%s"' % s for s in styles), MaxCalls=str(calls),
                Raws="{%s}" % ", ".join("<<%s>>" % ", ".join(map(str, r)) for r in raws),
                MaxRaws=str(maxraws), Chunks="{%s}" % ", ".join(map(str, chunks)), Greets=greets, Wants=wants)


def generate(rng):
    greet = rng.choice(["yes", "yes", "no", "no", "close", "drop"])

    def gen():
        style, wants, held = None, [], []
        up = {"C": "up", "S": "up"}
        cl, sv = "juice", "juice"
        chan = {"C": 0, "S": 0}
        for _ in range(40):
            k = rng.choice(["call", "switch", "decide", "answer", "raw", "raw", "deliver", "deliver", "deliver",
                            "lose" if rng.random() < .15 else "raw"])
            s = rng.choice("CS")
            o = "SC"["CS".index(s)]
            if k == "call":
                if up[s] != "up":
                    continue
                talks = cl == "juice" if s == "C" else sv != "switched"
                if not talks and rng.random() < .7:
                    continue
                if talks:
                    chan[s] = 1
                want = rng.choice(["ask", "hold", "tell"])
                out = yield {"op": "call", "side": s, "want": want}
                if isinstance(out, list) and out[:1] != [["locked"]]:
                    wants.append(want)
            elif k == "switch":
                if cl != "juice" or up["C"] != "up" or rng.random() < .6:
                    continue
                style = rng.choice(["sync", "body", "defer", "defer", "refuse", "boom", "ns"])
                cl = "locked"
                chan["C"] = 1
                out = yield {"op": "switch", "style": style}
            elif k == "answer":
                if not held:
                    continue
                r, s = held.pop(rng.randrange(len(held)))
                how = rng.choice(["ok", "ok", "boom"])
                if up[s] == "up" and (cl == "juice" if s == "C" else sv != "switched"):
                    chan[s] = 1
                out = yield {"op": "answer", "r": r, "how": how}
            elif k == "decide":
                if sv != "asked" or up["S"] == "closing":
                    continue
                how = rng.choice(["agree", "agree", "refused", "failed"])
                sv = "juice"
                if up["S"] == "up":
                    chan["S"] = 1
                    if how == "agree":
                        sv = "switched"
                out = yield {"op": "decide", "how": how}
            elif k == "raw":
                if up[s] != "up" or not ((s == "C" and cl == "switched") or (s == "S" and sv == "switched")
                                         or (s == "C" and cl == "locked" and style in ("sync", "body"))):
                    continue
                chan[s] = 1
                out = yield {"op": "raw", "side": s, "bytes": [rng.choice([0, 13, 10, 32, 58, 97, 255])
                                                               for _ in range(rng.randint(1, 30))]}
            elif k == "deliver":
                if up[s] != "up" or not chan[o]:
                    continue
                chan[o] = 0
                out = yield {"op": "deliver", "side": s, "chunk": rng.choice([0, 0, 1, 2, 7, 33])}
            else:
                if up[s] == "lost":
                    continue
                up[s] = "lost"
                out = yield {"op": "lose", "side": s}
            if not isinstance(out, list):
                return
            for e in out:
                if e[0] == "closing":
                    up[e[1]] = "closing"
                elif e[0] == "served":
                    if wants[e[1] - 1] == "ask":
                        chan[s] = 1
                    elif wants[e[1] - 1] == "hold":
                        held.append((e[1], s))
                elif e[0] == "asked":
                    if style == "defer":
                        sv = "asked"
                    else:
                        chan["S"] = 1
                elif e[0] == "made":
                    if e[1] == "S":
                        sv = "switched"
                    else:
                        cl = "switched"
                    if greet == "yes":
                        chan[e[1]] = 1
                    elif greet == "drop":
                        up[e[1]] = "lost"
                elif e[0] == "switchfailed":
                    cl = "failed"
        for s in "CS":
            if up[s] != "lost":
                yield {"op": "lose", "side": s}
    return {"greet": greet}, gen()


def check(run):
    b = Binding(run, "JuiceSwitch", Adapter, project)
    for c in run.pick(
            [consts(["sync", "body", "defer", "refuse", "boom", "ns"], 1, [[13, 10]], 1, (0, 1)),
             consts(["sync", "defer"], 2, (), 0, (0,), '{"no"}', '{"hold"}'),
             consts(["sync", "body"], 0, [[97, 13, 10], [32]], 2, (0, 3), '{"yes"}')],
            [consts(["sync", "body", "defer", "refuse", "boom", "ns"], 2, [[13, 10]], 2, (0, 1)),
             consts(["sync", "defer", "boom"], 2, [[13, 10]], 1, (0,), '{"yes", "no"}', '{"hold"}'),
             consts(["sync", "body", "defer"], 1, [[97, 13, 10], [32]], 3, (0, 3), '{"yes"}')]):
        b.cover(c, ("ServerFirst",), ("Once",))
    b.histories(consts(), generate, run.pick(120, 2500))
