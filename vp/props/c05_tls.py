"""TLS buffering against specs/JuiceTLS.tla, with a recording transport."""
from twisted.internet import defer

from epsilon import juice
from vp.bind import Binding


class Cert(object):
    def __init__(self, name):
        self.name = name

    def options(self, *authorities):
        return (self.name, authorities)

    def __bool__(self):
        # as good as any other
        return self.name not in ("c2", "authority")


WAYS = ["box", "call", "body", "echo", "late", "run", "fail", "same", "samecall"]
AUTHORITIES = [Cert("authority"), Cert("another")]


class Transport(object):
    disconnecting = False

    def __init__(self):
        self.log = []

    def write(self, data):
        if self.log and self.log[-1][0] == "bytes":
            self.log[-1][1] += data
        else:
            self.log.append(["bytes", data])

    def startTLS(self, options, *a):
        name, auth = options
        self.log.append(["starttls", name, len(auth) if list(auth) == AUTHORITIES[:len(auth)] else "?"])

    def loseConnection(self):
        self.disconnecting = True
        self.log.append(["closing"])

    def getPeer(self):
        return "peer"
    getHost = getPeer

    def getPeerCertificate(self):
        return None

    def getHandle(self):
        return self

    def get_peer_certificate(self):
        return None


class Refusal(Exception):
    pass


class Proto(juice.Juice):
    """One which answers the requests of its peer, at once or later."""
    n = 0

    def juice_ECHO(self, box):
        return juice.Box(n=box["n"])

    def juice_LATER(self, box):
        d = defer.Deferred()
        self.waiting.append(d)
        return d

    def command_FAIL(self, n):
        raise Refusal(n)
    command_FAIL.command = type("Fail", (juice.Command,), dict(
        commandName="fail", arguments=[("n", juice.String())], errors={Refusal: "REFUSED"}))

    def command_RUN(self, n):
        return dict(n=n)
    command_RUN.command = type("Run", (juice.Command,), dict(
        commandName="run", arguments=[("n", juice.String())], response=[("n", juice.String())]))


class Adapter(object):
    def __init__(self, init=None):
        self.t = Transport()
        self.p = Proto(True)
        self.p.waiting = []
        self.p.makeConnection(self.t)
        self.n = self.asked = 0
        self.box = juice.Box()      # sent several times
        for _ in range(8):
            self.ask("later")

    def ask(self, command, **kw):
        self.asked += 1
        self.p.dataReceived(juice.Box(_command=command, _ask="q%d" % self.asked, **kw).serialize())

    def do(self, op):
        self.t.log = []
        k = op["op"]
        if k == "prepare":
            self.p.prepareTLS()
        elif k == "send":
            self.n += 1
            if op["way"] == "call":
                d = self.p.sendCommand("x", n=str(self.n))
                if d is None or d.called:
                    self.t.log.append(["odd"])
            elif op["way"] == "same":
                self.box["n"] = str(self.n)
                self.box.sendTo(self.p)
            elif op["way"] == "samecall":
                self.box["n"] = str(self.n)
                d = self.p.sendBoxCommand("x", self.box)
                if d is None or d.called:
                    self.t.log.append(["odd"])
            elif op["way"] == "late":
                if not self.p.waiting:
                    self.ask("later")
                self.p.waiting.pop(0).callback(juice.Box(n=str(self.n)))
            elif op["way"] in ("echo", "run", "fail"):
                self.ask(op["way"], n=str(self.n))
            elif op["way"] == "quit":
                juice.QuitBox(n=str(self.n)).sendTo(self.p)
            else:
                b = juice.Box(n=str(self.n))
                if op["way"] == "body":
                    b["body"] = "\r\nq"
                b.sendTo(self.p)
        else:
            a = AUTHORITIES[:op["verify"]]
            try:
                if k == "start":
                    self.p.startTLS(Cert(op["cert"]), *a)
                else:
                    self.n += 1
                    juice.TLSBox(Cert(op["cert"]), a[0] if a else None,
                                 lambda: self.t.log.append(["started"]), n=str(self.n)).sendTo(self.p)
            except Exception:
                self.t.log.append(["refused"])
        out = []
        for e in self.t.log:
            if e[0] == "bytes":
                out += [["write", int(b["_error_description" if "_error" in b else "n"])]
                        for b in juice.parseString(e[1])]
            else:
                out.append(e)
        return out


def generate(rng):
    def gen():
        st = {"holding": False, "held": 0, "cert": False}
        for _ in range(rng.randint(5, 30)):
            k = rng.choice(["prepare", "send", "send", "send", "send", "start", "tlsbox"])
            if k == "prepare":
                if st["cert"]:
                    continue
                st["holding"] = True
                yield {"op": "prepare"}
            elif k == "send":
                st["held"] += st["holding"]
                yield {"op": "send", "way": rng.choice(WAYS)}
            elif rng.random() < .5:
                st.update(cert=True, holding=False, held=0)
                yield {"op": k, "cert": rng.choice(["c1", "c2", "c3"]), "verify": rng.choice([0, 1, 2] if k == "start" else [0, 1])}
    return None, gen()


def check(run):
    b = Binding(run, "JuiceTLS", Adapter)
    for c in run.pick([dict(Certs='{"c1", "c2"}', MaxSends="4", Ways='{"quit", %s}' % ", ".join('"%s"' % w for w in WAYS))],
                      [dict(Certs='{"c1", "c2"}', MaxSends="7", Ways='{"quit", %s}' % ", ".join('"%s"' % w for w in WAYS))]):
        b.cover(c, ("NoneForgotten", "InOrder"), ("Silent", "Secured1"), randoms=run.pick((200, 12), (3000, 20)))
    b.histories(dict(Certs="{}", MaxSends="0", Ways="{}"), generate, run.pick(100, 2000))
