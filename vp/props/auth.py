"""Logging in over AMP against specs/Auth.tla."""
import hashlib
import os

from zope.interface import implementer
from twisted.cred.checkers import InMemoryUsernamePasswordDatabaseDontUse
from twisted.cred.credentials import Anonymous, UsernamePassword
from twisted.cred.error import UnauthorizedLogin
from twisted.cred.portal import IRealm, Portal
from twisted.internet import defer, error
from twisted.protocols import amp
from twisted.python.failure import Failure

from epsilon import ampauth

# The names of the specification, as awkward byte strings.
USERS = {"a": b"alice@example.com", "b": b"alice", "c": b"", "x": b"alice@example.co",
         "nobody": b"nobody"}
PASSWORDS = {"pa": b"foo bar baz", "pb": b" foo bar baz\n", "pc": b"p\xc3\xa9 \xe2\x82\xac",
             "px": b"", "py": b" foo bar baz"}
PADS = {"1": b"pad", "2": b"pad\x00", "3": b"", "4": b"PAD", "0": b"pad "}
AVATARS = {USERS[u]: u for u in "abc"}
OWNERS = {"1": "1's owner", "2": (), "3": "", "4": "1's owner"}     # () is what cred calls anonymous
AVATARS.update({OWNERS[p]: "o" + p for p in "123"})


class Fault(Exception):
    pass


class Ping(amp.Command):
    commandName = b"ping"


class Transport(object):
    def __init__(self):
        self.data = b""
        self.seen = b""
        self.disconnecting = self.lost = False

    def write(self, data):
        if not (self.lost or self.disconnecting):
            self.data += data
            self.seen += data

    def writeSequence(self, datas):
        self.write(b"".join(datas))

    def loseConnection(self):
        self.disconnecting = True

    def getPeer(self):
        return "peer"
    getHost = getPeer


@implementer(amp.IBoxReceiver)
class Avatar(object):
    sender = None

    def __init__(self, owner, n, conn, bad):
        self.owner, self.n, self.conn, self.bad = owner, n, conn, bad

    def startReceivingBoxes(self, sender):
        self.owner.event("started", self.n)
        if self.sender is not None:
            self.owner.event("started twice", self.n)
        self.sender = sender
        if sender is not self.owner.servers[self.conn - 1]:
            self.owner.event("wrong sender", self.n)
        if self.bad == "start":
            raise Fault("start")

    def ampBoxReceived(self, box):
        self.owner.event("to avatar", self.n)

    def stopReceivingBoxes(self, reason):
        self.owner.event("stopped", self.n)
        during, self.owner.during = self.owner.during, 0
        if during:
            self.owner.finish(during, "ok")
        if self.bad == "stop":
            raise Fault("stop")


class Login(object):
    def __init__(self, owner, n, bad):
        self.owner, self.n, self.bad = owner, n, bad

    def logout(self):
        self.owner.event("logout", self.n)
        if self.bad == "out":
            raise Fault("out")


class Logout(object):
    """What logs an avatar out: all of them are alike."""
    def __init__(self, login):
        self.login = login

    def __call__(self):
        self.login.logout()

    def __eq__(self, other):
        return isinstance(other, Logout)

    def __ne__(self, other):
        return not self == other

    def __len__(self):
        return 0

    __hash__ = None


@implementer(IRealm)
class Realm(object):
    def __init__(self, owner):
        self.owner = owner

    def requestAvatar(self, avatarId, mind, *interfaces):
        o = self.owner
        o.event("avatar for", AVATARS.get(avatarId, "someone"))
        if mind is not None or interfaces != (amp.IBoxReceiver,):
            o.event("wrong interface")
        mode = o.mode
        if mode == "none":
            raise NotImplementedError()
        d = defer.Deferred()
        o.logins.append((d, o.conn))
        if mode != "later":
            o.finish(len(o.logins), mode)
        return d


class Adapter(object):
    NCONNS = 3
    PADS = "1234"
    during = 0          # a login which succeeds while an avatar is told of the end

    def __init__(self, init):
        self.events = []
        self.logins = []
        self.challenges = []
        self.nonces = set()
        self.mode = "now"
        self.conn = 0
        self.bad = 0
        self.asked = 0
        checker = InMemoryUsernamePasswordDatabaseDontUse()
        for u in "abc":
            checker.addUser(USERS[u], PASSWORDS["p" + u])
        self.pads = {PADS[p]: OWNERS[p] for p in self.PADS}
        self.checker = ampauth.OneTimePadChecker(self.pads)
        factory = ampauth.CredAMPServerFactory(Portal(Realm(self), [checker, self.checker]))
        self.servers, self.clients = [], []
        for _ in range(self.NCONNS):
            s, c = factory.buildProtocol(None), amp.AMP()
            s.makeConnection(Transport())
            c.makeConnection(Transport())
            self.servers.append(s)
            self.clients.append(c)

    def event(self, *e):
        self.events.append(list(e))

    def avatar(self, i, c, bad):
        return Avatar(self, i, c, bad)

    def finish(self, i, bad):
        d, c = self.logins[i - 1]
        a = self.avatar(i, c, bad)
        out = Login(self, i, bad)
        d.callback((amp.IBoxReceiver, a, out.logout if i % 3 == 0 else Logout(out)))

    def pump(self):
        moved = True
        while moved:
            moved = False
            for i, (s, c) in enumerate(zip(self.servers, self.clients)):
                for a, b in ((s, c), (c, s)):
                    t = a.transport
                    if t is None or b.transport is None or not t.data:
                        continue
                    data, t.data = t.data, b""
                    if b.transport.disconnecting:
                        continue
                    self.conn = i + 1
                    moved = True
                    for j in range(0, len(data), 7):
                        b.dataReceived(data[j:j + 7])
                        if b.transport is None or b.transport.disconnecting:
                            break

    def attempt(self, c, d, expect):
        """What the client is told of an attempt to log in."""
        def ok(r):
            self.event("reply", c, "ok" if r == expect else "garbled")

        def no(f):
            if f.check(UnauthorizedLogin, amp.UnknownRemoteError):
                self.event("reply", c, "denied")
            elif f.check(NotImplementedError):
                self.event("reply", c, "noavatar")
            elif not f.check(error.ConnectionDone):
                self.event("reply", c, repr(f.value))
        d.addCallbacks(ok, no)

    def respond(self, k, password):
        nonce = os.urandom(16)
        if k:
            nonce = [nonce, b"", nonce, b" ", nonce + b" x"][self.asked % 5]     # the client's choice
            self.asked += 1
            return nonce, hashlib.sha1(
                b"%s %s %s" % (self.challenges[k - 1], nonce, PASSWORDS[password])).digest()
        self.bad += 1
        right = hashlib.sha1(b"%s %s %s" % (
            self.challenges[-1] if self.challenges else b"", nonce, PASSWORDS[password])).digest()
        return [(nonce, os.urandom(20)), (nonce + b"x", right), (nonce, b""), (b"", right),
                (nonce, right[:-1]), (nonce, right.upper()[:19] + b"?"), (nonce, nonce)][self.bad % 7]

    def do(self, op):
        self.events = []
        k = op["op"]
        self.mode = op.get("mode", "now")
        c = op.get("c", 0)
        client = self.clients[c - 1] if c else None
        if k == "hello":
            d = client.callRemote(ampauth.PasswordLogin, username=USERS[op["user"]])

            def got(r):
                x = r["challenge"]
                if x in self.challenges or len(x) < 8:
                    self.event("stale challenge")
                self.challenges.append(x)
                self.event("challenge", c)
            d.addCallbacks(got, lambda f: None)
        elif k == "answer":
            n, r = self.respond(op["k"], op["password"])
            self.attempt(c, client.callRemote(
                ampauth.PasswordChallengeResponse, cnonce=n, response=r), {})
        elif k == "pad":
            self.attempt(c, client.callRemote(ampauth.OTPLogin, pad=PADS[op["pad"]]), {})
        elif k == "issue":
            self.pads[PADS[op["pad"]]] = OWNERS[op["pad"]]
        elif k == "signin":
            pw = PASSWORDS[op["password"]]
            client.transport.seen = self.servers[c - 1].transport.seen = b""
            if op["password"] == "pc":
                pw = pw.decode("utf-8")
            self.attempt(c, ampauth.login(client, UsernamePassword(USERS[op["user"]], pw)), client)
            self.pump()
            self.watch(client.transport.seen, self.servers[c - 1].transport.seen,
                       PASSWORDS[op["password"]])
        elif k == "other":
            client.transport.seen = b""
            try:
                ampauth.login(client, Anonymous())
            except ampauth.UnhandledCredentials:
                if not client.transport.seen:
                    self.event("reply", c, "not possible")
        elif k == "finish":
            if op["how"] != "none":
                self.finish(op["i"], op["how"])
            else:
                self.logins[op["i"] - 1][0].errback(NotImplementedError())
        elif k == "send":
            d = client.callRemote(Ping)
            d.addCallbacks(lambda r: self.event("handled"),
                           lambda f: f.check(amp.UnhandledCommand) and self.event("unhandled", c))
        elif k == "lose":
            self.during = op.get("during", 0)
            for p in (self.servers[c - 1], client):
                p.transport.lost = True
                try:
                    p.connectionLost(Failure(error.ConnectionDone()))
                except Fault:
                    pass
        self.pump()
        return self.events

    def watch(self, sent, answered, password):
        """The client never repeats a nonce nor reveals the password, and an
        eavesdropper learns the challenge."""
        if len(password) > 3 and password in sent:
            self.event("password revealed")
        for b in amp.parseString(sent):
            n = b.get(b"cnonce")
            if n is not None:
                if n in self.nonces:
                    self.event("nonce repeated")
                self.nonces.add(n)
        for b in amp.parseString(answered):
            if b"challenge" in b:
                self.challenges.append(b[b"challenge"])


class Shared(Adapter):
    """All logins of a connection get the same avatar, which belongs to the latest."""
    def avatar(self, i, c, bad):
        shared = self.__dict__.setdefault("shared", {})
        if c not in shared:
            shared[c] = Adapter.avatar(self, i, c, bad)
        a = shared[c]
        a.n, a.bad, a.sender = i, bad, None
        return a


def of(kinds):
    def project(out):
        if not isinstance(out, list):
            return out
        return sorted((e for e in out if e[0] in kinds or e[0] not in ALL), key=repr)
    return project


ALL = ("challenge", "reply", "avatar for", "to avatar", "unhandled", "started", "stopped", "logout")
ACCESS = of(("challenge", "reply", "avatar for", "to avatar", "unhandled"))


def LOGOUT(out):
    """What happens to each avatar, in order."""
    if not isinstance(out, list):
        return out
    r = {}
    for e in out:
        if e[0] in ("started", "stopped", "logout", "to avatar"):
            r.setdefault(str(e[1]), []).append(e[0])
        elif e[0] not in ALL:
            r.setdefault("other", []).append(e)
    return r


PAD = of(("reply", "avatar for"))

FAULTS = ("start", "stop", "out")
INVARIANTS = ("InPlace", "PadOnce")
PROPERTIES = ("LogoutOnce", "UsedPads", "Access")


def consts(n=3, users="abc", passwords=("pa", "pb"), pads="", modes=("now",), ch=0, logins=0, issues=""):
    s = lambda xs: "{%s}" % ", ".join('"%s"' % x for x in xs)
    return dict(NConns=str(n), Users=s(users), Passwords=s(passwords), Pads=s(pads), Modes=s(modes),
                MaxChallenges=str(ch), MaxLogins=str(logins), Issues=s(issues))


def generate(rng, ops, modes=("now", "later", "none"), length=40):
    def gen():
        n = 3
        up = [True] * n
        user = [None] * n
        chal = [0] * n
        sess = [False] * n
        nch = 0
        logins = []          # pending ones: (index, conn)
        total = 0
        used = set()
        for _ in range(length):
            k = rng.choice(ops)
            c = rng.randrange(n)
            if k == "issue":
                p = rng.choice("1234")
                if p in used:
                    used.remove(p)
                    yield {"op": k, "pad": p}
                continue
            if k == "finish":
                if not logins:
                    continue
                j = rng.randrange(len(logins))
                i, c = logins.pop(j)
                how = rng.choice(["ok", "ok", "none"] + [m for m in modes if m in FAULTS])
                if how != "none":
                    sess[c] = True
                out = yield {"op": k, "i": i, "how": how}
                if not isinstance(out, list):
                    return
                if any(e[0] == "reply" and e[2] == "denied" for e in out):
                    up[c] = None
                continue
            if (up[c] is None and k != "lose") or up[c] is False or (sess[c] and rng.random() < .6 and k != "lose"):
                continue
            mode = rng.choice(modes)
            if k == "hello":
                u = rng.choice("aabbcx")
                if not sess[c]:
                    nch += 1
                    chal[c], user[c] = nch, u
                out = yield {"op": k, "c": c + 1, "user": u}
            elif k == "answer":
                pw = rng.choice(["p%s" % user[c] if user[c] in ("a", "b", "c") else "pa",
                                 rng.choice(["pa", "pb", "pc", "px", "py"])])
                kk = rng.choice([chal[c], chal[c], rng.randint(0, nch)])
                out = yield {"op": k, "c": c + 1, "k": kk, "password": pw, "mode": mode}
            elif k == "pad":
                p = rng.choice("12340")
                out = yield {"op": k, "c": c + 1, "pad": p, "mode": mode}
                if not sess[c] and p != "0":
                    used.add(p)
            elif k == "signin":
                if sess[c]:
                    continue
                u = rng.choice("abcx")
                nch += 1
                chal[c], user[c] = nch, u
                out = yield {"op": k, "c": c + 1, "user": u, "mode": mode, "password": rng.choice(
                    ["p" + u if u != "x" else "pa", "pa", "pb", "pc", "px"])}
            elif k == "other":
                out = yield {"op": k, "c": c + 1}
            elif k == "send":
                out = yield {"op": k, "c": c + 1}
            elif k == "lose":
                if rng.random() < .5:
                    continue
                during = [x for x in logins if x[1] == c]
                if sess[c] and during and rng.random() < .5:
                    during = rng.choice(during)
                    logins.remove(during)
                    during = during[0]
                else:
                    during = 0
                up[c] = sess[c] = False
                out = yield {"op": k, "c": c + 1, "during": during}
            if not isinstance(out, list):
                return
            if k == "answer" and chal[c] == 0 and not sess[c]:
                up[c] = None
            for e in out:
                if e[0] == "avatar for" and mode != "none":
                    total += 1
                    if mode == "later":
                        logins.append((total, c))
                    else:
                        sess[c] = True
                    if mode == "start":
                        up[c] = None
    return None, gen()
