"""Starting processes and stdio services against specs/Process.tla."""
import importlib
import os
import shutil
import subprocess
import sys
import tempfile

from twisted.application.service import MultiService
from twisted.internet import reactor
from twisted.internet.protocol import Protocol

from epsilon import process
from vp.bind import Binding, tla

DIRS = ["a", "b", "lib/x", "libx", "lib"]
LIBRARY = {"lib/x"}
SERVICES = [1, 2, 3]
CHILD = """
import sys
for n in sys.argv[1:]:
    try:
        m = __import__(n)
        print(1 if m.__file__.startswith(%r) else 0)
    except ImportError:
        print(0)
"""


class Transport(object):
    def loseConnection(self):
        pass


class Adapter(object):
    count = 0

    def __init__(self, init):
        Adapter.count += 1
        self.prefix = "vp%dq" % Adapter.count
        self.top = os.path.realpath(tempfile.mkdtemp(prefix="vp-process-"))
        for d in DIRS:
            d = os.path.join(self.top, d)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            if os.path.basename(d) == "b":
                # a directory by the name of a link to it
                to = os.path.join(self.top, "lib", "of-b")
                os.makedirs(to)
                os.symlink(to, d)
            else:
                os.makedirs(d, exist_ok=True)
        self.path = []
        self.parent = MultiService()
        self.connected = []
        self.protocols = {s: Protocol() for s in SERVICES}
        self.services = {s: process.StandardIOService(self.protocols[s]) for s in SERVICES}

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)
        for m in [m for m in sys.path_importer_cache if m.startswith(self.top)]:
            del sys.path_importer_cache[m]

    def dir(self, d):
        return os.path.join(self.top, d)

    def undir(self, p):
        for d in DIRS:
            if p == self.dir(d):
                return d
        return "?" + p

    def do(self, e):
        k = e["op"]
        if k == "place":
            p = os.path.join(self.dir(e["dir"]), self.prefix + e["name"])
            if e["kind"] == "package":
                os.makedirs(p, exist_ok=True)
                p = os.path.join(p, "__init__")
            elif e["kind"] == "directory":
                os.makedirs(p, exist_ok=True)
                return []
            open(p + ".py", "w").close()
            return []
        elif k == "search":
            self.path = e["path"]
            return []
        elif k == "spawn":
            return self.spawn(e)
        return self.serve(e)

    def spawn(self, e):
        calls = []

        class Answer(object):
            pass
        proto, answer = object(), Answer()

        def spawnProcess(processProtocol, executable, args=(), env={}, path=None, uid=None, gid=None,
                         usePTY=0, childFDs=None):
            calls.append((processProtocol, executable, args, env, path, uid, gid, usePTY, childFDs))
            return answer
        own = os.pathsep.join(self.dir(d) for d in e["own"])
        rest = dict(args=["prog", "-x", "a b"], path="/nowhere", uid=12, gid=34, usePTY=1)
        if len(e["own"] + e["pkgs"]) % 2:
            rest.update(uid=0, gid=0, args=[], path="")
        names = ["args", "path", "uid", "gid", "usePTY"]
        default = dict(args=(), path=None, uid=None, gid=None, usePTY=0)
        given = {n: rest[n] for n, x in zip(names, e["rest"]) if x}
        want = dict(default, **given)
        base = {"HOME": "/here", "VP": "1"}
        kw = dict(given)
        inherited = dict(os.environ)
        environ = dict(base)
        if e["own"] or e["env"] == "empty":
            environ["PYTHONPATH"] = own
        if e["env"] == "default":
            environ = {}
        elif e["env"] != "inherit":
            kw["env"] = environ
        else:
            kw["env"] = None
        before = dict(environ)
        if e["pkgs"] or len(self.path) % 2:
            pkgs = [self.prefix + n for n in e["pkgs"]]
            kw["packages"] = iter(pkgs) if len(pkgs) == 2 else tuple(pkgs)
        path, prefix, old = sys.path[:], sys.prefix, os.environ.copy()
        cwd = os.getcwd()
        importlib.invalidate_caches()
        try:
            sys.path[:] = [self.dir(d) for d in self.path] + path
            sys.prefix = self.top
            if e["env"] == "inherit":
                os.environ.clear()
                os.environ.update(environ)
            reactor.spawnProcess = spawnProcess
            try:
                if e["how"] == "python":
                    r = process.spawnPythonProcess(proto, **kw)
                elif e["how"] == "plain":
                    # all by position
                    all = dict(default, env={}, packages=())
                    all.update(kw)
                    r = process.spawnProcess(proto, "/bin/prog", *[
                        all[n] for n in ["args", "env", "path", "uid", "gid", "usePTY", "packages"]])
                else:
                    r = process.spawnProcess(proto, "/bin/prog", **kw)
            except ImportError:
                return {"refused": True} if not calls else ["refused late"]
            after = dict(os.environ) if e["env"] == "inherit" else environ
        finally:
            sys.path[:] = path
            sys.prefix = prefix
            del reactor.spawnProcess
            os.environ.clear()
            os.environ.update(old)
        if len(calls) != 1 or r is not answer or after != before:
            return ["calls", len(calls), r is answer, after == before]
        p, exe, args, env, wd, uid, gid, pty, fds = calls[0]
        if p is not proto or fds is not None or exe != (sys.executable if e["how"] == "python" else "/bin/prog"):
            return ["program", str(exe)]
        got = dict(args=args, path=wd, uid=uid, gid=gid, usePTY=pty)
        if got != want:
            return ["arguments", repr(got)]
        env = dict(env)
        full = env.pop("PYTHONPATH", "")
        entries = full.split(os.pathsep) if full else []
        before.pop("PYTHONPATH", None)
        if env != before:
            return ["environment", repr(env)]
        n = len(entries) - len(e["own"])
        front = sorted([self.undir(x) for x in entries[:max(n, 0)]],
                       key=lambda d: (DIRS.index(d) if d in DIRS else -1, d))
        able = [False] * len(e["pkgs"])
        if e["child"]:
            out = subprocess.run([sys.executable, "-c", CHILD % (self.top,)] + [self.prefix + n for n in e["pkgs"]],
                                 env=dict(env, PYTHONPATH=full, PYTHONDONTWRITEBYTECODE="1"), cwd=self.top,
                                 stdout=subprocess.PIPE, check=True)
            able = [x == b"1" for x in out.stdout.split()]
        return {"refused": False, "how": e["how"], "rest": e["rest"], "env": e["env"], "front": front,
                "own": [self.undir(x) for x in entries[max(n, 0):]], "able": able}

    def serve(self, e):
        connected = []
        old = process.StandardIO

        def io(p, *a, **kw):
            connected.append(p)
            p.makeConnection(Transport())
        process.StandardIO = io
        try:
            k = e["op"]
            s = self.services.get(e.get("s"))
            if k == "attach":
                s.setServiceParent(self.parent)
            elif k == "detach":
                s.disownServiceParent()
            elif k == "start":
                s.startService()
            elif k == "stop":
                s.stopService()
            elif k == "startAll":
                self.parent.startService()
            else:
                self.parent.stopService()
        finally:
            process.StandardIO = old
        back = {id(p): s for s, p in self.protocols.items()}
        return {"connected": [back.get(id(p), "?") for p in connected],
                "running": [bool(self.services[s].running) for s in SERVICES]}


NAMES = ["p", "q", "r"]
ENVS = ["given", "default", "inherit", "empty"]


def spawning(rng, child):
    own = [rng.choice(DIRS) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    return {"op": "spawn", "how": rng.choice(["python", "program", "plain"]),
            "pkgs": [rng.choice(NAMES) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))],
            "own": own, "env": rng.choice(["given", "inherit"] if own else ENVS),
            "rest": [rng.random() < .5 for _ in range(5)], "child": child}


def generate(rng):
    def gen():
        kids, running, on, placed = [], set(), False, set()
        path = rng.sample(DIRS, rng.randrange(1, len(DIRS) + 1))
        yield {"op": "search", "path": path}
        for _ in range(rng.randrange(8, 30)):
            k = rng.choice(["place", "place", "spawn", "spawn", "spawn", "search", "serve", "serve"])
            if k == "place":
                p = (rng.choice(DIRS), rng.choice(NAMES))
                if rng.random() < .15:
                    yield {"op": "place", "dir": p[0], "name": p[1], "kind": "directory"}
                elif p not in placed:
                    placed.add(p)
                    yield {"op": "place", "dir": p[0], "name": p[1], "kind": rng.choice(["package", "module"])}
            elif k == "search":
                yield {"op": "search", "path": rng.sample(DIRS, rng.randrange(1, len(DIRS) + 1))}
            elif k == "spawn":
                yield spawning(rng, rng.random() < .05)
            else:
                s = rng.choice(SERVICES)
                if rng.random() < .3:
                    if on:
                        running -= set(kids)
                        on = False
                        yield {"op": "stopAll"}
                    elif not running & set(kids):
                        running |= set(kids)
                        on = True
                        yield {"op": "startAll"}
                elif s in kids:
                    kids.remove(s)
                    if on:
                        running.discard(s)
                    yield {"op": "detach", "s": s}
                elif s in running:
                    running.discard(s)
                    yield {"op": "stop", "s": s}
                elif rng.random() < .6:
                    kids.append(s)
                    if on:
                        running.add(s)
                    yield {"op": "attach", "s": s}
                else:
                    running.add(s)
                    yield {"op": "start", "s": s}
    return None, gen()


def check(run):
    b = Binding(run, "Process", Adapter)
    base = dict(DirOrder=tla(DIRS), Library=tla(LIBRARY), Names=tla({"p", "q"}),
                Services=tla(set(SERVICES)), MaxPlaced="2", Hows='{"program"}', Envs='{"given"}',
                Rests=tla({(False,) * 5}))
    paths = [["a", "b"], ["b", "a"], ["lib/x", "libx"], ["libx", "lib/x", "a"], ["lib", "a"]]
    asked = [[], ["p"], ["p", "q"], ["q", "p", "q"]]
    b.cover(dict(base, Paths=tla(set(map(tuple, paths))), Asked=tla(set(map(tuple, asked))),
                 Owns="{<<>>, %s}" % tla(["a"]), MaxPlaced=run.pick("2", "3")),
            ("Reaches", "NothingMore"), name="places")
    b.cover(dict(base, Paths=tla({("a", "b")}), Asked="{<<>>, %s}" % tla(["p"]), Owns="{<<>>}",
                 Hows='{"python", "program", "plain"}', Envs=tla(set(ENVS)), Names='{"p"}', MaxPlaced="1",
                 Rests="[1..5 -> BOOLEAN]"),
            ("Reaches", "NothingMore"), name="arguments")
    b.cover(dict(base, Paths="{}", Asked="{}", Owns="{}"), ("Family",), ("Connects",), name="services",
            next="ServeNext")
    b.histories(dict(base, Paths="{}", Asked="{}", Owns="{}"), generate, run.pick(150, 3000))
