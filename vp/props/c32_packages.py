"""The packages of source trees against specs/Packages.tla."""
import contextlib
import importlib
import io
import os
import shutil
import sys
import tempfile

from twisted import plugin

from epsilon import setuphelper
from vp.bind import Binding


class Command(object):
    pass


class Dist(object):
    def __init__(self, kw, commands, lib):
        self.kw = kw
        self.commands = commands
        self.command_obj = {}
        for c in commands:
            self.command_obj[c] = Command()
            self.command_obj[c].install_lib = lib if c == 'install' else '/nowhere'


BAD = ["raise RuntimeError('bad')\n", "def (\n", "import vp_nonesuch\n", "raise ValueError('x')\n",
       "raise ValueError('Empty module name')\n", "raise SystemExit(1)\n", "{}[1]\n"]


class Adapter(object):
    count = 0
    turn = 0

    def __init__(self, init):
        # realistic names, which no installed module has
        Adapter.count += 1
        self.prefix = "vp%dx" % Adapter.count
        self.top = os.path.realpath(tempfile.mkdtemp(prefix="vp-packages-"))
        self.dirs = [self.top]

    def name(self, up, n):
        if up or n[0] == "." or n == "__pycache__":
            return n
        return "_" * n.startswith("_") + self.prefix + n.lstrip("_")

    def plain(self, comps):
        return [comps[0].replace(self.prefix, "", 1)] + list(comps[1:])

    def do(self, e):
        k = e["op"]
        if k == "mkdir":
            p = os.path.join(self.dirs[e["up"]], self.name(e["up"], e["name"]))
            os.mkdir(p)
            self.dirs.append(p)
            return []
        elif k == "file":
            with open(os.path.join(self.dirs[e["dir"]], e["name"]), "w") as f:
                Adapter.turn += 1
                f.write(BAD[Adapter.turn % len(BAD)] if e["bad"] else "")
            return []
        return self.setup(e)

    def decoy(self):
        """Another version of the same packages, elsewhere on the path."""
        decoy = os.path.realpath(tempfile.mkdtemp(prefix="vp-packages-"))
        for up, dirs, files in os.walk(self.top):
            here = os.path.join(decoy, os.path.relpath(up, self.top))
            os.makedirs(here, exist_ok=True)
            if "__init__.py" in files:
                open(os.path.join(here, "__init__.py"), "w").close()
        return decoy

    def setup(self, e):
        got = []
        cached = []
        result = []

        def setup(**kw):
            got.append(kw)
            d = Dist(kw, ["build"] + ["install"] * e["install"] +
                     ["sdist", "install_data"][:Adapter.turn % 2 + 1] * e["other"], self.top)
            if Adapter.turn % 3 == 0 and not e["install"]:
                # another command looked at what installing would do
                d.command_obj['install'] = Command()
                d.command_obj['install'].install_lib = self.top
            result.append(d)
            return d

        def getPlugins(interface, module):
            # as the real one: nothing happens before somebody iterates
            name = self.plain(module.__name__.split(".")[:-1])
            if interface is not plugin.IPlugin:
                name.append("not of IPlugin")
            if not list(module.__path__)[0].startswith(self.top + os.sep):
                name.append("not as installed")
            cached.append(name)
            return
            yield
        here, path, modules = os.getcwd(), sys.path[:], set(sys.modules)
        old = setuphelper.setup, plugin.getPlugins
        importlib.invalidate_caches()
        kw = {"name": "thing", "version": "1"}
        if e["given"]:
            if len(self.dirs) % 2:
                kw["packages"] = ["thing"]
            else:
                kw["package_data"] = {}
        decoy = self.decoy()
        try:
            os.chdir(self.top)
            sys.path.insert(0, decoy)
            setuphelper.setup, plugin.getPlugins = setup, getPlugins
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                r = setuphelper.autosetup(**kw)
        except AssertionError:
            return {"refused": True}
        finally:
            os.chdir(here)
            setuphelper.setup, plugin.getPlugins = old
            sys.path[:] = path
            shutil.rmtree(decoy)
            for m in set(sys.modules) - modules:
                if self.prefix in m:
                    del sys.modules[m]
        if len(got) != 1 or r is not result[0]:
            return ["setup called %d times" % len(got)]
        kw = got[0]
        if (kw.pop("name", None), kw.pop("version", None)) != ("thing", "1"):
            return ["arguments lost"]
        out = {"packages": sorted(self.plain(p.split(".")) for p in kw.pop("packages")),
               "data": sorted([self.plain([p])[0], sorted(f.split("/") for f in fs)]
                              for p, fs in kw.pop("package_data").items()),
               "cached": sorted(cached)}
        if kw:
            out["more"] = sorted(kw)
        return out

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)


def project(out):
    """Order does not count."""
    if isinstance(out, dict) and "packages" in out:
        return dict(packages=sorted(out["packages"]), cached=sorted(out["cached"]),
                    data=sorted([p, sorted(fs)] for p, fs in out["data"]))
    return out


DIRS = ["a", "b", "plugins", ".git", ".hidden", "__pycache__", "test", "_own", "CVS", "build"]
FILES = ["__init__.py", "mod.py", "mod.pyc", "other.pyo", "dropin.cache", "x.txt", "noext", ".dot", ".py", ".pyc",
         "x.PY", "a.py.txt", "a.b.py", "py", "x.pyo~", "__init__.txt", "init.cfg", "x.pyw", "x.cache", "mod.pyd", "DROPIN.CACHE"]


def generate(rng):
    def gen():
        dirs = {0: set()}
        files = {}
        n = 0
        for _ in range(rng.randrange(5, 40)):
            k = rng.random()
            if k < .4:
                up = rng.choice(sorted(dirs))
                name = rng.choice(DIRS)
                if name not in dirs[up] and not (up == 0 and name == "plugins"):
                    n += 1
                    dirs[up].add(name)
                    dirs[n] = set()
                    yield {"op": "mkdir", "up": up, "name": name}
            elif k < .9:
                d = rng.choice(sorted(dirs))
                name = rng.choice(FILES + ["__init__.py"] * 4)
                if name not in files.setdefault(d, set()) and not (d == 0 and name == "__init__.py"):
                    files[d].add(name)
                    yield {"op": "file", "dir": d, "name": name,
                           "bad": name == "__init__.py" and rng.random() < .2}
            else:
                yield {"op": "setup", "install": rng.random() < .5, "other": rng.random() < .5, "given": rng.random() < .05}
        yield {"op": "setup", "install": True, "other": rng.random() < .5, "given": False}
    return None, gen()


def plugins(rng):
    """Several packages for plugins, of which some do not work."""
    def gen():
        names = rng.sample(["a", "b", "c", "test", "d"], rng.randrange(2, 6))
        n = 0
        for name in names:
            n += 1
            top = n
            yield {"op": "mkdir", "up": 0, "name": name}
            if rng.random() < .2:
                yield {"op": "file", "dir": top, "name": "__init__.py", "bad": rng.random() < .3}
            n += 1
            yield {"op": "mkdir", "up": top, "name": "plugins"}
            if rng.random() < .6:
                yield {"op": "file", "dir": n, "name": "__init__.py", "bad": rng.random() < .6}
            if rng.random() < .5:
                yield {"op": "file", "dir": n, "name": rng.choice(["mod.py", "dropin.cache", "x.txt"]), "bad": False}
        yield {"op": "setup", "install": True, "other": rng.random() < .5, "given": False}
        yield {"op": "setup", "install": rng.random() < .5, "other": rng.random() < .5, "given": False}
    return None, gen()


def check(run):
    b = Binding(run, "Packages", Adapter, project)
    b.more = 2
    b.cover(dict(DirNames='{"a", "plugins", ".git"}', FileNames='{"__init__.py", "mod.py", "x.txt"}',
                 MaxDirs=run.pick("2", "3"), MaxFiles=run.pick("2", "2")), ("Apart",))
    b.histories(dict(DirNames="{}", FileNames="{}", MaxDirs="0", MaxFiles="0"), generate, run.pick(300, 5000))
    b.histories(dict(DirNames="{}", FileNames="{}", MaxDirs="0", MaxFiles="0"), plugins, run.pick(150, 1500))
