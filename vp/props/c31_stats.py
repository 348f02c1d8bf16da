"""Disk and directory statistics against specs/Stats.tla."""
import contextlib
import io
import os
import shutil
import socket
import sys
import tempfile

import epsilon
import twisted
from twisted.internet import defer, error
from twisted.python import filepath
from twisted.python.failure import Failure

from vp.bind import Binding, tla
from vp.bench import benchmark
from vp.props.c30_timing import boxes, measure

DISK = ("readCount mergedReadCount readSectorCount readMilliseconds writeCount mergedWriteCount "
        "writeSectorCount writeMilliseconds outstandingIOCount ioMilliseconds "
        "weightedIOMilliseconds").split()
PART = "readCount readSectorCount writeCount writeSectorCount".split()
# names of directories, and how a table of mounts spells them
SPELL = {"space": "a b", "tab": "a\tb", "slash": "a\\b", "slash040": "a\\040b"}


def name(n):
    return SPELL.get(n, n)


def escape(p):
    return "".join("\\%03o" % ord(c) if c in " \t\n\\" else c for c in p)


def stat(s):
    if isinstance(s, benchmark.partitionstat):
        return "partition", [getattr(s, a) for a in PART]
    if isinstance(s, benchmark.diskstat):
        return "disk", [getattr(s, a) for a in DISK]
    return repr(s), []


def text(i, l):
    sep = [" ", "   ", "\t"][i % 3]
    return ("   8%s  1%s%s%s%s" % (sep, sep, l["device"], sep, sep.join(map(str, l["fields"])))).encode("ascii") + \
        [b"\n", b" \n"][i % 2]


class Quiet(object):
    def writeToChild(self, fd, data):
        pass
    signalProcess = writeToChild


class Adapter(object):
    turn = 0

    def __init__(self, init):
        self.top = os.path.realpath(tempfile.mkdtemp(prefix="vp-stats-"))
        self.base = os.path.join(self.top, "base")
        self.tree = os.path.join(self.top, "tree")
        os.mkdir(self.base)
        os.mkdir(self.tree)
        os.mkdir(os.path.join(self.top, "other"))
        with open(os.path.join(self.top, "other", "big"), "wb") as f:
            f.write(b"x" * 1000)
        self.nodes = [self.tree]
        self.extra = 0
        self.table = []

    def do(self, e):
        k = e["op"]
        Adapter.turn += 1
        if k == "line":
            try:
                d, s = benchmark.parseDiskStatLine(text(Adapter.turn, e))
            except Exception:
                return ["error"]
            kind, values = stat(s)
            return [kind, d, values]
        elif k == "lines":
            r = {"none": 0}
            try:
                got = dict(benchmark.parseDiskStats(io.BytesIO(b"".join(
                    text(i, l) for i, l in enumerate(e["lines"])))))
            except Exception as x:
                return repr(x)
            for d, s in got.items():
                kind, values = stat(s)
                r[d] = [kind, d, values]
            return r
        elif k == "mount":
            m = e["m"]
            p = {"root": "/", "base": os.path.join(self.base, *map(name, m["p"])),
                 "near": self.base[:-1], "else": "/nowhere"}[m["at"]]
            self.table.append("%s %s ext4 rw,relatime 0 0\n" % (m["device"], escape(p)))
            return 0
        elif k == "unmount":
            self.table.pop()
            return 0
        elif k == "device":
            path = os.path.join(self.top, "mounts")
            with open(path, "w") as f:
                f.write("".join(self.table))
            d = os.path.join(self.base, *map(name, e["dir"]))
            if not os.path.isdir(d):
                os.makedirs(d)
            here = os.getcwd()
            os.chdir(d)
            try:
                return benchmark.discoverCurrentWorkingDevice(path)
            finally:
                os.chdir(here)
        elif k == "report":
            def snap(s):
                return benchmark.ResourceSnapshot(
                    time=s["time"], size=s["size"],
                    disk=benchmark.diskstat(*s["disk"]) if s["disk"] else None,
                    partition=benchmark.partitionstat(*s["part"]) if s["part"] else None)
            [box] = boxes(benchmark.formatResults(e["name"], e["sector"], snap(e["before"]), snap(e["after"]),
                                                  e["error"], e["timeout"]))
            r = dict(elapsed=int(float(box["elapsed"])), growth=int(box["filesystem_growth"]),
                     sector=int(box["sector_size"]), name=box["name"],
                     error={"True": True, "False": False}[box["error"]],
                     timeout={"True": True, "False": False}[box["timeout"]])
            for n in "read_count read_sectors write_count write_sectors read_ms write_ms".split():
                r[n] = [int(box[n])] if n in box else []
            # of this installation
            for n, v in (("host", socket.gethostname()), ("python_version", str(sys.hexversion)),
                         ("twisted_version", twisted.version.short()), ("divmod_version", epsilon.version.short()),
                         ("version", "0")):
                if box[n] != v:
                    r[n] = box[n]
            return r
        elif k == "measure":
            n = ["sda", "hdb", "vdc"][e["n"] % 3]
            names = {"part": n + str(e["n"] or ""), "disk": n, "less": n + str(e["n"])[:-1] + "0",
                     "more": n + str(e["n"]) + "1"}
            before, after = [[dict(l, device=names[l["device"]]) for l in e[w]] for w in ("before", "after")]
            return self.measure(names["part"], before, after)
        elif k == "make":
            n = e["node"]
            p = os.path.join(self.nodes[n["up"]], ["n%d", ".n%d", "n %d~"][len(self.nodes) % 3] % len(self.nodes))
            self.nodes.append(p)
            if n["kind"] == "file":
                with open(p, "wb") as f:
                    f.truncate(n["n"])
            elif n["kind"] == "dir":
                os.mkdir(p)
            elif n["kind"] == "broken":
                os.symlink("z" * n["n"], p)
            else:
                os.symlink(os.path.join(self.top, "other", "big"), p)
                self.extra += 1000
            return 0
        elif k == "size":
            dirs = sum(os.path.getsize(p) for p in self.nodes if os.path.isdir(p))
            return benchmark.getSize(filepath.FilePath(self.tree)) - dirs - self.extra

    def measure(self, device, before, after):
        """What is reported of a process run on this device, with these statistics
        when it begins and says start and when it says stop and ends."""
        B = benchmark
        used = []
        now = [before]

        def here(*a):
            used.append("device")
            return "/dev/" + device

        def stats(*a):
            used.append("stats")
            return dict(B.parseDiskStats(io.BytesIO(b"".join(text(i, l) for i, l in enumerate(now[0])))))
        old = B.discoverCurrentWorkingDevice, B.captureStats
        cwd = os.getcwd()
        out = os.path.join(self.top, "out")
        shutil.rmtree(out, ignore_errors=True)
        os.mkdir(out)
        B.discoverCurrentWorkingDevice, B.captureStats = here, stats
        try:
            os.chdir(out)

            def run():
                d = defer.Deferred()
                p = B.BenchmarkProcess(d, filepath.FilePath(self.tree))
                p.makeConnection(Quiet())
                p.childDataReceived(p.BACKCHANNEL_OUT, B.BenchmarkProcess.START)
                now[0] = after
                p.childDataReceived(p.BACKCHANNEL_OUT, B.BenchmarkProcess.STOP)
                p.childConnectionLost(2)
                p.processEnded(Failure(error.ProcessDone(0)))
                return d
            with contextlib.redirect_stdout(io.StringIO()):
                measure(u"b", filepath.FilePath(self.tree), run)
            with open("output", "rb") as f:
                data = f.read()
        finally:
            os.chdir(cwd)
            B.discoverCurrentWorkingDevice, B.captureStats = old
        if not set(used) == {"device", "stats"}:
            return None
        return [[box["name"]] + [[int(box[n])] if n in box else [] for n in
                                 "read_count read_sectors write_count write_sectors read_ms write_ms".split()]
                for box in boxes(data)]

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)


def numbers(rng, n):
    return [rng.choice([0, 1, rng.randrange(1000), rng.randrange(2 ** 31 - 1)]) for _ in range(n)]


def seam():
    """Whether one can say on which device a process runs, and its statistics."""
    a = Adapter(None)
    try:
        return a.measure("sda1", [], []) is not None
    except Exception:
        return True
    finally:
        a.close()


def measuring(rng):
    n = rng.choice([0, 1, 2, 5, 12, 25, 103])

    def lines():
        out = []
        for d in rng.sample(["part", "disk", "less", "more"], rng.choice([0, 2, 3, 4, 4])):
            k = rng.choice([4, 11, 15]) if n and d == "part" else rng.choice([11, 15, 17])
            out.append({"device": d, "fields": numbers(rng, k)})
        return out
    return {"op": "measure", "n": n, "before": lines(), "after": lines()}


def generate(rng, seam):
    names = ["a", "ab", "abc", "b", "space", "tab", "slash", "slash040", "a1"]

    def path():
        return [rng.choice(names) for _ in range(rng.randrange(4))]

    def line():
        n = rng.choice([4, 4, 11, 11, 11, 15, 17, 20])
        return {"device": rng.choice(["sda", "sda1", "dm-0", "nvme0n1p2"]), "fields": numbers(rng, n)}

    def snap(p, d):
        return {"time": rng.randrange(1000), "size": rng.randrange(10 ** 6),
                "part": numbers(rng, 4) if p else [], "disk": numbers(rng, 11) if d else []}

    def gen():
        mounts = 0
        nodes = [0]
        made = 0
        here = path()
        for _ in range(30):
            k = rng.random()
            if k < .3:
                mounts += 1
                at = rng.choice(["root", "base", "base", "base", "base", "near", "else"])
                p = here[:rng.randrange(len(here) + 1)] if rng.random() < .7 else path()
                yield {"op": "mount", "m": {"device": rng.choice(["/dev/sda1", "/dev/sdb1", "/dev/a", "/dev/z", "/dev/dm-0",
                                                                  "tmpfs", "none", "overlay", "host:/export", "0"]),
                                            "at": at, "p": p if at == "base" else []}}
            elif k < .33 and mounts:
                mounts -= 1
                yield {"op": "unmount"}
            elif k < .6:
                if rng.random() < .3:
                    here = path()
                yield {"op": "device", "dir": here}
            elif seam and k < .62:
                yield measuring(rng)
            elif k < .67:
                l = line()
                yield {"op": "line", "device": l["device"], "fields": l["fields"]}
            elif k < .72:
                yield {"op": "lines", "lines": [line() for _ in range(rng.randrange(5))]}
            elif k < .8:
                p1, p2 = rng.choice([(True, True), (True, True), (False, False), (True, False), (False, True)])
                d1, d2 = rng.choice([(True, True), (True, True), (False, False), (True, False), (False, True)])
                yield {"op": "report", "name": rng.choice(["n", "b-overall", "x y"]),
                       "sector": rng.choice([512, 4096]), "before": snap(p1, d1), "after": snap(p2, d2),
                       "error": rng.random() < .5, "timeout": rng.random() < .5}
            elif k < .92:
                kind = rng.choice(["file", "file", "dir", "broken", "link"])
                up = rng.choice(nodes)
                made += 1
                if kind == "dir":
                    nodes.append(made)
                yield {"op": "make", "node": {"up": up, "kind": kind, "n": rng.randrange(1, 120)
                                              if kind in ("file", "broken") else 0}}
            else:
                yield {"op": "size"}
        yield {"op": "device", "dir": here}
        yield {"op": "size"}
    return None, gen()


def check(run):
    b = Binding(run, "Stats", Adapter)
    known = seam()

    def mount(dev, at, *p):
        return tla({"device": dev, "at": at, "p": list(p)})
    mounts = [mount("/dev/b", "root"), mount("/dev/c", "base"), mount("/dev/z", "base"), mount("/dev/a", "base", "a"),
              mount("/dev/x", "base", "ab"), mount("/dev/y", "base", "a"), mount("/dev/n", "near"), mount("/dev/e", "else"),
              mount("tmpfs", "base", "space")]
    fields = [list(range(1, n + 1)) for n in (0, 1, 3, 4, 5, 7, 10, 11, 12, 15, 17)]
    b.cover(dict(Fields="{%s}" % ", ".join(map(tla, fields)), Mounts="{%s}" % ", ".join(mounts),
                 Dirs='{<<>>, <<"a">>, <<"ab">>, <<"a", "ab">>, <<"b">>, <<"space">>, <<"space", "a">>}',
                 Parts="{<<>>, <<5, 3, 9, 1>>, <<6, 6, 30, 8>>}",
                 Disks="{<<>>, <<1, 2, 3, 40, 5, 6, 7, 8, 9, 10, 11>>, <<100, 90, 80, 70, 60, 50, 40, 30, 20, 10, 0>>}",
                 MaxMounts=run.pick("2", "3"), Sizes="{1, 70}",
                 Numbers="{0, 1, 12}" if known else "{}"), (), ("Deepest",))
    b.histories(dict(Fields="{}", Mounts="{}", Dirs="{}", Parts="{}", Disks="{}", MaxMounts="0", Sizes="{}",
                     Numbers="{}"), lambda rng: generate(rng, known),
                run.pick(300, 5000))
