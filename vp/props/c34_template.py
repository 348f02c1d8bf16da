"""Projects from a template against specs/Template.tla."""
import contextlib
import datetime
import io
import os
import shutil
import sys
import tempfile
import time

from epsilon.asplode import main, splode
from vp.bind import Binding, tla

# there are always two days' difference between these zones
DAYS = {"<day 1>": "AAA24", "<day 2>": "BBB-24"}
MARKS = ["_project_", "_Project_", "_date_"]


class Adapter(object):
    turn = 0

    def __init__(self, init):
        self.top = os.path.realpath(tempfile.mkdtemp(prefix="vp-template-"))
        self.lines = []
        self.days = {}
        self.old = os.environ.get("TZ")
        self.day = "<day 1>"
        self.dawn()
        Adapter.turn += 1

    def dawn(self):
        os.environ["TZ"] = DAYS[self.day]
        time.tzset()

    def undated(self, s):
        for d, name in self.days.items():
            s = s.replace(d, name)
        return s

    def do(self, e):
        if e["op"] == "day":
            self.day = e["to"]
            self.dawn()
            return []
        if e["op"] == "line":
            if e["file"]:
                Adapter.turn += 1
                before, after = [("", ""), ("# ", ""), ("", "  "), (" ", "\t")][Adapter.turn % 4]
                self.lines.append("%s###file:%s%s%s\n" % (before, [" ", ""][Adapter.turn % 2],
                                                         "".join(e["file"]), after))
            else:
                self.lines.append("".join(e["parts"]) + "\n")
            return []
        here = os.getcwd()
        err = io.StringIO()
        self.days[str(datetime.date.today())] = self.day
        try:
            os.chdir(self.top)
            with contextlib.redirect_stderr(err):
                Adapter.turn += 1
                if (e["name"], e["cap"]) == ("zoop", "Zoop") and Adapter.turn % 3 == 0:
                    # what it is for if run as a program
                    old, sys.stdin = sys.stdin, io.StringIO("".join(self.lines))
                    try:
                        main(["asplode"])
                    finally:
                        sys.stdin = old
                else:
                    splode(iter(self.lines), e["name"], e["cap"])
        finally:
            os.chdir(here)
        self.days[str(datetime.date.today())] = self.day
        files = []
        for dirpath, dirs, names in os.walk(self.top):
            for n in names:
                p = os.path.join(dirpath, n)
                with open(p, "rb") as f:
                    data = f.read().decode("utf-8")
                data = self.undated(data)
                rel = self.undated(os.path.relpath(p, self.top))
                if data and not data.endswith("\n"):
                    data += "<no end>"
                files.append([rel, data.split("\n")[:-1]])
        made = []
        for l in err.getvalue().splitlines():
            if l.startswith("Created: "):
                made.append(self.undated(l[len("Created: "):]))
        return [sorted(files), made]

    def close(self):
        if self.old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = self.old
        time.tzset()
        shutil.rmtree(self.top, ignore_errors=True)


def project(out):
    """Names and lines as text; the files in order."""
    if not isinstance(out, list) or len(out) != 2:
        return out

    def text(x):
        return "".join(x) if isinstance(x, list) else x
    return [sorted([text(n), [text(l) for l in ls]] for n, ls in out[0]), [text(n) for n in out[1]]]


def generate(rng):
    words = ["x", " ", "a/b", "def f():", "\t", u"\xe9", "projects", "_proj", "#", "dates", "'"]

    def name():
        return rng.choice([["README"], ["_Project_", "/setup.py"], ["_Project_", "/", "_project_", "/__init__.py"],
                           ["a/b/c/", "_project_", ".txt"], ["_project_"], ["a/x"], ["a/y"], ["_date_", ".txt"],
                           ["READ ME"], ["notes for ", "_project_", ".txt"], ["a b/", "_project_", " x"], ["a#b"]])

    def gen():
        yield {"op": "line", "file": name(), "parts": []}
        for _ in range(rng.randrange(1, 25)):
            k = rng.random()
            if k < .25:
                yield {"op": "line", "file": name(), "parts": []}
            elif k < .9:
                yield {"op": "line", "file": [], "parts": [rng.choice(words + MARKS)
                                                           for _ in range(rng.randrange(6))]}
            elif k < .93:
                yield {"op": "day", "to": rng.choice(sorted(DAYS))}
            else:
                n = rng.choice(["zoop", "other", "thing2"])
                yield {"op": "splode", "name": n, "cap": n.capitalize()}
        yield {"op": "splode", "name": "zoop", "cap": "Zoop"}
    return None, gen()


def check(run):
    b = Binding(run, "Template", Adapter, project)
    b.together = False      # they share what is one per process
    b.cover(dict(Names='{<<"a">>, <<"a b">>, <<"d/", "_project_", "/x">>, <<"_Project_">>}',
                 Texts='{<<>>, <<"_project_", " ", "_Project_">>, <<"x", "_date_">>}',
                 MaxLines=run.pick("3", "4"), MaxRuns="2"), ("NoneLeft",), ("Grows",))
    b.histories(dict(Names="{}", Texts="{}", MaxLines="0", MaxRuns="0"), generate, run.pick(200, 4000))
