"""LineReceiver against specs/Liner.tla."""
from epsilon.liner import LineReceiver
from vp.bind import Binding


# Bytes of the specification which stand for very many.
MANY = {b"\x01": b"m" * 70000, b"\x02": b"k" * 1100000}


def long(chunk):
    for short, much in MANY.items():
        chunk = chunk.replace(short, much)
    return chunk


def brief(data):
    if len(data) >= 70000:
        for short, much in MANY.items():
            data = bytes(data).replace(much, short)
    return list(data)


class Transport(object):
    disconnecting = False

    def loseConnection(self):
        self.disconnecting = True


class User(LineReceiver):
    quota = 0

    def lineReceived(self, line):
        self.events.append(["line", brief(line)])
        if line[:1] == b"R":
            self.quota = len(line)
            self.setRawMode()
        elif line[:1] == b"F":
            self.quota = 0
            self.setRawMode()
        elif line[:1] == b"C" and line[1:]:
            self.delimiter = line[1:]
        elif line[:1] == b"Q":
            self.quota = 0
            self.setRawMode()
        if line[:1] in (b"D", b"Q") and self.transport is not None:
            self.transport.loseConnection()

    def rawDataReceived(self, data):
        quota = self.quota or len(data)
        if b"X" in data[:quota] and self.transport is not None:
            end = data.index(b"X") + 1
            self.raw(data[:end])
            self.quota = 0
            self.transport.loseConnection()
            self.setLineMode(data[end:])
            return
        if self.quota and len(data) >= self.quota:
            data, rest = data[:self.quota], data[self.quota:]
            self.raw(data)
            self.quota = 0
            if len(rest) % 3 == 2:      # given back in two pieces
                self.setLineMode(rest[:1])
                self.dataReceived(rest[1:])
            else:
                self.setLineMode(rest)
        else:
            if self.quota:
                self.quota -= len(data)
            self.raw(data)

    def raw(self, data):
        if self.events and self.events[-1][0] == "raw":
            self.events[-1][1].extend(data)
        elif data:
            self.events.append(["raw", list(data)])


class Adapter(object):
    def __init__(self, init):
        delim, wired = (init["delim"], init["wired"]) if isinstance(init, dict) else init[:2]
        self.p = User()
        self.p.delimiter = bytes(delim)
        self.p.events = []
        if wired:
            self.p.makeConnection(Transport())

    def do(self, op):
        self.p.events = []
        if op["op"] == "feed":
            self.p.dataReceived(long(bytes(op["chunk"])))
        elif op["op"] == "setraw":
            self.p.quota = 0
            self.p.setRawMode()
        else:
            self.p.quota = 0
            self.p.setLineMode(long(bytes(op["chunk"])))
        return [[k, brief(bytes(v)) if len(v) > 1000 else v] for k, v in self.p.events]


def generate(rng):
    start = rng.choice([[13, 10]] * 4 + [[10], [0], [97, 97, 98], [45, 45]])
    wired = rng.random() < .8

    def gen():
        delim = start
        stream = []
        for _ in range(rng.randint(3, 25)):
            n = rng.choice([0, 1, 1, 2, 5, 17, 60])
            first = rng.choice([[], [], [82], [82]])
            line = first + [rng.choice([97, 98, 13, 10, 45, 0, 255, 82, 32]) for _ in range(n)]
            change = rng.choice([[10], [97, 97, 98], [45, 45], [13, 10]]) if rng.random() < .1 else None
            if change and all(delim[:1] != [x] for x in change):
                stream += [67] + change + delim
                delim = change
            stream += line + delim
            if first:
                stream += [rng.choice([13, 10, 97, 82, 255]) for _ in range(len(line))]
        if rng.random() < .5:
            stream += [rng.choice([68, 70, 81, 70, 88])] + delim + [97] * rng.randrange(6) + rng.choice([[], [88]]) + delim + [98] + delim
        style = rng.choice(["bytes", "mixed", "big", "all"])
        i = 0
        closed = False
        own = rng.choice([0, 0, .05])
        while i < len(stream):
            n = {"bytes": 1, "mixed": rng.choice([1, 1, 2, 3, 7, 20]),
                 "big": rng.randint(10, 200), "all": len(stream)}[style]
            k = "feed"
            if rng.random() < own and not closed:
                if rng.random() < .5:
                    yield {"op": "setraw"}
                else:
                    k = "setline"
            out = yield {"op": k, "chunk": stream[i:i + n]}
            i += n
            if wired and isinstance(out, list) and any(
                    e[0] == "line" and e[1][:1] in ([68], [81]) or e[0] == "raw" and 88 in e[1] for e in out):
                closed = True
    return {"delim": start, "wired": wired}, gen()


def lengthy(rng):
    """Very long lines."""
    def gen():
        stream = []
        for _ in range(rng.randint(2, 5)):
            line = [rng.choice([97, 98, 1, 1, 1, 2, 13]) for _ in range(rng.randint(0, 6))]
            stream += line + [13, 10]
        if rng.random() < .3:
            stream += [70, 13, 10, 1, 97, 2, 1, 13, 10]
        while stream:
            n = rng.choice([1, 2, 3, 5, 50])
            yield {"op": "feed", "chunk": stream[:n]}
            del stream[:n]
    return {"delim": [13, 10], "wired": rng.random() < .8}, gen()


def check(run):
    b = Binding(run, "Liner", Adapter)
    inv = ("Prompt", "ClosedKeepsNothing")
    short = "MC_Short == Short(%d)"
    if not run.thorough:
        b.cover(dict(Alphabet="{97, 13, 10}", MaxChunk="3", Delims="{<<13, 10>>}"), inv, ("Silent",),
                extra=short % 3, constraint="MC_Short")
        b.cover(dict(Alphabet="{82, 13, 10}", MaxChunk="4", Delims="{<<13, 10>>}"), inv, ("Silent",),
                extra=short % 2, constraint="MC_Short")
        b.cover(dict(Alphabet="{82, 68, 70, 10}", MaxChunk="4", Delims="{<<10>>}"), inv, ("Silent",),
                extra=short % 1, constraint="MC_Short")
        b.cover(dict(Alphabet="{82, 81, 88, 10}", MaxChunk="4", Delims="{<<10>>}"), inv, ("Silent",),
                extra=short % 1, constraint="MC_Short")
    else:
        b.cover(dict(Alphabet="{97, 82, 13, 10}", MaxChunk="4", Delims="{<<13, 10>>}"), inv, ("Silent",),
                extra=short % 4, constraint="MC_Short")
        b.cover(dict(Alphabet="{97, 82, 68, 70, 10}", MaxChunk="5", Delims="{<<10>>}"), inv, ("Silent",),
                extra=short % 2, constraint="MC_Short")
        b.cover(dict(Alphabet="{82, 81, 88, 70, 10}", MaxChunk="5", Delims="{<<10>>}"), inv, ("Silent",),
                extra=short % 2, constraint="MC_Short")
        b.cover(dict(Alphabet="{97, 98}", MaxChunk="6", Delims="{<<97, 97, 98>>, <<97, 97>>}"), inv, ("Silent",),
                extra=short % 4, constraint="MC_Short")
    b.cover(dict(Alphabet="{67, 97, 10}", MaxChunk="4", Delims="{<<10>>}"), inv, ("Silent",),
            extra=short % run.pick(2, 3), constraint="MC_Short")
    # many switches between the modes in one chunk
    many = [82, 13, 10, 120] * 450
    b.histories(dict(Alphabet="{}", MaxChunk="0", Delims="{}"),
                lambda rng: ({"delim": [13, 10], "wired": True}, iter([{"op": "feed", "chunk": many}])), 1)
    b.histories(dict(Alphabet="{}", MaxChunk="0", Delims="{}"), lengthy, run.pick(10, 100))
    b.histories(dict(Alphabet="{}", MaxChunk="0", Delims="{}"), generate, run.pick(150, 3000))
