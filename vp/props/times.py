"""Time instances against specs/Extime.tla."""
import datetime
import operator

from epsilon import extime
from epsilon.extime import InvalidPrecision, Time

NOZONE = 9999
EPOCH = datetime.datetime(1970, 1, 1)
MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
DAYS = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"]


class Zone(datetime.tzinfo):
    def __init__(self, minutes):
        self.minutes = minutes

    def utcoffset(self, dt):
        return datetime.timedelta(minutes=self.minutes)

    def dst(self, dt):
        return datetime.timedelta(0)

    def tzname(self, dt):
        return "zone"


class Varying(datetime.tzinfo):
    """An hour ahead from April 10th to November 10th."""
    def __init__(self, minutes):
        self.winter = datetime.timedelta(minutes=minutes)

    def summer(self, dt):
        return 410 <= dt.month * 100 + dt.day < 1110

    def utcoffset(self, dt):
        return self.winter + self.dst(dt)

    def dst(self, dt):
        # as tzinfo requires, this is asked for a wall clock with no offset
        first = dt - datetime.timedelta(hours=0 if dt.fold else 1)
        return datetime.timedelta(hours=1 if self.summer(first) else 0)

    def fromutc(self, dt):
        dt = dt + self.winter
        if self.summer(dt):
            return dt + datetime.timedelta(hours=1)
        # the second time the clock says this
        return dt.replace(fold=1) if self.summer(dt - datetime.timedelta(hours=1)) else dt

    def tzname(self, dt):
        return "varying"


class Odd(datetime.tzinfo):
    """An offset which is no whole number of minutes."""
    def __init__(self, seconds):
        self.seconds = seconds

    def utcoffset(self, dt):
        return datetime.timedelta(seconds=self.seconds)

    def dst(self, dt):
        return datetime.timedelta(0)

    def tzname(self, dt):
        return "odd"


def zone(z):
    if z == NOZONE:
        return None
    if z > 15000:
        return Varying(z - 20000)
    if z % 3 == 0:
        return Zone(z)
    h, m = divmod(abs(z), 60)
    return extime.FixedOffset(h, m) if z >= 0 else extime.FixedOffset(-h, -m)


def point(dt):
    return [dt.toordinal(), dt.hour * 3600 + dt.minute * 60 + dt.second, dt.microsecond]


def delta(td):
    return [td.days, td.seconds, td.microseconds]


def period(t):
    return [point(t.asNaiveDatetime()), delta(t.resolution)]


def start(t):
    return [point(t.asNaiveDatetime())]


def spoil(s, how):
    """Text like s, which is not that of a time."""
    return [lambda: s + "x", lambda: s + " ", lambda: " " + s, lambda: "+" + s, lambda: s + "-", lambda: s + ".",
            lambda: s[:3], lambda: "", lambda: s.replace("T", " ") if "T" in s else s + "T",
            lambda: "x" + s][how]()


def isotext(e):
    d, c = e.get("sepd", ["-", "-"]), e.get("sept", [":", ":", ":"])
    s = "%04d" % e["y"]
    k = e["kind"]
    if k == "month":
        s += d[0] + "%02d" % e["a"]
    elif k == "date":
        s += d[0] + "%02d" % e["a"] + d[1] + "%02d" % e["b"]
    elif k == "week":
        s += d[0] + "W%02d" % e["a"]
    elif k == "weekday":
        s += d[0] + "W%02d" % e["a"] + d[1] + "%d" % e["b"]
    elif k == "yearday":
        s += d[0] + "%03d" % e["a"]
    p = e["prec"]
    if p == "day":
        return s
    s += "T%02d" % e["h"]
    if p != "hour":
        s += c[0] + "%02d" % e["mi"]
    if p in ("sec", "frac"):
        s += c[1] + "%02d" % e["s"]
    if p == "frac":
        s += e.get("point", ".") + "".join(map(str, e["frac"]))
    z = e["zone"]
    if z == "Z":
        s += "Z"
    elif z in "+-":
        s += "%s%02d" % (z, e["zh"])
        if e["zm"] or not e.get("zshort"):
            s += c[2] + "%02d" % e["zm"]
    return s


def humantext(e):
    w = e["what"]
    if w == "weekday":
        s = e.get("prefix", "") + DAYS[e["n"]]
    elif w == "junk":
        s = e["text"]
    elif w == "time":
        s = ("%02d" if e.get("wide") else "%d") % e["h"] + ":%02d" % e["mi"] + \
            (e.get("gap", "") + e["ampm"] if e["ampm"] else "")
    else:
        s = w
    st = e.get("style", 0)
    if st == 1:
        s = s.upper()
    elif st == 2:
        s = " " + s.capitalize() + "  "
    elif st == 3:
        s = "".join(c.upper() if i % 2 else c for i, c in enumerate(s)) + "\t"
    return s


class Adapter(object):
    def __init__(self, init):
        t = Time.fromDatetime(datetime.datetime(2004, 12, 6, 14, 15, 16))
        self.reg = {"x": t, "y": Time.fromDatetime(t.asNaiveDatetime())}

    def set(self, e, f, *a, **k):
        try:
            t = f(*a, **k)
        except ValueError:
            return ["bad"]
        if type(t) is not Time:
            return ["not a Time", repr(t)]
        self.reg[e["r"]] = t
        return period(t)

    def do(self, e):
        k = e["op"]
        x, y = self.reg["x"], self.reg["y"]
        t = self.reg.get(e.get("r", "x"))
        z = zone(e["zone"]) if isinstance(e.get("zone"), int) else None
        before = [(period(r), r) for r in (x, y)]
        out = self.do1(k, e, x, y, t, z)
        for was, r in before:
            if period(r) != was:
                return ["instance changed", was, period(r)]
        return out

    def bynow(self, f, zone):
        """Whether what depends on the present time does so when none is given."""
        if zone is not None and zone > 15000:
            return True         # wall clocks which go back
        def run(*now):
            try:
                return f(*now)
            except ValueError:
                return None
        clock = datetime.datetime.utcnow
        a, lo, t, hi, b = clock(), Time(), run(), Time(), clock()
        ts = [run(lo), t, run(hi)]
        if not start(Time.fromDatetime(a)) <= start(lo) <= start(hi) <= start(Time.fromDatetime(b)) or \
                lo.resolution != Time.resolution:
            return False
        if None in ts:
            return ts == [None] * 3
        return len({x.resolution for x in ts}) == 1 and start(ts[0]) <= start(ts[1]) <= start(ts[2])

    def do1(self, k, e, x, y, t, z):
        if k == "iso":
            text = isotext(e)
            if "spoil" in e:
                text = spoil(text, e["spoil"])
            return self.set(e, Time.fromISO8601TimeAndDate, text,
                            *([zone(e["arg"])] if e["arg"] != NOZONE else []))
        if k == "struct":
            return self.set(e, Time.fromStructTime,
                            (e["y"], e["mo"], e["d"], e["h"], e["mi"], e["s"], 0, 0, e.get("dst", 0)), z)
        if k == "rfc2822":
            s = "%d %s %d %02d:%02d" % (e["d"], MONTHS[e["mo"] - 1], e["y"], e["h"], e["mi"])
            if e["s"] or not e.get("short"):
                s += ":%02d" % e["s"]
            if e.get("dow"):
                s = "Mon, " + s
            n = e["zone"]
            names = {0: "GMT", -300: "EST", -420: "MST", -240: "EDT"}
            if n in names and e.get("named"):
                s += " " + names[n]
            elif n != NOZONE:
                # -0000 is of nowhere in particular
                s += " %s%02d%02d" % ("-" if n < 0 or n == 0 and e.get("dow") else "+", abs(n) // 60, abs(n) % 60)
            if "spoil" in e:
                s = [s[:s.index(":")], "", "x", "%d %s" % (e["d"], MONTHS[e["mo"] - 1]), "Mon, ", s.replace(":", "x"),
                     s[:s.index(str(e["y"]))]][e["spoil"]]
            return self.set(e, Time.fromRFC2822, s)
        if k == "posix":
            v = e["d"] * 86400 + e["s"]
            return self.set(e, Time.fromPOSIXTimestamp, v + e["u"] / 1e6 if e["u"] else v)
        if k == "datetime":
            dt = datetime.datetime.fromordinal(e["d"]) + datetime.timedelta(seconds=e["s"],
                                                                           microseconds=e["u"])
            return self.set(e, Time.fromDatetime, dt.replace(tzinfo=z, fold=e.get("fold", 0)))
        if k == "human":
            if not self.bynow(lambda *now: Time.fromHumanly(humantext(e), z, *now), e.get("zone")):
                return ["not by now"]
            return self.set(e, Time.fromHumanly, humantext(e), z, y)
        if k == "near":
            return self.set(e, operator.add, y if e["r"] == "x" else x,
                            datetime.timedelta(e["d"], e["s"], e["u"]))
        if k in ("add", "sub"):
            return self.set(e, getattr(operator, k), t,
                            datetime.timedelta(e["d"], e["s"], e["u"]))
        if k == "oneday":
            return self.set(e, t.oneDay)
        if k == "compare":
            return [bool(getattr(operator, o)(x, y)) for o in ("lt", "le", "eq", "ne", "ge", "gt")]
        if k == "other":
            r = []
            for o in ("lt", "le", "eq", "ne", "ge", "gt"):
                try:
                    r.append(getattr(operator, o)(x, x.asDatetime() if e["v"] else e["v"]))
                except TypeError:
                    r.append("TypeError")
            v = x.asDatetime() if e["v"] else e["v"]
            for f in (lambda: v in x, lambda: x + v, lambda: x - v, lambda: v - x):
                try:
                    r.append(f())
                except TypeError:
                    r.append("TypeError")
            return r
        if k == "difference":
            return delta(x - y)
        if k == "contains":
            return y in x
        if k == "bounds":
            lo, hi = t.getBounds(z) if z is not None else t.getBounds()
            return start(lo) + start(hi)
        if k == "is":
            return [t.isAllDay(), t.isTimezoneDependent()]
        if k == "asdatetime":
            dt, n = t.asDatetime(z), t.asNaiveDatetime(z)
            if n.tzinfo is not None or n != dt.replace(tzinfo=None):
                return ["naive differs", repr(n)]
            o = dt.utcoffset()
            return [point(dt), o.days * 1440 + o.seconds // 60]
        if k == "asstruct":
            return list(t.asStructTime(z))[:8]
        if k == "asposix":
            v = t.asPOSIXTimestamp()
            return delta(datetime.timedelta(microseconds=int(round(v * 1000000))))
        if k == "asiso":
            s = t.asISO8601TimeAndDate(e["delims"], z, e["showzone"])
            if z is None and e["delims"] and e["showzone"] and not s == str(t) == t.asISO8601TimeAndDate():
                return ["not the same", str(t)]
            return s
        if k == "odd":
            z = Odd(e["offset"])
            return [t.asRFC2822(z)[-14:], t.asISO8601TimeAndDate(True, z)[-6:]]
        if k == "asrfc2822":
            return t.asRFC2822(z, e["weekday"])
        if k == "asrfc1123":
            return t.asRFC1123()
        if k == "ashuman":
            # by the real present, of which it is another day in one of these zones
            u = Time()
            for v, zn in [(x, z)] + [(u, extime.FixedOffset(h, h)) for h in (-23, 23)]:
                lo = Time()
                s = v.asHumanly(zn)
                if s not in (v.asHumanly(zn, lo), v.asHumanly(zn, Time(), Time.Precision.MINUTES)):
                    return ["not by now", s]
            try:
                return ["not refused", x.asHumanly(z, y, e["seconds"])]
            except InvalidPrecision:
                return x.asHumanly(z, y, Time.Precision.SECONDS if e["seconds"] else Time.Precision.MINUTES)
        if k == "viaiso":
            s = t.asISO8601TimeAndDate(e["delims"], z, e["showzone"])
            # a text with no zone is read back in the zone it was written in
            u = Time.fromISO8601TimeAndDate(s, None if e["showzone"] else z)
            r = u.resolution
            return same(t, u, start(u) + [delta(max(r, datetime.timedelta(seconds=1)))])
        if k == "viarfc2822":
            u = Time.fromRFC2822(t.asRFC2822(z, e["weekday"]))
            return start(u)
        if k == "viaposix":
            u = Time.fromPOSIXTimestamp(t.asPOSIXTimestamp())
            return same(t, u, start(u))
        if k == "viastruct":
            return start(Time.fromStructTime(t.asStructTime(z), z if t.isTimezoneDependent() else None))
        if k == "viadatetime":
            u = Time.fromDatetime(t.asDatetime(z)) if t.isTimezoneDependent() else \
                Time.fromDatetime(t.asDatetime())
            return same(t, u, start(u))
        if k == "viarepr":
            u = eval(repr(t), {"extime": extime, "datetime": datetime})
            return same(t, u, start(u))
        raise AssertionError(k)


def same(t, u, out):
    return out if t == u and not t != u else ["differs"] + out


# -- operations --------------------------------------------------------------

YEARS = [1970, 1999, 2000, 2003, 2004, 2005, 2008, 2009, 2015, 2016, 2020, 2038, 2099, 2100, 1900, 1600, 2400]
ZONES = [NOZONE, 0, 60, -60, 330, -330, -30, 45, -1, 1, 14 * 60, -12 * 60, 1439, -1439, -210, 345, -570]


def year(rng, wide=True):
    if wide and rng.random() < .25:
        return rng.choice([2, 4, 99, 100, 400, 999, 1000, 1582, 9998, rng.randint(2, 9998)])
    return rng.choice(YEARS + [rng.randint(1960, 2100)])


def anyzone(rng, vary=False):
    if vary and rng.random() < .25:
        return 20000 + rng.choice([0, 60, -60, -300, 330, 600, -600, -210])
    return rng.choice(ZONES + [rng.randint(-1439, 1439)])


EDGES = (4, 10), (11, 10)       # when the varying zones change, at midnight


def clear(mo, d, h):
    """Whether the wall clocks of the varying zones say this once."""
    return h > 0 or (mo, d) not in EDGES


def walled(t, z):
    """The wall clock a varying zone shows."""
    d = datetime.datetime.fromordinal(t[0][0]) + datetime.timedelta(seconds=t[0][1])
    return Varying(z - 20000).fromutc(d) if res(t) < 86400 else d


def once(t, z):
    """Whether the wall clock of the zone says this once."""
    if z < 15000:
        return True
    w = walled(t, z)
    return clear(w.month, w.day, w.hour)


def clockfields(rng):
    return dict(h=rng.choice([0, 1, 11, 12, 13, 23, 23, rng.randint(0, 23)]),
                mi=rng.choice([0, 1, 29, 30, 59, rng.randint(0, 59)]),
                s=rng.choice([0, 1, 30, 59, rng.randint(0, 59)]))


def iso(rng, r, valid=.85, wide=True):
    good = rng.random() < valid
    k = rng.choice(["year", "month", "date", "date", "week", "weekday", "yearday"])
    y = year(rng, wide)
    a = b = 1
    if k in ("month", "date"):
        a = rng.choice([1, 2, 2, 12, rng.randint(1, 12)] + ([] if good else [0, 13]))
    if k == "date":
        b = rng.choice([1, 28, rng.randint(1, 28)] + ([] if good else [0, 29, 29, 30, 31, 32]))
        if good and a == 2 and y % 400 == 0:
            b = rng.choice([b, 29])
        if good and a in (1, 3, 5, 7, 8, 10, 12):
            b = rng.choice([b, 31, 30])
    if k in ("week", "weekday"):
        a = rng.choice([1, 52, rng.randint(1, 52), 2] + ([] if good else [0, 53, 53, 54]))
        if rng.random() < .2:
            a = 53
            if good:
                y = rng.choice([1970, 2004, 2009, 2015, 2020, 1998])
        b = rng.choice([1, 7, rng.randint(1, 7)] + ([] if good else [0, 8, 9]))
    if k == "yearday":
        a = rng.choice([1, 31, 32, 59, 60, 61, 365, rng.randint(1, 365)] + ([] if good else [0, 366, 366, 367, 999]))
    prec = "day" if k in ("year", "month", "week") else \
        rng.choice(["day", "hour", "min", "sec", "sec", "frac", "frac"])
    e = dict(op="iso", r=r, y=y, kind=k, a=a, b=b, prec=prec, frac=[], zone="none", zh=0, zm=0,
             arg=NOZONE)
    e.update(clockfields(rng))
    if not good and rng.random() < .3:
        e[rng.choice(["h", "mi", "s"])] = rng.choice([24, 60, 61, 62, 99])
    if prec == "frac":
        n = rng.choice([1, 2, 3, 4, 5, 6, 6, 7, 8, 9])
        e["frac"] = [rng.choice([0, 9, rng.randint(0, 9)]) for _ in range(n)]
        if rng.random() < .1:
            e["frac"] = [9] * n
        if n > 6:
            if e["frac"][6] == 5:
                e["frac"][6] = 6
    if prec != "day":
        e["zone"] = rng.choice(["none", "Z", "+", "-", "-"])
        e["zh"] = rng.choice([0, 0, 5, 12, 23, rng.randint(0, 14)])
        e["zm"] = rng.choice([0, 0, 30, 45, 59])
        if not good and rng.random() < .2:
            e["zh"] = 24
    if rng.random() < .5:
        e["arg"] = anyzone(rng, e["h"] or (k == "date" and clear(a, b, 0)))
    full = rng.random() < .8
    e["sepd"] = rng.choice([["-", "-"], ["", ""]]) if full else [rng.choice(["-", ""]) for _ in "12"]
    e["sept"] = rng.choice([[":"] * 3, [""] * 3]) if full else [rng.choice([":", ""]) for _ in "123"]
    e["zshort"] = rng.random() < .5
    e["point"] = rng.choice([".", ","])
    if not good and rng.random() < .2:
        e["spoil"] = rng.randrange(10)
    return e


def struct(rng, r, op="struct", wide=True):
    y = year(rng, wide)
    mo = rng.randint(1, 12)
    e = dict(op=op, r=r, y=y, mo=mo, d=rng.choice([1, 28, rng.randint(1, 28), rng.randint(1, 31)]),
             dst=rng.choice([0, 1, -1]))
    e.update(clockfields(rng))
    e["zone"] = anyzone(rng, op == "struct" and e["h"])
    if op == "rfc2822":
        e["y"] = max(1000, y)
        e["short"] = rng.random() < .4
        e["dow"] = rng.random() < .5
        e["named"] = rng.random() < .3
        if rng.random() < .1:
            e[rng.choice(["s", "d", "mi", "h"])] = rng.choice([60, 61, 24, 99])
            e["s"] = e["s"] % 100
        if rng.random() < .1:
            e["spoil"] = rng.randrange(7)
        if rng.random() < .2:
            e["zone"] = rng.choice([0, -300, -420, -240])
    elif rng.random() < .1:
        e[rng.choice(["s", "mi", "h", "d", "mo"])] = rng.choice([60, 61, 13, 24, 32])
    return e


def instant(rng, r, wide=True):
    """An operation which puts some instance in register C{r}."""
    k = rng.choice(["iso", "iso", "iso", "struct", "rfc2822", "posix", "datetime", "add", "sub", "oneday", "turning"])
    if k == "turning":
        return turning(rng, r)
    if k == "iso":
        return iso(rng, r, .95, wide)
    if k in ("struct", "rfc2822"):
        return struct(rng, r, k, wide)
    if k == "posix":
        return dict(op=k, r=r, d=rng.randint(-30000, 49500), s=rng.choice([0, 1, 86399, rng.randint(0, 86399)]),
                    u=rng.choice([0, 0, 1, 500000, 999999, rng.randint(0, 999999)]))
    if k == "datetime":
        d = rng.choice([rng.randint(600000, 800000), rng.randint(1000, 3651000)] if wide
                       else [rng.randint(700000, 750000)])
        s = rng.choice([0, 86399, rng.randint(0, 86399)])
        return dict(op=k, r=r, d=d, s=s, u=rng.choice([0, 0, 1, 10, 999999, rng.randint(0, 999999)]),
                    zone=anyzone(rng, s >= 3600), fold=0)
    if k == "oneday":
        return dict(op=k, r=r)
    return dict(op=k, r=r, d=rng.choice([0, 0, 1, -1, rng.randint(-40, 40), 365]),
                s=rng.choice([0, 1, 86399, rng.randint(0, 86399)]),
                u=rng.choice([0, 0, 1, 999999, rng.randint(0, 999999)]))


def human(rng, r="x", now=None):
    w = rng.choice(["weekday", "weekday", "today", "tomorrow", "yesterday", "noon", "midnight", "now",
                    "time", "time", "time", "time", "junk"])
    e = dict(op="human", r=r, what=w, zone=anyzone(rng), style=rng.randrange(4))
    if w == "weekday":
        e.update(n=rng.randrange(7), prefix=rng.choice(["", "", "next ", "this  "]))
    elif w == "time":
        e.update(h=rng.choice([0, 1, 11, 12, 12, 13, 23, 24, rng.randint(0, 23), rng.randint(1, 12)]),
                 mi=rng.choice([0, 1, 30, 59, rng.randint(0, 59), 60]), ampm=rng.choice(["", "am", "pm"]),
                 gap=rng.choice(["", " ", "  "]), wide=rng.random() < .5)
    elif w == "junk":
        if rng.random() < .5:
            e["text"] = rng.choice(["10:30", "1:05 am", "12:00pm", "today", "now", "noon", "sunday", "next friday"]
                                   ) + rng.choice(["7", "0", " 7", ".", "s", "-", " x", ":", ":00", " noon", "_"])
            return e
        e["text"] = rng.choice(["", "later", "last monday", "13:00 tomorrow", "noon today", "1:5", "100:00",
                                "todayish", "sundays", "1200", "12:00:00", "12:00 xm", "now!", "next today",
                                "this", "midnights", "24:00am"])
    if now is not None and rng.random() < .6:
        z = anyzone(rng, True)
        if z > 15000 and once(now, z):
            d = walled(now, z)
            first = w == "midnight" or (w == "time" and e["h"] in (0, 12))
            if not (first and any((t.month, t.day) in EDGES for t in (d, d + datetime.timedelta(1)))):
                e["zone"] = z
    return e


def turning(rng, r):
    """An instant around the turn of a zone which varies."""
    mo, d = rng.choice(EDGES)
    if mo == 11 and rng.random() < .4:      # in the hour which comes twice
        return dict(op="datetime", r=r, d=datetime.date(rng.choice([2003, 2004]), mo, d).toordinal(),
                    s=rng.choice([0, 1, 1800, 3599]), u=rng.choice([0, 0, 1]), fold=rng.randrange(2),
                    zone=20000 + rng.choice([0, 60, -300, 330, 600]))
    return dict(op="struct", r=r, y=rng.choice([2003, 2004, 2005]), mo=mo, d=d - rng.choice([0, 1, 2]),
                h=rng.choice([0, 1, 9, 10, 11, 12, 20, 22, 23]), mi=rng.choice([0, 30, 59]), s=rng.choice([0, 59]),
                zone=rng.choice([0, 0, -300, 330]), dst=0)


def spanning(rng, r):
    """A day, week or month near the turn of a zone which varies."""
    mo, d = rng.choice(EDGES)
    day = datetime.date(rng.randint(1999, 2012), mo, d) + datetime.timedelta(days=rng.choice([-7, -1, -1, 0, 0, 1, 6, 7]))
    y, w, wd = day.isocalendar()
    k = rng.choice(["month", "week", "week", "weekday", "date", "yearday"])
    a, b = {"month": (day.month, 1), "week": (w, 1), "weekday": (w, wd), "date": (day.month, day.day),
            "yearday": (day.timetuple().tm_yday, 1)}[k]
    return dict(op="iso", r=r, y=y if k.startswith("week") else day.year, kind=k, a=a, b=b, prec="day", frac=[], zone="none", zh=0, zm=0,
                arg=NOZONE)


def spans(rng, tr, r):
    if rng.random() < .3:
        return orders(rng, tr, r)
    t = getattr(tr, r)
    z = 20000 + rng.choice([-60, -300, -300, -210, -600, 0, 60, 330])
    return dict(op="bounds", r=r, zone=z if once(t, z) and once([[t[0][0] + t[1][0], t[0][1]], t[1]], z) else -300)


def tuned(rng, r, year_, mo, d, s):
    return dict(op="struct", r=r, y=year_, mo=mo, d=d, h=s // 3600, mi=s // 60 % 60, s=s % 60, zone=0, dst=0)


def res(t):
    """The resolution an outcome reports, in seconds."""
    d, s, u = t[1]
    return d * 86400 + s + u / 1e6


class Track(object):
    """What a generator knows of the two registers."""
    def __init__(self):
        p = [[731921, 51316, 0], [0, 0, 1]]
        self.x, self.y = p, p

    zone = None         # of the last instance said to be in an hour which comes twice

    def anyzone(self, rng):
        if self.zone is not None and rng.random() < .5:
            return self.zone
        return anyzone(rng, True)

    def see(self, e, out):
        if e["op"] == "datetime":
            self.zone = e["zone"] if e["zone"] > 15000 and e["s"] < 3600 else None
        if e.get("r") in ("x", "y") and isinstance(out, list) and len(out) == 2 and \
                e["op"] in ("iso", "struct", "rfc2822", "posix", "datetime", "add", "sub", "oneday", "human") \
                and isinstance(out[0], list):
            setattr(self, e["r"], out)

    def wall(self, t, z):
        s = t[0][1]
        if res(t) < 86400 and z != NOZONE:
            s += (z - 20000 if z > 15000 else z) * 60     # in summer, a whole hour more
        return s

    def fits(self, t, z):
        for u in (3600, 60):
            if t[1] == [0, u, 0] and (self.wall(t, z) % u or t[0][2]):
                return False
        return True

    def far(self, t):
        """Far enough from the ends of time for any offset or delta."""
        return 800 < t[0][0] < 3651000


def history(rng, questions, length, wide=True, sources=None, near=False):
    def gen():
        tr = Track()
        for _ in range(length):
            r = rng.choice("xy")
            if rng.random() < .45:
                e = (sources or instant)(rng, r) if sources else instant(rng, r, wide)
                if e["op"] in ("add", "sub", "oneday") and not tr.far(getattr(tr, e["r"])):
                    continue
                if near and rng.random() < .25 and tr.far(tr.x) and tr.far(tr.y):
                    e = dict(op="near", r=r, d=rng.choice([0, 0, 0, 1, -1]), s=rng.choice([0, 0, 0, 1, -1]),
                             u=rng.choice([0, 1, -1, 2, 999999]))
            else:
                e = questions(rng, tr, r)
                if e is None:
                    continue
            out = yield e
            tr.see(e, out)
            if not isinstance(out, (list, str, bool)):
                return
    return None, gen()


def posixable(t):
    """Near enough to 1970 for a float to tell microseconds apart."""
    return 669600 < t[0][0] < 768800


def formats(rng, tr, r):
    t = getattr(tr, r)
    if not tr.far(t):
        return None
    z = tr.anyzone(rng)
    if t[0][1] < 60 * 1439 and res(t) < 86400 and rng.random() < .05:
        return odd(rng, r)
    k = rng.choice(["viaiso", "viaiso", "asiso", "viarfc2822", "asrfc2822", "asrfc1123", "viaposix", "asposix",
                    "viastruct", "asstruct", "viadatetime", "viarepr"])
    if not once(t, z) and (k == "viastruct" or res(t) >= 86400):
        z = 60
    e = dict(op=k, r=r)
    if k in ("viaiso", "asiso"):
        if not tr.fits(t, z):
            z = NOZONE
            if not tr.fits(t, z):
                return None
        e.update(zone=z, delims=rng.random() < .5, showzone=rng.random() < .7 or not once(t, z))
    elif k in ("viarfc2822", "asrfc2822"):
        if t[0][0] < 370000 or (k == "viarfc2822" and res(t) >= 86400):
            return None
        e.update(zone=z, weekday=rng.random() < .5)
    elif k == "asrfc1123":
        if t[0][0] < 370000 or not posixable(t):
            return None
    elif k in ("viaposix", "asposix"):
        if not posixable(t):
            return None
    elif k in ("viastruct", "asstruct", "viadatetime"):
        e["zone"] = z
    return e


def odd(rng, r):
    s = rng.choice([rng.randint(-86399, 86399), rng.randint(-130, 130), -1, 1, -29, -31, -89, -91, 1172])
    return dict(op="odd", r=r, offset=s + (s % 60 == 30))


def orders(rng, tr, r):
    if not (tr.far(tr.x) and tr.far(tr.y)):
        return None
    k = rng.choice(["compare", "compare", "difference", "contains", "contains", "bounds", "is", "other"])
    e = dict(op=k, r=r)
    if k == "bounds":
        t = getattr(tr, r)
        z = tr.anyzone(rng)
        e["zone"] = z if once(t, z) and once([[t[0][0] + t[1][0], t[0][1]], t[1]], z) else 60
    if k == "other":
        e["v"] = rng.choice([0, 1])
    return e


def shows(rng, tr, r):
    if not (tr.far(tr.x) and tr.far(tr.y)):
        return None
    z = tr.anyzone(rng)
    if not all(once(t, z) or res(t) < 86400 for t in (tr.x, tr.y)):
        z = 60
    k = rng.choice(["asdatetime", "asstruct", "asiso", "ashuman", "ashuman", "is"])
    e = dict(op=k, r=r, zone=z)
    if k == "asiso":
        if not tr.fits(getattr(tr, r), z):
            return None
        e.update(delims=rng.random() < .5, showzone=rng.random() < .5)
    if k == "ashuman":
        if tr.x[0][0] < 370000:
            return None
        e["seconds"] = rng.random() < .5
    return e


def close(rng, r):
    """Instances near one another, so that order, containment and sameness vary."""
    k = rng.choice(["iso", "iso", "iso", "struct", "add", "sub", "oneday", "posix", "turning"])
    if k == "turning":
        return turning(rng, r)
    if k in ("add", "sub"):
        return dict(op=k, r=r, d=rng.choice([0, 0, 0, 1, -1, 7]), s=rng.choice([0, 0, 1, 60, 3600, 86399]),
                    u=rng.choice([0, 1, 999999]))
    if k == "oneday":
        return dict(op=k, r=r)
    if k == "posix":
        return dict(op=k, r=r, d=rng.choice([12418, 12419, 12784, 12785]), s=rng.choice([0, 1, 59, 86399, 43200]),
                    u=rng.choice([0, 1, 999999]))
    y, mo, d = rng.choice([(2004, 1, 1), (2004, 1, 2), (2004, 12, 31), (2003, 12, 31), (2005, 1, 1)])
    if k == "struct":
        return dict(op=k, r=r, y=y, mo=mo, d=d, h=rng.choice([0, 12, 23]), mi=rng.choice([0, 59]),
                    s=rng.choice([0, 59]), zone=rng.choice([0, 60, -330]), dst=0)
    e = iso(rng, r, 1)
    e.update(y=y)
    if e["kind"] in ("date", "month"):
        e.update(a=mo, b=d)
    elif e["kind"] in ("week", "weekday"):
        e.update(a=rng.choice([1, 2, 52]), b=rng.choice([1, 3, 4, 7]))
    elif e["kind"] == "yearday":
        e.update(a=rng.choice([1, 2, 365]))
    e.update(h=rng.choice([0, 23]), mi=rng.choice([0, 59]), s=rng.choice([0, 59]))
    if e["zone"] in "+-":
        e.update(zh=rng.choice([0, 5]), zm=rng.choice([0, 30]))
    return e


def ops(rng, setters, questions, extra=()):
    """A sequence of operations for the specification to be explored with."""
    from vp.bind import tla
    return "<<%s>>" % ",\n".join(tla(e) for e in list(setters) + list(questions) + list(extra))


def setters(r, which):
    """A few instances of every resolution, around the turn of a year."""
    base = dict(op="iso", r=r, kind="date", a=12, b=31, prec="day", h=23, mi=59, s=59, frac=[], zone="none",
                zh=0, zm=0, arg=NOZONE, y=2004)

    def m(**k):
        return dict(base, **k)
    all_ = [m(kind="year"), m(kind="month", a=12), m(kind="week", a=53), m(), m(prec="hour"), m(prec="min"),
            m(prec="sec"), m(prec="frac", frac=[5]), m(prec="frac", frac=[9, 9, 9, 9, 9, 9]),
            m(y=2005, a=1, b=1), m(y=2005, a=1, b=1, prec="sec", h=0, mi=0, s=0, zone="+", zh=5, zm=30),
            m(y=2005, kind="weekday", a=1, b=1, prec="min", h=12, mi=0, zone="-", zh=3, zm=30),
            m(kind="yearday", a=366), m(prec="sec", h=0, mi=0, s=0), m(prec="min", h=12, mi=30)]
    return [all_[i] for i in which]
