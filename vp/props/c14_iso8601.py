from vp.bind import Binding
from vp.props import times
from vp.props.times import Adapter  # noqa

# every day of every month of some years, every week and day of the year, and
# every edge of the time of day
NEXT = """
E_Base == [op |-> "iso", r |-> "x", kind |-> "year", a |-> 1, b |-> 1, prec |-> "day", h |-> 0, mi |-> 0,
           s |-> 0, frac |-> <<>>, zone |-> "none", zh |-> 0, zm |-> 0, arg |-> 9999]
E_Next ==
  /\\ x = Start
  /\\ \\/ \\E yr \\in %(years)s :
         \\/ Step(E_Base @@ [y |-> yr])
         \\/ \\E m \\in 0..13 : Step([E_Base EXCEPT !.kind = "month", !.a = m] @@ [y |-> yr])
         \\/ \\E m \\in 0..13 : \\E d \\in 0..32 :
              Step([E_Base EXCEPT !.kind = "date", !.a = m, !.b = d] @@ [y |-> yr])
         \\/ \\E w \\in 0..54 : Step([E_Base EXCEPT !.kind = "week", !.a = w] @@ [y |-> yr])
         \\/ \\E w \\in {0, 1, 2, 26, 52, 53, 54} : \\E d \\in 0..8 :
              Step([E_Base EXCEPT !.kind = "weekday", !.a = w, !.b = d] @@ [y |-> yr])
         \\/ \\E n \\in 0..367 : Step([E_Base EXCEPT !.kind = "yearday", !.a = n] @@ [y |-> yr])
     \\/ \\E h \\in {0, 9, 12, 23, 24} : \\E mi \\in {0, 7, 59, 60} : \\E s \\in {0, 8, 59, 60, 61, 62} :
         \\E p \\in {"hour", "min", "sec"} : \\E z \\in {"none", "Z", "+", "-"} : \\E zh \\in {0, 5} :
         \\E zm \\in {0, 30} : \\E arg \\in {9999, -210} :
           /\\ (p = "hour" => mi = 0) /\\ (p \\in {"hour", "min"} => s = 0)
           /\\ (z \\in {"none", "Z"} => zh = 0 /\\ zm = 0)
           /\\ Step([E_Base EXCEPT !.kind = "date", !.a = 2, !.b = 28, !.prec = p, !.h = h, !.mi = mi,
                                  !.s = s, !.zone = z, !.zh = zh, !.zm = zm, !.arg = arg] @@ [y |-> 2004])
"""


def check(run):
    b = Binding(run, "Extime", Adapter)
    years = run.pick("{2004, 2005, 1900, 2015}",
                     "{2, 100, 400, 1600, 1900, 1970, 1998} \\cup 1999..2021 \\cup {2100, 9998}")
    b.cover(dict(Ops="<<>>"), ("Sane",), extra=NEXT % {"years": years}, next="E_Next")
    b.histories(dict(Ops="<<>>"), lambda rng: times.history(
        rng, lambda rng, tr, r: times.iso(rng, r, .8), 40, sources=lambda rng, r: times.iso(rng, r, .8)),
        run.pick(120, 4000))
