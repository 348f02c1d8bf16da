from vp.bind import Binding
from vp.props import times
from vp.props.times import Adapter  # noqa

NEXT = """
E_Now == {<<d, s>> : d \\in 731921..731927, s \\in {51316}} \\cup
         {<<731921, s>> : s \\in {0, 59, 60, 1800, 43199, 43200, 43259, 43260, 45000, 86399}}
E_Next ==
  \\/ y = Start /\\ \\E n \\in E_Now : \\E u \\in {0, 999999} :
       Step([op |-> "datetime", r |-> "y", d |-> n[1], s |-> n[2], u |-> u, zone |-> 0])
  \\/ y = Start /\\ Step([op |-> "oneday", r |-> "y"])
  \\/ /\\ x = Start
     /\\ \\E z \\in %(zones)s :
         \\/ \\E w \\in {"today", "tomorrow", "yesterday", "noon", "midnight", "now"} :
              Step([op |-> "human", r |-> "x", what |-> w, zone |-> z])
         \\/ \\E n \\in 0..6 : Step([op |-> "human", r |-> "x", what |-> "weekday", n |-> n, zone |-> z])
         \\/ \\E h \\in %(hours)s : \\E mi \\in {0, 15, 30, 59, 60} : \\E ap \\in {"", "am", "pm"} :
              Step([op |-> "human", r |-> "x", what |-> "time", h |-> h, mi |-> mi, ampm |-> ap, zone |-> z])
"""


def check(run):
    b = Binding(run, "Extime", Adapter)
    b.cover(dict(Ops="<<>>"), ("Sane",), next="E_Next", extra=NEXT % run.pick(
        {"zones": "{9999, 330, -210}", "hours": "{0, 1, 11, 12, 13, 23, 24}"},
        {"zones": "{9999, 0, 60, 330, -30, -720, 839}", "hours": "0..24"}))

    def questions(rng, tr, r):
        return times.human(rng, now=tr.y) if tr.far(tr.y) else None

    def sources(rng, r):
        if rng.random() < .3:
            return times.human(rng, "y")
        if rng.random() < .3:
            return times.turning(rng, "y")
        return times.instant(rng, "y", wide=False)
    b.histories(dict(Ops="<<>>"), lambda rng: times.history(rng, questions, 40, sources=sources),
                run.pick(150, 5000))
