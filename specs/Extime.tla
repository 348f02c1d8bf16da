------------------------------- MODULE Extime -------------------------------
(* epsilon.extime: instants, the periods they address, and their formats.

   Two registers hold Time instances, each a period [at, res).  Operations
   parse or compute a new instance into a register, or ask about them.  A
   timezone is an offset from UTC in minutes; NoZone is None.  20000 + n is a
   zone at offset n in winter and n + 60 in summer, which is from April 10th to
   November 10th; what a wall clock says in the hour which is skipped is not
   specified, and of the hour which comes twice it says the first, but for
   "fold".                                                    *)
EXTENDS Calendar, FiniteSets

CONSTANTS Ops       \* the operations to explore, as a sequence

VARIABLES x, y, last

vars == <<x, y, last>>
View == <<x, y>>

NoZone == 9999
Micro  == <<0, 0, 1>>
Bad    == <<"bad">>
IsBad(t) == Len(t) = 1
Period(at, res) == <<at, res>>
At(t)  == t[1]
Res(t) == t[2]
End(t) == Plus(At(t), Res(t))
ZoneDependent(t) == Before(Res(t), Day1)
Varies(z) == z > 15000
Summer(n) == LET d == Date(n) IN (d[2] * 100) + d[3] \in 410..1109
Saved(z, n) == (z - 20000) + (IF Summer(n) THEN 60 ELSE 0)
(* The offset a zone has at an instant, and when its wall clock says w. *)
OffsetAt(z, t) == IF z = NoZone THEN 0
                  ELSE IF Varies(z) THEN Saved(z, Plus(t, Minutes(z - 20000))[1]) ELSE z
OffsetOf(z, w) == IF z = NoZone THEN 0
                  ELSE IF Varies(z) THEN Saved(z, Minus(w, Minutes(60))[1]) ELSE z
Real(z) == z = NoZone \/ Varies(z) \/ (z > -1440 /\ z < 1440)

(* The wall clock an instance shows in a zone: whole days ignore the zone. *)
Wall(t, z) == IF ZoneDependent(t) THEN Plus(At(t), Minutes(OffsetAt(z, At(t)))) ELSE At(t)
FoldedFromWall(w, z) ==      \* the second time the wall clock says w, if it says it twice
  Minus(w, Minutes(IF Varies(z) THEN Saved(z, w[1]) ELSE OffsetOf(z, w)))
FromWall(w, z) == Minus(w, Minutes(OffsetOf(z, w)))

-----------------------------------------------------------------------------
(* ISO 8601: fields in, period out. *)
Pow10 == <<1, 10, 100, 1000, 10000, 100000, 1000000>>
RECURSIVE Digits(_, _)
Digits(ds, n) == IF n = 0 THEN 0 ELSE (IF n <= Len(ds) THEN ds[n] ELSE 0) + (10 * Digits(ds, n - 1))
Fraction(ds) ==
  LET m == Digits(ds, 6)
      up == IF Len(ds) > 6 /\ ds[7] >= 5 THEN 1 ELSE 0
  IN  IF m + up > 999999 THEN 999999 ELSE m + up

DayOf(e) ==      \* the day a date addresses, 0 if there is no such day
  CASE e.y < 1 -> 0
    [] e.kind = "year"  -> Ordinal(e.y, 1, 1)
    [] e.kind = "month" -> IF e.a \in 1..12 THEN Ordinal(e.y, e.a, 1) ELSE 0
    [] e.kind = "date"  -> IF e.a \in 1..12 /\ e.b \in 1..DaysIn(e.y, e.a)
                           THEN Ordinal(e.y, e.a, e.b) ELSE 0
    [] e.kind = "week"  -> IF e.a \in 1..Weeks(e.y) THEN WeekOne(e.y) + ((e.a - 1) * 7) ELSE 0
    [] e.kind = "weekday" -> IF e.a \in 1..Weeks(e.y) /\ e.b \in 1..7
                             THEN WeekOne(e.y) + ((e.a - 1) * 7) + (e.b - 1) ELSE 0
    [] e.kind = "yearday" -> IF e.a \in 1..YearDays(e.y) THEN Ordinal(e.y, 1, 1) + (e.a - 1) ELSE 0

Resolution(e) ==
  CASE e.prec = "frac" -> (IF Len(e.frac) >= 6 THEN Micro ELSE <<0, 0, Pow10[7 - Len(e.frac)]>>)
    [] e.prec = "sec" -> <<0, 1, 0>>
    [] e.prec = "min" -> <<0, 60, 0>>
    [] e.prec = "hour" -> <<0, 3600, 0>>
    [] e.kind = "year" -> <<YearDays(e.y), 0, 0>>
    [] e.kind = "month" -> <<DaysIn(e.y, e.a), 0, 0>>
    [] e.kind = "week" -> Week1
    [] OTHER -> Day1

HasTime(e) == e.prec # "day"
ZoneOf(e) == CASE ~HasTime(e) -> 0
               [] e.zone = "Z" -> 0
               [] e.zone = "+" -> (e.zh * 60) + e.zm
               [] e.zone = "-" -> 0 - ((e.zh * 60) + e.zm)
               [] OTHER -> (IF e.arg = NoZone THEN 0 ELSE e.arg)

Iso(e) ==
  LET d  == DayOf(e)
      h  == IF HasTime(e) THEN e.h ELSE 0
      mi == IF e.prec \in {"min", "sec", "frac"} THEN e.mi ELSE 0
      s  == IF e.prec \in {"sec", "frac"} THEN e.s ELSE 0
      f  == IF e.prec = "frac" THEN Fraction(e.frac) ELSE 0
  IN  IF d = 0 \/ h > 23 \/ mi > 59 \/ s > 59 \/ ~Real(ZoneOf(e)) THEN Bad
      ELSE Period(FromWall(<<d, (h * 3600) + (mi * 60) + s, f>>, ZoneOf(e)), Resolution(e))

-----------------------------------------------------------------------------
(* A broken-down time, as a struct_time or an RFC 2822 date gives it. *)
Broken(e) ==
  IF e.y < 1 \/ ~(e.mo \in 1..12) \/ ~(e.d \in 1..DaysIn(e.y, e.mo))
     \/ e.h > 23 \/ e.mi > 59 \/ e.s > 59 \/ ~Real(e.zone) THEN Bad
  ELSE Period(FromWall(<<Ordinal(e.y, e.mo, e.d), (e.h * 3600) + (e.mi * 60) + e.s, 0>>, e.zone),
              <<0, 1, 0>>)
Cap(n, most) == IF n > most THEN most ELSE n
(* Out of range fields are taken as the closest valid value. *)
Rfc2822(e) == Broken([e EXCEPT !.d = Cap(@, 31), !.h = Cap(@, 23), !.mi = Cap(@, 59),
                               !.s = Cap(@, 59)])

EpochDay == 719163
Posix(e) == Period(Norm(<<EpochDay + e.d, e.s, e.u>>), <<0, 0, 0>>)

-----------------------------------------------------------------------------
(* What a human might type; "now" is register y. *)
Human(e) ==
  LET today == At(y)[1]
      wall  == Wall(y, e.zone)
      minute == (wall[2] \div 60) * 60
      next(sec) == Period(FromWall(<<wall[1] + (IF sec < minute THEN 1 ELSE 0), sec, 0>>, e.zone),
                          <<0, 60, 0>>)
  IN  CASE e.what = "weekday" ->
             LET k == (e.n - Weekday(today)) % 7
             IN  Period(<<today + (IF k = 0 THEN 7 ELSE k), 0, 0>>, Day1)
        [] e.what = "today" -> Period(<<today, 0, 0>>, Day1)
        [] e.what = "tomorrow" -> Period(<<today + 1, 0, 0>>, Day1)
        [] e.what = "yesterday" -> Period(<<today - 1, 0, 0>>, Day1)
        [] e.what = "noon" -> next(43200)
        [] e.what = "midnight" -> next(0)
        [] e.what = "now" -> Period(At(y), Micro)
        [] e.what = "junk" -> Bad
        [] e.what = "time" ->     \* h, mi, ampm
             IF e.mi > 59 THEN Bad
             ELSE IF e.ampm = "" THEN (IF e.h > 23 THEN Bad ELSE next((e.h * 3600) + (e.mi * 60)))
             ELSE IF ~(e.h \in 1..12) THEN Bad
             ELSE next((((e.h % 12) + (IF e.ampm = "pm" THEN 12 ELSE 0)) * 3600) + (e.mi * 60))

-----------------------------------------------------------------------------
(* Formats *)
Two(n)  == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Four(n) == IF n < 10 THEN "000" \o ToString(n) ELSE IF n < 100 THEN "00" \o ToString(n)
           ELSE IF n < 1000 THEN "0" \o ToString(n) ELSE ToString(n)
Six(n)  == IF n < 100000 THEN "0" \o (IF n < 10000 THEN "0" \o (IF n < 1000 THEN "0" \o
             (IF n < 100 THEN "0" \o (IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n))
              ELSE ToString(n)) ELSE ToString(n)) ELSE ToString(n)) ELSE ToString(n)
Zeros(k) == CASE k = 0 -> "" [] k = 1 -> "0" [] k = 2 -> "00" [] k = 3 -> "000" [] k = 4 -> "0000"
              [] OTHER -> "00000"
(* Microseconds without trailing zeros. *)
RECURSIVE Shorten(_, _)
Shorten(n, w) == IF n % 10 = 0 THEN Shorten(n \div 10, w - 1)
                 ELSE Zeros(w - Len(ToString(n))) \o ToString(n)
Frac(u) == IF u = 0 THEN "" ELSE "." \o Shorten(u, 6)
Hour(w) == w[2] \div 3600
Minute(w) == (w[2] \div 60) % 60
Second(w) == w[2] % 60
Abs(n) == IF n < 0 THEN 0 - n ELSE n
Sign(z) == IF z < 0 THEN "-" ELSE "+"
MonthName == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
DayName == <<"Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun">>

(* Fields finer than the resolution are left out; the period then has to start
   on a whole unit of the zone for the text to say when it starts.            *)
FitsIn(t, z) == \A u \in {3600, 60} : Res(t) = <<0, u, 0>> => Wall(t, z)[2] % u = 0 /\ Wall(t, z)[3] = 0

IsoText(t, e) ==       \* e.delims, e.zone, e.showzone
  LET z  == IF ZoneDependent(t) THEN e.zone ELSE NoZone
      w  == Wall(t, z)
      ds == IF e.delims THEN "-" ELSE ""
      ts == IF e.delims THEN ":" ELSE ""
      dt == Date(w[1])
      o  == OffsetAt(z, At(t))
      zt == IF ~e.showzone THEN "" ELSE Sign(o) \o Two(Abs(o) \div 60) \o ts \o Two(Abs(o) % 60)
      fine(r) == NotAfter(Res(t), r)
      wk == IsoWeek(w[1])
  IN  IF Res(t) = Week1 THEN Four(wk[1]) \o ds \o "W" \o Two(wk[2])
      ELSE Four(dt[1])
        \o (IF fine(<<31, 0, 0>>) THEN ds \o Two(dt[2]) ELSE "")
        \o (IF fine(Day1) THEN ds \o Two(dt[3]) ELSE "")
        \o (IF fine(<<0, 3600, 0>>) THEN "T" \o Two(Hour(w)) ELSE "")
        \o (IF fine(<<0, 60, 0>>) THEN ts \o Two(Minute(w)) ELSE "")
        \o (IF fine(<<0, 1, 0>>) THEN ts \o Two(Second(w)) ELSE "")
        \o (IF Before(Res(t), <<0, 1, 0>>) THEN Frac(w[3]) ELSE "")
        \o (IF fine(<<0, 3600, 0>>) THEN zt ELSE "")

Clock(w) == Two(Hour(w)) \o ":" \o Two(Minute(w)) \o ":" \o Two(Second(w))
Rfc2822Text(t, e) ==   \* e.zone, e.weekday
  LET w  == Wall(t, e.zone)
      dt == Date(w[1])
      o  == IF ZoneDependent(t) THEN OffsetAt(e.zone, At(t)) ELSE OffsetOf(e.zone, At(t))
  IN  (IF e.weekday THEN DayName[Weekday(w[1]) + 1] \o ", " ELSE "")
      \o ToString(dt[3]) \o " " \o MonthName[dt[2]] \o " " \o ToString(dt[1]) \o " " \o Clock(w) \o " "
      \o (IF e.zone = NoZone THEN "-0000"
          ELSE Sign(o) \o Two(Abs(o) \div 60) \o Two(Abs(o) % 60))
Rfc1123Text(t) ==
  LET w  == At(t)
      dt == Date(w[1])
  IN  DayName[Weekday(w[1]) + 1] \o ", " \o Two(dt[3]) \o " " \o MonthName[dt[2]] \o " "
      \o Four(dt[1]) \o " " \o Clock(w) \o " GMT"

(* Only as much of the date as differs from now (register y). *)
LowerMonth == <<"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec">>
HumanText(t, e) ==     \* e.zone, e.seconds
  LET w  == Wall(t, e.zone)
      n  == Wall(y, e.zone)
      dt == Date(w[1])
      h  == Hour(w) % 12
      clock == Two(IF h = 0 THEN 12 ELSE h) \o ":" \o Two(Minute(w))
               \o (IF e.seconds THEN ":" \o Two(Second(w)) ELSE "")
               \o (IF Hour(w) < 12 THEN " am" ELSE " pm")
      allday == Res(t) = Day1
  IN  IF w[1] = n[1] THEN (IF allday THEN "all day" ELSE clock)
      ELSE ToString(dt[3]) \o " " \o MonthName[dt[2]]
           \o (IF dt[1] = Date(n[1])[1] THEN "" ELSE " " \o ToString(dt[1]))
           \o (IF allday THEN "" ELSE ", " \o clock)

(* What survives a trip through a format. *)
WholeSeconds(t) == <<t[1], t[2], 0>>

-----------------------------------------------------------------------------
Reg(r) == IF r = "x" THEN x ELSE y
Did(e, o) == last' = e @@ [out |-> o]
Set(e, t) == /\ x' = IF e.r = "x" /\ ~IsBad(t) THEN t ELSE x
             /\ y' = IF e.r = "y" /\ ~IsBad(t) THEN t ELSE y
             /\ Did(e, t)
Ask(e, o) == UNCHANGED <<x, y>> /\ Did(e, o)

Step(e) ==
  CASE e.op \in {"iso", "rfc2822"} /\ "spoil" \in DOMAIN e -> Set(e, Bad)     \* text of no such format
    [] e.op = "iso" -> Set(e, Iso(e))
    [] e.op = "struct" -> Set(e, Broken(e))
    [] e.op = "rfc2822" -> Set(e, Rfc2822(e))
    [] e.op = "posix" -> Set(e, Posix(e))
    [] e.op = "datetime" ->       \* day, s, u, zone, perhaps fold
         LET w == <<e.d, e.s, e.u>>
         IN  Set(e, Period(IF "fold" \in DOMAIN e /\ e.fold = 1 THEN FoldedFromWall(w, e.zone) ELSE FromWall(w, e.zone), Micro))
    [] e.op = "human" -> Set(e, Human(e))
    [] e.op = "add" -> Set(e, Period(Plus(At(Reg(e.r)), <<e.d, e.s, e.u>>), Micro))
    [] e.op = "sub" -> Set(e, Period(Minus(At(Reg(e.r)), <<e.d, e.s, e.u>>), Micro))
    [] e.op = "near" ->           \* the other register's instant, shifted
         Set(e, Period(Plus(At(Reg(IF e.r = "x" THEN "y" ELSE "x")), <<e.d, e.s, e.u>>), Micro))
    [] e.op = "oneday" -> Set(e, Period(<<At(Reg(e.r))[1], 0, 0>>, Day1))
    \* questions
    [] e.op = "compare" -> Ask(e, <<Before(At(x), At(y)), NotAfter(At(x), At(y)), At(x) = At(y),
                                    At(x) # At(y), NotAfter(At(y), At(x)), Before(At(y), At(x))>>)
    [] e.op = "other" -> Ask(e, <<"TypeError", "TypeError", FALSE, TRUE, "TypeError", "TypeError", "TypeError",
                                 "TypeError", "TypeError", "TypeError">>)
    [] e.op = "difference" -> Ask(e, Minus(At(x), At(y)))
    [] e.op = "contains" -> Ask(e, NotAfter(At(x), At(y)) /\ NotAfter(End(y), End(x)))
    [] e.op = "bounds" ->         \* r, zone
         LET t == Reg(e.r)
             z == IF ZoneDependent(t) THEN NoZone ELSE e.zone
         IN  Ask(e, <<Min(At(t), FromWall(At(t), z)), Max(End(t), FromWall(End(t), z))>>)
    [] e.op = "is" -> Ask(e, <<Res(Reg(e.r)) = Day1, ZoneDependent(Reg(e.r))>>)
    [] e.op = "asdatetime" -> 
         LET t == Reg(e.r)
             w == Wall(t, e.zone)
         IN  Ask(e, <<w, IF ZoneDependent(t) THEN OffsetAt(e.zone, At(t)) ELSE OffsetOf(e.zone, w)>>)
    [] e.op = "asstruct" ->
         LET w == Wall(Reg(e.r), e.zone)
             d == Date(w[1])
         IN  Ask(e, <<d[1], d[2], d[3], Hour(w), Minute(w), Second(w), Weekday(w[1]),
                      (w[1] - BeforeYear(d[1]))>>)
    [] e.op = "asposix" -> Ask(e, Minus(At(Reg(e.r)), <<EpochDay, 0, 0>>))
    [] e.op = "asiso" -> FitsIn(Reg(e.r), e.zone) /\ Ask(e, IsoText(Reg(e.r), e))
    [] e.op = "asrfc2822" -> Ask(e, Rfc2822Text(Reg(e.r), e))
    [] e.op = "odd" ->            \* an offset of seconds is shown in whole minutes
         LET w == Plus(At(Reg(e.r)), Norm(<<0, e.offset, 0>>))
             o == ((e.offset + 30) \div 60)
         IN  ZoneDependent(Reg(e.r)) /\ e.offset % 60 # 30
             /\ Ask(e, <<Clock(w) \o " " \o Sign(o) \o Two(Abs(o) \div 60) \o Two(Abs(o) % 60),
                         Sign(o) \o Two(Abs(o) \div 60) \o ":" \o Two(Abs(o) % 60)>>)
    [] e.op = "asrfc1123" -> Ask(e, Rfc1123Text(Reg(e.r)))
    [] e.op = "ashuman" -> Ask(e, HumanText(x, e))
    \* there and back again: the instant, and for ISO 8601 the resolution
    [] e.op = "viaiso" ->         \* r, delims, zone, showzone
         LET t == Reg(e.r)
             r == IF Before(Res(t), <<0, 1, 0>>) THEN <<0, 1, 0>> ELSE Res(t)
         IN  FitsIn(t, e.zone) /\ Ask(e, <<At(t), r>>)
    [] e.op = "viarfc2822" -> ZoneDependent(Reg(e.r)) /\ Ask(e, <<WholeSeconds(At(Reg(e.r)))>>)
    [] e.op = "viaposix" -> Ask(e, <<At(Reg(e.r))>>)
    [] e.op = "viastruct" -> Ask(e, <<WholeSeconds(At(Reg(e.r)))>>)
    [] e.op = "viadatetime" -> Ask(e, <<At(Reg(e.r))>>)
    [] e.op = "viarepr" -> Ask(e, <<At(Reg(e.r))>>)

Start == Period(<<Ordinal(2004, 12, 6), 51316, 0>>, Micro)
Init == x = Start /\ y = Start /\ last = [op |-> "init", out |-> <<>>]
InitWith(r) == Init
Next == \E i \in 1..Len(Ops) : Step(Ops[i])

-----------------------------------------------------------------------------
Normal(t) == t = Norm(t) /\ t[1] >= 1
Sane == /\ Normal(At(x)) /\ Normal(At(y)) /\ Norm(Res(x)) = Res(x)
        /\ \A r \in {x, y} : LET d == Date(At(r)[1]) IN Ordinal(d[1], d[2], d[3]) = At(r)[1]
        /\ \A r \in {x, y} : LET w == IsoWeek(At(r)[1])
                             IN  WeekOne(w[1]) + ((w[2] - 1) * 7) + Weekday(At(r)[1]) = At(r)[1]
                                 /\ w[2] \in 1..Weeks(w[1])
=============================================================================
