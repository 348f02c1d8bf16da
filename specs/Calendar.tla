------------------------------ MODULE Calendar ------------------------------
(* The proleptic Gregorian calendar, ISO weeks, and instants to the microsecond.

   An instant or interval is <<days, seconds, microseconds>>, normalised so
   that 0 <= seconds < 86400 and 0 <= microseconds < 1000000; day 1 is
   0001-01-01.                                                                *)
EXTENDS Integers, Sequences, TLC

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == CASE m = 2 -> (IF Leap(y) THEN 29 ELSE 28)
                  [] m \in {4, 6, 9, 11} -> 30
                  [] OTHER -> 31
YearDays(y) == IF Leap(y) THEN 366 ELSE 365
BeforeYear(y) == LET p == y - 1 IN (p * 365) + (p \div 4) - (p \div 100) + (p \div 400)
RECURSIVE BeforeMonth(_, _)
BeforeMonth(y, m) == IF m = 1 THEN 0 ELSE DaysIn(y, m - 1) + BeforeMonth(y, m - 1)

Ordinal(y, m, d) == BeforeYear(y) + BeforeMonth(y, m) + d

(* The year containing an ordinal: an estimate within one of it, corrected. *)
YearOf(n) == LET e == ((n * 25) \div 9131) + 1       \* 365.24 days to the year
                 lo == IF e < 2 THEN 1 ELSE e - 1
             IN  CHOOSE y \in lo..(e + 1) : BeforeYear(y) < n /\ n <= BeforeYear(y + 1)
RECURSIVE MonthFrom(_, _, _)
MonthFrom(y, m, k) == IF k <= DaysIn(y, m) THEN <<y, m, k>> ELSE MonthFrom(y, m + 1, k - DaysIn(y, m))
Date(n) == LET y == YearOf(n) IN MonthFrom(y, 1, n - BeforeYear(y))

Weekday(n) == (n + 6) % 7                        \* 0 is Monday
WeekOne(y) == LET j == Ordinal(y, 1, 4) IN j - Weekday(j)   \* Monday of ISO week 1
Weeks(y)   == (WeekOne(y + 1) - WeekOne(y)) \div 7
(* The ISO year and week of an ordinal. *)
IsoWeek(n) == LET y == YearOf(n)
                  w == IF n >= WeekOne(y + 1) THEN y + 1 ELSE IF n >= WeekOne(y) THEN y ELSE y - 1
              IN  <<w, ((n - WeekOne(w)) \div 7) + 1>>

-----------------------------------------------------------------------------
Norm(t) == LET c == t[3] \div 1000000
               s == t[2] + c
               d == s \div 86400
           IN  <<t[1] + d, s % 86400, t[3] % 1000000>>
Plus(t, u)  == Norm(<<t[1] + u[1], t[2] + u[2], t[3] + u[3]>>)
Minus(t, u) == Norm(<<t[1] - u[1], t[2] - u[2], t[3] - u[3]>>)
Before(t, u) == \/ t[1] < u[1]
                \/ t[1] = u[1] /\ t[2] < u[2]
                \/ t[1] = u[1] /\ t[2] = u[2] /\ t[3] < u[3]
NotAfter(t, u) == t = u \/ Before(t, u)
Min(t, u) == IF Before(u, t) THEN u ELSE t
Max(t, u) == IF Before(t, u) THEN u ELSE t
Minutes(m) == Norm(<<0, m * 60, 0>>)
Day1 == <<1, 0, 0>>
Week1 == <<7, 0, 0>>
=============================================================================
