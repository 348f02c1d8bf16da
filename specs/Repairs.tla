------------------------------- MODULE Repairs -------------------------------
(* epsilon.hotfixes: what hotfixes put in place of what an old Twisted lacks.

   A protocol with a timeout is told once when that much time has passed since
   the timeout was set or the last sign of life; times are whole seconds, and
   None is <<>>.  What the protocol does when told ("react"):
   "no"thing but closing, "again" sets the same timeout, "off" sets none,
   "life" shows a sign of life, which is too late.

   The directories searched for the modules of a package for plugins: that of
   each entry of the path, where it is no package of its own; an entry has the
   directory or not ("absent", "bare") or has it as a package ("package").    *)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Periods, Advances, Reacts, MaxNow, Entries, MaxPath, Names

VARIABLES period,  \* the timeout in force, or <<>>
          due,     \* when it is due, or <<>>
          now,
          react,
          last
vars == <<period, due, now, react, last>>
View == <<period, due, now, react>>

Did(e, o) == last' = e @@ [out |-> o]

Searched(path) == SelectSeq([i \in 1..Len(path) |-> i], LAMBDA i : path[i] # "package")

Step(e) ==
  CASE e.op = "set" ->        \* p: <<>> or <<seconds>>
         /\ period' = e.p
         /\ due' = (IF e.p = <<>> THEN <<>> ELSE <<now + e.p[1]>>)
         /\ UNCHANGED <<now, react>>
         /\ Did(e, << <<"was", period>> >>)
    [] e.op = "life" ->       \* a sign of life
         /\ due' = (IF due = <<>> THEN due ELSE <<now + period[1]>>)
         /\ UNCHANGED <<period, now, react>>
         /\ Did(e, <<>>)
    [] e.op = "react" ->
         react' = e.react /\ UNCHANGED <<period, due, now>> /\ Did(e, <<>>)
    [] e.op = "advance" ->    \* dt
         /\ now' = now + e.dt
         /\ UNCHANGED react
         /\ IF due # <<>> /\ due[1] <= now + e.dt
            THEN /\ Did(e, CASE react = "no" -> << <<"timeout">>, <<"close">> >>
                             [] react \in {"again", "off"} -> << <<"timeout">>, <<"was", period>> >>
                             [] OTHER -> << <<"timeout">> >>)
                 /\ (CASE react = "again" -> due' = <<now + e.dt + period[1]>> /\ UNCHANGED period
                       [] react = "off" -> due' = <<>> /\ period' = <<>>
                       [] OTHER -> due' = <<>> /\ UNCHANGED period)
            ELSE UNCHANGED <<period, due>> /\ Did(e, <<>>)
    [] e.op = "paths" ->      \* name (its parts), path
         UNCHANGED <<period, due, now, react>> /\ Did(e, Searched(e.path))

Init == period = <<>> /\ due = <<>> /\ now = 0 /\ react = "no" /\ last = [op |-> "init", out |-> <<>>]
InitWith(r) == Init

Paths == UNION {[1..n -> Entries] : n \in 0..MaxPath}
Next ==
  \/ Step([op |-> "set", p |-> <<>>])
  \/ \E p \in Periods : Step([op |-> "set", p |-> <<p>>])
  \/ Step([op |-> "life"])
  \/ \E r \in Reacts : r # react /\ Step([op |-> "react", react |-> r])
  \/ \E t \in Advances : now + t <= MaxNow /\ Step([op |-> "advance", dt |-> t])
  \/ \E p \in Paths, n \in Names : now = 0 /\ Step([op |-> "paths", name |-> n, path |-> p])

(* Told at most once for each time it was set or revived, and never early. *)
NeverEarly == [][last'.op = "advance" /\ last'.out # <<>> => due # <<>> /\ due[1] <= now']_vars
NeverLate == due = <<>> \/ due[1] >= now
Quiet == period = <<>> => due = <<>>
=============================================================================
