-------------------------------- MODULE React --------------------------------
(* epsilon.react: run a reactor for as long as a function's Deferred is pending.

   The reactor is a real one; a turn of it is a sequence of things which happen
   in it: the Deferred fires or fails, somebody else stops the reactor, a
   Deferred delaying the shutdown is released.                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Mains, Turns, Argvs, MaxTurns

VARIABLES phase,   \* idle, running, stopping (shutdown is being held), done
          task,    \* none, pending, half (its last step remains), over
          holds,   \* Deferreds delaying the shutdown
          turns,
          last

vars == <<phase, task, holds, turns, last>>
View == <<phase, task, holds, turns>>
Did(e, o) == last' = e @@ [out |-> o]

(* One thing happening in a turn: s.task, s.holds, s.stop (the reactor was told
   to stop in this turn or before), s.ev. *)
Act(a, s) ==
  CASE a \in {"ok", "fail"} /\ s.task # "over" ->
         [s EXCEPT !.task = "over", !.stop = TRUE,
                   !.ev = IF a = "fail" THEN Append(@, "logged") ELSE @]
    [] a = "half" /\ s.task = "pending" -> [s EXCEPT !.task = "half"]
    [] a = "stop" -> IF s.stop THEN [s EXCEPT !.ev = Append(@, "refused")]
                     ELSE [s EXCEPT !.stop = TRUE]
    [] a = "hold" -> IF s.stopping THEN s ELSE [s EXCEPT !.holds = @ + 1]
    [] a = "release" /\ s.holds > 0 -> [s EXCEPT !.holds = @ - 1, !.freed = @ + 1]
    [] OTHER -> s
RECURSIVE Acts(_, _)
Acts(as, s) == IF as = <<>> THEN s ELSE Acts(Tail(as), Act(as[1], s))

(* What the end of a turn leaves. *)
End(s, e) ==
  LET p == IF ~s.stop THEN "running" ELSE IF s.holds > 0 THEN "stopping" ELSE "done"
  IN  /\ phase' = p /\ task' = s.task /\ holds' = s.holds
      /\ Did(e, IF p = "done" THEN Append(s.ev, "returned") ELSE s.ev)

Start == [task |-> "pending", holds |-> 0, stop |-> FALSE, stopping |-> FALSE, freed |-> 0, ev |-> <<>>]

Step(e) ==
  CASE e.op = "react" ->   \* argv, early: done by main itself; main: how it ends; first: once running
         /\ phase = "idle" /\ turns' = 0
         /\ LET called == <<"called", e.argv>>
                s0 == Acts(e.early, [Start EXCEPT !.ev = <<called>>])
            IN  IF e.main = "raise"
                THEN /\ phase' = "done" /\ task' = "over" /\ holds' = 0
                     /\ Did(e, <<called, "raised">>)
                \* a failure is logged at once; everything else happens once the reactor runs:
                \* first what main asked for, then the stop due to main's being over
                ELSE LET s1 == IF e.main = "fail" THEN [s0 EXCEPT !.ev = Append(@, "logged")] ELSE s0
                         t  == IF e.main \in {"ok", "fail"} THEN "over" ELSE "pending"
                         s2 == Acts(e.first, [s1 EXCEPT !.task = t, !.ev = Append(@, "running")])
                         s3 == IF e.main \in {"ok", "fail"} THEN [s2 EXCEPT !.stop = TRUE] ELSE s2
                     IN  End(s3, e)
    [] e.op = "turn" ->    \* acts
         /\ phase \in {"running", "stopping"} /\ turns' = turns + 1
         /\ End(Acts(e.acts, [task |-> task, holds |-> holds, stop |-> phase = "stopping",
                              stopping |-> phase = "stopping", freed |-> 0, ev |-> <<>>]), e)

Init == phase = "idle" /\ task = "none" /\ holds = 0 /\ turns = 0 /\ last = [op |-> "init", out |-> <<>>]
InitWith(r) == Init
Next ==
  \/ \E m \in Mains, v \in Argvs, h \in {<<>>, <<"hold">>}, f \in Turns :
        Step([op |-> "react", main |-> m, argv |-> v, early |-> h, first |-> f])
  \/ turns < MaxTurns /\ \E t \in Turns : Step([op |-> "turn", acts |-> t])

(* The reactor runs exactly as long as nothing ended it. *)
RunsWhilePending == phase = "running" => task \in {"pending", "half"}
EndsWhenOver == (task = "over" /\ holds = 0) => phase = "done"
HeldOnly == phase = "stopping" => holds > 0
StaysDone == [][phase = "done" => UNCHANGED vars]_vars
NoRestart == [][phase = "stopping" => phase' \in {"stopping", "done"}]_vars
=============================================================================
