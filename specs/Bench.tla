-------------------------------- MODULE Bench --------------------------------
(* epsilon.scripts.benchmark.main: the command which runs a benchmark script.

   The script runs in an empty directory of its own, which is gone afterwards,
   with the arguments and environment of the command.  What is reported of it
   is appended to the file `output'.  A script is a sequence of actions.       *)
EXTENDS Naturals, Integers, Sequences, TLC

CONSTANTS Scripts, Args, MaxRuns

VARIABLES output,   \* the records of the file so far
          runs, last

vars == <<output, runs, last>>
View == <<output, runs>>
Did(e, o) == last' = e @@ [out |-> o]

(* How far a script comes, and what was measured on the way. *)
RECURSIVE Act(_, _)
Act(as, s) ==
  IF as = <<>> \/ s.dead THEN s
  ELSE LET a == as[1]
       IN  Act(Tail(as),
               CASE a.do = "grow" -> [s EXCEPT !.size = @ + a.n]
                 [] a.do = "empty" -> [s EXCEPT !.size = 0]
                 [] a.do = "start" -> [s EXCEPT !.from = s.size]
                 [] a.do = "stop" -> [s EXCEPT !.to = s.size]
                 [] a.do = "complain" -> [s EXCEPT !.bad = TRUE]
                 [] a.do = "say" -> s
                 [] a.do \in {"exit", "raise", "kill", "odd"} -> [s EXCEPT !.dead = TRUE])
Ran(as) == Act(as, [size |-> 0, from |-> -1, to |-> -1, bad |-> FALSE, dead |-> FALSE])

Report(script, s) ==
  IF s.dead THEN <<>>
  ELSE <<<<script, "overall", s.bad, s.size>>>>
       \o (IF s.from >= 0 /\ s.to >= 0 THEN <<<<script, "benchmark", s.bad, s.to - s.from>>>> ELSE <<>>)

Step(e) ==
  CASE e.op = "run" ->      \* script (its name), acts, args, mark, near
         LET r == Report(e.script, Ran(e.acts))
         IN  /\ output' = output \o r /\ runs' = runs + 1
             \* the whole report; what the script saw: its arguments, an empty directory, the environment;
             \* what else is left behind
             /\ Did(e, <<output \o r, <<e.args, <<>>, e.mark>>, <<>>>>)

Init == output = <<>> /\ runs = 0 /\ last = [op |-> "init", out |-> <<>>]
InitWith(r) == Init
Next == runs < MaxRuns /\ \E i \in DOMAIN Scripts, a \in Args, n \in BOOLEAN :
          Step([op |-> "run", script |-> "s" \o ToString(i) \o ".py", acts |-> Scripts[i], args |-> a,
                mark |-> "m" \o ToString(runs), near |-> n])

(* Nothing once reported is ever lost. *)
Kept == [][\E k \in 0..2 : Len(output') = Len(output) + k /\ SubSeq(output', 1, Len(output)) = output]_vars
=============================================================================
