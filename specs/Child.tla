-------------------------------- MODULE Child --------------------------------
(* epsilon.scripts.benchmark: watching a child process until it ends.

   The child writes to, and closes, file descriptors; after a period of silence
   it is killed; however it ends, whoever spawned it hears of it, once: also if
   nothing can be measured any more because its directory is gone.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Kinds, Fds, Periods, Limit, MaxEvents

VARIABLES kind,     \* basic, or benchmark, which keeps the backchannel to itself
          quick,    \* the child ends the moment it is killed
          at,       \* new, running, killed, over
          silent,   \* for how long
          output,   \* what was heard, in order
          gone,     \* the child removed its directory: nothing can be measured at the end
          last

vars == <<kind, quick, at, silent, output, gone, last>>
View == <<kind, quick, at, silent, output, gone>>
Did(e, o) == last' = e @@ [out |-> o]
Rest == UNCHANGED <<kind, quick, gone>>

Back == 3     \* the backchannel

(* How it ended, as told: how \in done, exit, signal, other. *)
Told(how, st, killed, o) ==
  IF how = "done" /\ gone /\ kind = "benchmark" /\ ~killed THEN <<"unmeasured", 0, <<>>>>
  ELSE IF how = "done" /\ ~(gone /\ kind = "benchmark") THEN <<"done", 0, o>>
  ELSE IF killed THEN <<"timeout", 0, <<>>>>
  ELSE IF how = "other" THEN <<"other", 0, <<>>>>
  ELSE <<how, st, o>>

Hear(e, x) ==
  /\ at \in {"running", "killed"}
  /\ silent' = 0 /\ UNCHANGED at /\ Rest
  /\ output' = (IF kind = "benchmark" /\ e.fd = Back /\ e.op = "data" THEN output ELSE Append(output, x))
  /\ Did(e, <<>>)

Step(e) ==
  CASE e.op = "spawn" ->     \* args, path, env: what is run, where and with which environment
         /\ at = "new" /\ at' = "running" /\ silent' = 0 /\ UNCHANGED output /\ Rest
         /\ Did(e, <<<<"spawned", e.args, e.path, e.env>>>>)
    [] e.op = "data" -> Hear(e, <<e.fd, e.n>>)            \* fd, n: which bytes
    [] e.op = "closed" -> Hear(e, <<e.fd, 0>>)            \* fd
    [] e.op = "pass" ->                                   \* n: time passes
         /\ at \in {"running", "killed"} /\ Rest
         /\ IF at = "running" /\ silent + e.n >= Limit
            THEN IF quick
                 THEN /\ at' = "over" /\ silent' = 0 /\ output' = <<>>
                      /\ Did(e, <<<<"KILL">>, Told("signal", 9, TRUE, output)>>)
                 ELSE at' = "killed" /\ silent' = 0 /\ UNCHANGED output /\ Did(e, <<<<"KILL">>>>)
            ELSE /\ silent' = (IF at = "running" THEN silent + e.n ELSE 0)
                 /\ UNCHANGED <<at, output>> /\ Did(e, <<>>)
    [] e.op = "end" ->                                    \* how, st
         /\ at \in {"running", "killed"} /\ at' = "over" /\ silent' = 0 /\ output' = <<>> /\ Rest
         /\ Did(e, <<Told(e.how, e.st, at = "killed", output)>>)
    [] e.op = "vanish" ->
         /\ at \in {"running", "killed"} /\ ~gone /\ gone' = TRUE
         /\ UNCHANGED <<kind, quick, at, silent, output>> /\ Did(e, <<>>)
    [] e.op = "after" ->                                  \* n: time passes when all is over
         at = "over" /\ UNCHANGED <<at, silent, output>> /\ Rest /\ Did(e, <<>>)

InitWith(r) == /\ kind = r.kind /\ quick = r.quick /\ at = "new" /\ silent = 0 /\ output = <<>> /\ gone = FALSE
               /\ last = [op |-> "init", out |-> <<>>]
Init == \E k \in Kinds, q \in BOOLEAN : InitWith([kind |-> k, quick |-> q])
Next ==
  \/ \E a \in {<<>>, <<"x">>, <<"x", "y">>} : \E v \in {"none", "empty", "one"} :
       Step([op |-> "spawn", args |-> a, path |-> "p", env |-> v])
  \/ Len(output) < MaxEvents /\ \E f \in Fds : Step([op |-> "data", fd |-> f, n |-> 1 + Len(output)])
  \/ Len(output) < MaxEvents /\ \E f \in Fds : Step([op |-> "closed", fd |-> f])
  \/ \E n \in Periods : Step([op |-> "pass", n |-> n])
  \/ \E h \in {"exit", "signal"}, s \in {1, 9} : Step([op |-> "end", how |-> h, st |-> s])
  \/ \E h \in {"done", "other"} : Step([op |-> "end", how |-> h, st |-> 0])
  \/ Step([op |-> "vanish"])
  \/ Step([op |-> "after", n |-> Limit])

Silence == silent < Limit
KilledForSilence == [][at = "running" /\ at' = "killed" =>
                       last'.op = "pass" /\ silent + last'.n >= Limit]_vars
NoMore == [][at = "over" => last'.out = <<>>]_vars
=============================================================================
