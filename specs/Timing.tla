-------------------------------- MODULE Timing --------------------------------
(* epsilon.scripts.benchmark: what is measured of a child process, and reported.

   The child says on a backchannel when measuring starts and stops, and is
   answered with the same.  The resource measured here is the size of its
   directory.  At the end the whole run and the part between start and stop are
   reported, marked as an error if the child failed or complained.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Chunks, Growths, MaxEvents

VARIABLES at,       \* new, running, over
          size,     \* of the directory now
          first,    \* when the child was spawned
          from, to, \* when measuring started and stopped; -1 if never
          stderr,   \* what came of the child's standard error: seq of "data", "closed"
          n, last

vars == <<at, size, first, from, to, stderr, n, last>>
View == <<at, size, first, from, to, stderr, n>>
Did(e, o) == last' = e @@ [out |-> o]

(* The bytes of a chunk, one after another: 0 starts, 1 stops, others are wrong. *)
RECURSIVE Bytes(_, _, _)
Bytes(bs, s, by) ==
  IF bs = <<>> THEN s
  ELSE Bytes(Tail(bs),
             CASE bs[1] = 0 -> [s EXCEPT !.from = s.size, !.size = @ + by, !.ev = Append(@, <<"answer", 0>>)]
               [] bs[1] = 1 -> [s EXCEPT !.to = s.size, !.size = @ + by, !.ev = Append(@, <<"answer", 1>>)]
               [] OTHER -> [s EXCEPT !.ev = Append(@, <<"QUIT", 0>>)], by)

(* What is reported: name, error, growth. *)
Report(st) ==
  LET bad == st # 0 \/ stderr # <<"closed">>
  IN  <<<<"-overall", bad, size - first>>>>
      \o (IF from >= 0 /\ to >= 0 THEN <<<<"-benchmark", bad, to - from>>>> ELSE <<>>)

Step(e) ==
  CASE e.op = "spawn" ->
         at = "new" /\ at' = "running" /\ first' = size /\ UNCHANGED <<size, from, to, stderr, n>> /\ Did(e, <<>>)
    [] e.op = "grow" ->       \* by
         /\ size' = size + e.by /\ n' = n + 1 /\ UNCHANGED <<at, first, from, to, stderr>> /\ Did(e, <<>>)
    [] e.op = "back" ->       \* bytes: on the backchannel; by: what the child does as soon as it has an answer
         /\ at = "running" /\ n' = n + 1
         /\ LET s == Bytes(e.bytes, [from |-> from, to |-> to, size |-> size, ev |-> <<>>], e.by)
            IN  from' = s.from /\ to' = s.to /\ size' = s.size /\ Did(e, s.ev)
         /\ UNCHANGED <<at, first, stderr>>
    [] e.op = "out" -> at = "running" /\ n' = n + 1 /\ UNCHANGED <<at, size, first, from, to, stderr>> /\ Did(e, <<>>)
    [] e.op = "err" ->        \* what
         /\ at = "running" /\ n' = n + 1 /\ stderr' = Append(stderr, e.what)
         /\ UNCHANGED <<at, size, first, from, to>> /\ Did(e, <<>>)
    [] e.op = "end" ->        \* how: done, died, silent; st: status
         /\ at = "running" /\ at' = "over" /\ n' = n + 1 /\ UNCHANGED <<size, first, from, to, stderr>>
         /\ Did(e, IF e.how = "done" THEN Report(e.st) ELSE <<>>)
    \* the child's side, by itself: it says start or stop and reads the reply (256: none)
    [] e.op = "child" ->      \* says, reply
         /\ UNCHANGED <<at, size, first, from, to, stderr, n>>
         /\ Did(e, <<e.says, IF e.reply = e.says THEN "ok" ELSE "RuntimeError">>)

Init == /\ at = "new" /\ size = 0 /\ first = 0 /\ from = -1 /\ to = -1 /\ stderr = <<>> /\ n = 0
        /\ last = [op |-> "init", out |-> <<>>]
InitWith(r) == Init
Next ==
  \/ n < MaxEvents /\
     \/ Step([op |-> "spawn"])
     \/ \E b \in Growths : Step([op |-> "grow", by |-> b])
     \/ \E c \in Chunks, b \in {0} \cup Growths : Step([op |-> "back", bytes |-> c, by |-> b])
     \/ Step([op |-> "out"])
     \/ \E w \in {"data", "closed"} : Step([op |-> "err", what |-> w])
  \/ \E h \in {"done", "died", "silent"} : Step([op |-> "end", how |-> h, st |-> 0])
  \/ Step([op |-> "end", how |-> "done", st |-> 1])
  \/ n = 0 /\ \E s \in {0, 1}, r \in {0, 1, 2, 255, 256} : Step([op |-> "child", says |-> s, reply |-> r])

(* An error free report is of a child which ended well and was quiet. *)
Clean == [][IF last'.op # "end" THEN TRUE
            ELSE \A i \in DOMAIN last'.out : ~last'.out[i][2] => (last'.st = 0 /\ stderr = <<"closed">>)]_vars
Within == (from >= 0 /\ from >= first) \/ from = -1
=============================================================================
