------------------------------- MODULE Pending -------------------------------
(* epsilon.pending: any number of listeners waiting for an event.

   Each listener hears the first event after it began to wait, once.  Listeners
   may wait again, fire the event again, or have another not wait any more,
   while they are being told.                                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxListeners, Reacts, Results, Failures

VARIABLES queue,    \* the listeners waiting, in order
          reacts,   \* what each listener does when told
          fired,    \* how many events there were
          last

vars == <<queue, reacts, fired, last>>
View == <<queue, reacts, fired>>

(* State of a run: q, rs, ev, done: who was told. *)
RECURSIVE Fire(_, _), Tell(_, _, _), Hear(_, _, _)
Hear(i, what, st) ==
  IF i \in st.done THEN st
  ELSE LET s1 == [st EXCEPT !.ev = Append(@, <<"told", i, what>>), !.done = @ \cup {i},
                            !.q = SelectSeq(@, LAMBDA j : j # i)]
           r  == s1.rs[i]
       IN  CASE r = "again" ->     \* waits for the next event
                  [s1 EXCEPT !.q = Append(@, Len(s1.rs) + 1), !.rs = Append(@, "no")]
             [] r = "fire" -> Fire("nested", s1)
             [] r = "cancel" ->    \* has the next listener not wait any more
                  IF i + 1 \in DOMAIN s1.rs THEN Hear(i + 1, "cancelled", s1) ELSE s1
             [] OTHER -> s1        \* "no", or "raise" which concerns nobody else
Tell(who, what, st) == IF who = <<>> THEN st ELSE Tell(Tail(who), what, Hear(who[1], what, st))
Fire(what, st) == Tell(st.q, what, [st EXCEPT !.q = <<>>])

Did(e, o) == last' = e @@ [out |-> o]
Waiting == {queue[j] : j \in DOMAIN queue}
St == [q |-> queue, rs |-> reacts, ev |-> <<>>, done |-> DOMAIN reacts \ Waiting]
Become(e, s, n) == queue' = s.q /\ reacts' = s.rs /\ fired' = fired + n /\ Did(e, s.ev)
Run(e, what) == Become(e, Fire(what, St), 1)

Step(e) ==
  CASE e.op = "wait" ->       \* react
         /\ queue' = Append(queue, Len(reacts) + 1) /\ reacts' = Append(reacts, e.react)
         /\ UNCHANGED fired /\ Did(e, <<>>)
    [] e.op = "callback" -> Run(e, e.what)      \* what: the result, of whatever kind
    [] e.op = "errback" -> Run(e, e.what)       \* what: a failure or an exception
    [] e.op = "errnow" -> Run(e, "current")     \* errback() while handling an exception
    [] e.op = "errnone" ->                      \* errback() with no exception to report
         UNCHANGED <<queue, reacts, fired>> /\ Did(e, <<"no exception">>)
    [] e.op = "cancel" ->                       \* i does not wait any more
         e.i \in Waiting /\ Become(e, Hear(e.i, "cancelled", St), 0)

Init == queue = <<>> /\ reacts = <<>> /\ fired = 0 /\ last = [op |-> "init", out |-> <<>>]
InitWith(r) == Init
Next ==
  \/ \E r \in Reacts : Len(reacts) < MaxListeners /\ Step([op |-> "wait", react |-> r])
  \/ fired < 3 /\ \E k \in {"errnow", "errnone"} : Step([op |-> k])
  \/ fired < 3 /\ \E w \in Results : Step([op |-> "callback", what |-> w])
  \/ fired < 3 /\ \E w \in Failures : Step([op |-> "errback", what |-> w])
  \/ \E i \in Waiting : Step([op |-> "cancel", i |-> i])

(* A listener which was told is not waiting any more. *)
Once == [][\A i \in DOMAIN reacts : (\A j \in DOMAIN queue : queue[j] # i)
             => (\A j \in DOMAIN queue' : queue'[j] # i)]_vars
Distinct == \A j, k \in DOMAIN queue : queue[j] = queue[k] => j = k
=============================================================================
