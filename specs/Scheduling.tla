------------------------------ MODULE Scheduling ------------------------------
(* epsilon.cooperator: jobs (iterators) worked on step by step while a service
   is running.

   What a job does is its script: "item" a step, "wait" a step which lasts until
   it is released, "add" a step which adds another job, "fail" an exception.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Kinds, Scripts, MaxJobs

VARIABLES kind,    \* service, or reactor: the one which is always running
          on,      \* new, on, off; ended, by a stop with several jobs at hand: Twisted's
                   \* Cooperator does not survive that, so it is not started again
          jobs,    \* each: todo (the rest of its script), n (steps done), at: ready, waiting, over
          last

vars == <<kind, on, jobs, last>>
View == <<kind, on, jobs>>
Did(e, o) == last' = e @@ [out |-> o]

(* Work on job i until it waits or is over: st.jobs, st.ev. *)
RECURSIVE Work(_, _), WorkAll(_, _)
Work(i, st) ==
  LET j == st.jobs[i] IN
  IF j.at # "ready" THEN st
  ELSE IF j.todo = <<>> THEN
       [st EXCEPT !.jobs[i].at = "over", !.ev = Append(@, <<i, "done", 0>>)]
  ELSE LET x  == j.todo[1]
           s1 == [st EXCEPT !.jobs[i].todo = Tail(@), !.jobs[i].n = @ + 1,
                            !.ev = Append(@, <<i, "step", j.n + 1>>)]
       IN  CASE x = "wait" -> [s1 EXCEPT !.jobs[i].at = "waiting"]
             [] x = "fail" -> [s1 EXCEPT !.jobs[i].at = "over", !.ev = Append(@, <<i, "failed", 0>>)]
             [] x = "add"  -> Work(i, [s1 EXCEPT !.jobs = Append(@, [todo |-> <<"item">>, n |-> 0, at |-> "ready"])])
             [] OTHER -> Work(i, s1)
WorkAll(i, st) == IF i > Len(st.jobs) THEN st ELSE WorkAll(i + 1, Work(i, st))

Ready == {i \in DOMAIN jobs : jobs[i].at = "ready"}
Step(e) ==
  CASE e.op = "start" -> on \in {"new", "off"} /\ on' = "on" /\ UNCHANGED <<kind, jobs>> /\ Did(e, <<"running">>)
    [] e.op = "stop" ->
         /\ on = "on" /\ on' = (IF Cardinality(Ready) > 1 THEN "ended" ELSE "off") /\ UNCHANGED kind
         /\ jobs' = [i \in DOMAIN jobs |-> IF i \in Ready THEN [jobs[i] EXCEPT !.at = "over"] ELSE jobs[i]]
         \* of several jobs, which of them hear of it is Twisted's affair
         /\ Did(e, <<IF Ready = {} THEN "none"
                     ELSE IF Cardinality(Ready) = 1 THEN "stopped" ELSE "several", "not running">>)
    [] e.op = "add" ->       \* script
         LET i == Len(jobs) + 1 IN
         IF on \in {"off", "ended"}
         THEN /\ jobs' = Append(jobs, [todo |-> <<>>, n |-> 0, at |-> "over"]) /\ UNCHANGED <<kind, on>>
              /\ Did(e, <<<<i, "stopped", 0>>>>)
         ELSE /\ jobs' = Append(jobs, [todo |-> e.script, n |-> 0, at |-> "ready"]) /\ UNCHANGED <<kind, on>>
              /\ Did(e, <<>>)
    [] e.op = "work" ->
         IF on = "on"
         THEN LET s == WorkAll(1, [jobs |-> jobs, ev |-> <<>>])
              IN  jobs' = s.jobs /\ UNCHANGED <<kind, on>> /\ Did(e, s.ev)
         ELSE UNCHANGED <<kind, on, jobs>> /\ Did(e, <<>>)
    [] e.op \in {"release", "refuse"} ->      \* i: what it waits for happens, or fails
         IF e.i \notin DOMAIN jobs THEN UNCHANGED <<kind, on, jobs>> /\ Did(e, <<>>)
         ELSE IF jobs[e.i].at # "waiting" THEN UNCHANGED <<kind, on, jobs>> /\ Did(e, <<>>)
         ELSE LET gone == e.op = "refuse" \/ on \in {"off", "ended"} IN
              /\ jobs' = [jobs EXCEPT ![e.i].at = IF gone THEN "over" ELSE "ready"]
              /\ UNCHANGED <<kind, on>>
              /\ Did(e, IF ~gone THEN <<>>
                        ELSE <<<<e.i, IF e.op = "refuse" THEN "failed" ELSE "stopped", 0>>>>)

InitWith(r) == /\ kind = r.kind /\ on = (IF r.kind = "service" THEN "new" ELSE "on")
               /\ jobs = <<>> /\ last = [op |-> "init", out |-> <<>>]
Init == \E k \in Kinds : InitWith([kind |-> k])
Next ==
  \/ kind = "service" /\ \E k \in {"start", "stop"} : Step([op |-> k])
  \/ Len(jobs) < MaxJobs /\ \E s \in Scripts : Step([op |-> "add", script |-> s])
  \/ Step([op |-> "work"])
  \/ \E i \in DOMAIN jobs, k \in {"release", "refuse"} : jobs[i].at = "waiting" /\ Step([op |-> k, i |-> i])

(* Nothing is worked on unless running; a job once over stays over. *)
Rests == [][on # "on" => \A i \in DOMAIN jobs : jobs'[i].n = jobs[i].n]_vars
Over == [][\A i \in DOMAIN jobs : jobs[i].at = "over" => jobs'[i] = jobs[i]]_vars
NewRests == on = "new" => \A i \in DOMAIN jobs : jobs[i].n = 0
=============================================================================
