------------------------------- MODULE Tracing -------------------------------
(* epsilon.spewer: signal handlers in force while a service runs, tracing of
   function calls, and a trace of calls as text.                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Services,    \* their signals: a seq of sets
          Hands,       \* their handlers: a seq; two services may share one
          Programs,    \* for the text: trees of calls
          Others,      \* what others may do: <<signal, handler>>
          Answers      \* what the tracer's call handler may answer

VARIABLES handler,     \* per signal: who handles it; 0 is the one there before, 9 a stranger's
          meddled,     \* signals whose handler others changed
          saved,       \* per service, while running: the handlers it replaced; <<>> if not running
          order,       \* the services running, the latest last
          tracer,      \* whether the tracer is installed
          last

vars == <<handler, saved, order, tracer, meddled, last>>
View == <<handler, saved, order, tracer, meddled>>
Did(e, o) == last' = e @@ [out |-> o]
Signals == {1, 2, 3}

(* --- the text of a tree of calls --- *)
(* A node: sig, its signature; ret: none, value, zero, blank, raise; catch: whether it handles what the
   calls it makes raise; kids.  A line: depth, kind, function, arguments.  A class as node.sig
   "method" shows in the function's name. *)
Args(s) == CASE s = "none" -> {}
             [] s = "pos" -> {"a=1", "b='x'"}
             [] s = "kwonly" -> {"a=1", "k=2", "rest=(3,)"}
             [] s = "kwargs" -> {"a=1", "kw={'z': 2}"}
             [] s = "all" -> {"a=1", "k=2", "rest=()", "kw={}"}
             [] s = "method" -> {"self=<instance>", "a=1"}
             [] s = "empty" -> {"self=<empty>", "a=1"}         \* an instance which is false
             [] s = "noself" -> {"self=None", "a=1"}
RECURSIVE Spew(_, _), Kids(_, _, _)
(* Spew: the lines, and whether it raised. *)
Spew(n, d) ==
  LET call == <<<<d, "call", n.sig, Args(n.sig)>>>>
      k == Kids(n, 1, d)
      exc == <<<<d, "raised", "", {}>>>>
  IN  IF k.raised THEN [lines |-> call \o k.lines, raised |-> TRUE]
      ELSE CASE n.ret = "none" -> [lines |-> call \o k.lines, raised |-> FALSE]
             [] n.ret = "value" -> [lines |-> call \o k.lines \o <<<<d, "returned", "", {}>>>>, raised |-> FALSE]
             [] n.ret \in {"zero", "blank"} -> [lines |-> call \o k.lines \o <<<<d, n.ret, "", {}>>>>, raised |-> FALSE]
             [] n.ret = "raise" -> [lines |-> call \o k.lines \o exc, raised |-> TRUE]
Kids(n, i, d) ==
  IF i > Len(n.kids) THEN [lines |-> <<>>, raised |-> FALSE]
  ELSE LET s == Spew(n.kids[i], d + 1)
           \* an exception of a call is seen here as well
           l == IF s.raised THEN Append(s.lines, <<d, "raised", "", {}>>) ELSE s.lines
       IN  IF s.raised /\ ~n.catch THEN [lines |-> l, raised |-> TRUE]
           ELSE LET r == Kids(n, i + 1, d) IN [lines |-> l \o r.lines, raised |-> r.raised]
RECURSIVE Texts(_)
Texts(ps) == IF ps = <<>> THEN <<>> ELSE Spew(ps[1], 1).lines \o Texts(Tail(ps))

(* --- what a tracer hears of a function of two lines which it calls --- *)
Heard(answer) == CASE answer = "none" -> <<"CALL", "LINE", "LINE", "RETURN">>     \* goes on with the tracer
                   [] answer = "skip" -> <<"CALL">>
                   \* another function, also one which is false
                   [] answer \in {"other", "false"} -> <<"CALL", "other line", "other line", "other return">>

Step(e) ==
  /\ meddled' = (IF e.op = "other" THEN meddled \cup {e.sig} ELSE meddled)
  /\ CASE e.op = "other" ->     \* sig, who: somebody else sets a handler, perhaps that of a service
         handler' = [handler EXCEPT ![e.sig] = e.who] /\ UNCHANGED <<saved, order, tracer>> /\ Did(e, <<>>)
    [] e.op = "start" ->       \* i: a service
         /\ ~\E k \in DOMAIN order : order[k] = e.i
         /\ saved' = [saved EXCEPT ![e.i] = handler]
         /\ handler' = [s \in Signals |-> IF s \in Services[e.i] THEN Hands[e.i] ELSE handler[s]]
         /\ order' = Append(order, e.i) /\ UNCHANGED tracer /\ Did(e, <<"running">>)
    [] e.op = "stop" ->        \* the latest service
         /\ order # <<>>
         /\ LET i == order[Len(order)] IN
            /\ handler' = [s \in Signals |-> IF s \in Services[i] THEN saved[i][s] ELSE handler[s]]
            /\ saved' = [saved EXCEPT ![i] = [s \in Signals |-> 0]]
         /\ order' = SubSeq(order, 1, Len(order) - 1) /\ UNCHANGED tracer /\ Did(e, <<"not running">>)
    [] e.op = "signal" ->      \* sig
         UNCHANGED <<handler, saved, order, tracer>> /\ Did(e, <<handler[e.sig], e.sig>>)
    [] e.op \in {"install", "uninstall", "toggle"} ->
         /\ tracer' = (IF e.op = "toggle" THEN ~tracer ELSE e.op = "install")
         /\ UNCHANGED <<handler, saved, order>> /\ Did(e, <<>>)
    [] e.op = "stranger" ->    \* somebody else traces, which does not count
         ~tracer /\ UNCHANGED <<handler, saved, order, tracer>> /\ Did(e, <<>>)
    [] e.op = "call" ->        \* answer, where: in this thread or in one started now
         /\ UNCHANGED <<handler, saved, order, tracer>>
         /\ Did(e, IF tracer THEN Heard(e.answer) ELSE <<>>)
    [] e.op = "spew" ->        \* programs, one after another
         /\ UNCHANGED <<handler, saved, order, tracer>> /\ ~tracer
         /\ Did(e, Texts(e.programs))

Init == /\ handler = [s \in Signals |-> 0] /\ saved = [i \in DOMAIN Services |-> [s \in Signals |-> 0]]
        /\ order = <<>> /\ tracer = FALSE /\ meddled = {} /\ last = [op |-> "init", out |-> <<>>]
InitWith(r) == Init
Next ==
  \/ ~tracer /\ \E i \in DOMAIN Services : Step([op |-> "start", i |-> i])
  \/ ~tracer /\ Step([op |-> "stop"])
  \/ ~tracer /\ \E o \in Others : Step([op |-> "other", sig |-> o[1], who |-> o[2]])
  \/ \E s \in Signals : Step([op |-> "signal", sig |-> s])
  \/ order = <<>> /\ \E k \in {"install", "uninstall", "toggle"} : Step([op |-> k])
  \/ order = <<>> /\ ~tracer /\ Step([op |-> "stranger"])
  \/ order = <<>> /\ \E a \in Answers, w \in {"here", "thread"} : Step([op |-> "call", answer |-> a, where |-> w])
  \/ order = <<>> /\ \E p \in Programs, q \in Programs : Step([op |-> "spew", programs |-> <<p, q>>])

(* With no service running, the handlers there before are in force; else each signal goes
   to the latest service which wants it. *)
InForce == \A s \in Signals \ meddled :
             LET K == {k \in DOMAIN order : s \in Services[order[k]]} IN
             IF K = {} THEN handler[s] = 0
             ELSE handler[s] = Hands[order[CHOOSE k \in K : \A j \in K : j <= k]]
=============================================================================
