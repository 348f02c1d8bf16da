----------------------------- MODULE JuiceCalls -----------------------------
(* Requests between the two sides of a Juice connection.

   Each side asks the other to run commands.  Requests are answered in any
   order, at once or later, with a result or an error; the connection may be
   closed or lost at any point.  Each request gets exactly one outcome, its own.

   cmd:   "hold"   answered later, by an "answer" operation
          "heir"   the same; what it declares it has from its base class
          "echo"   answered at once with a result
          "oops"   fails at once with an error its command declares
          "boom"   fails at once with an error it does not declare
          "dead"   fails at once with an error declared fatal
          "nope"   not a command of the other side
          "hidden" exists, but only in the namespace admin
          "both"   exists, without a namespace as well as in the namespace admin
          "never"  exists, but in no namespace nor without one
          "vers", "vers12": negotiation of a protocol version both sides know
          "new", "old", "first", "last", "high": offers of several versions, of
                   which the other side takes the first it knows
          "novers" negotiation of versions the other side does not know
   want:  "ask" (an answer is wanted) or "tell" (none is)
   style: "plain"; "again": makes another request as soon as it has an outcome;
          "lax": leaves a failure unhandled; "old": the untyped interface;
          "ns": asks for the command in the namespace admin;
          "nssub", "nspre", "nscase", "nsvoid": in another namespace, of a
          similar name, which no command is in                               *)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Cmds, Wants, Styles, Hows, MaxReqs, Chunks, Sides

VARIABLES reqs,  \* sequence of requests ever made
          chan,  \* what each side has sent that the other has not received
          up,    \* "up", "closing" (asked to close) or "lost", per side
          ver,   \* negotiated version, per side
          last
vars == <<reqs, chan, up, ver, last>>
View == <<reqs, chan, up, ver>>

Both == {"A", "B"}
Offers == {"new", "old", "first", "last", "high"}
Exactly == {"vers", "vers12"}
Negotiations == Offers \cup Exactly
Version(cmd) == IF cmd \in {"vers12", "high"} THEN 12 ELSE 1
Namespaces == {"nssub", "nspre", "nscase", "nsvoid"}
Other(s) == IF s = "A" THEN "B" ELSE "A"

(* Which error each way of failing arrives as, to a typed request: the closest
   to what was raised of those declared ("derived" and "fatalsub" are declared,
   and so is what they derive from; "subclass" is not). *)
Class(how, old) ==
  CASE how = "declared"   -> IF old THEN "Remote:E1" ELSE "Declared"
    [] how = "declared2"  -> IF old THEN "Remote:E2" ELSE "Declared2"
    [] how = "subclass"   -> IF old THEN "Remote:E1" ELSE "Declared"
    [] how = "derived"    -> IF old THEN "Remote:E3" ELSE "Derived"
    [] how = "fatal"      -> IF old THEN "Remote:F" ELSE "Fatal"
    [] how = "fatalsub"   -> IF old THEN "Remote:G" ELSE "FatalSub"
    [] OTHER              -> IF old THEN "Remote:UNHANDLED" ELSE "Unhandled"
Closes(how) == how \in {"fatal", "fatalsub", "undeclared", "unknown"}

Closing(st, s) ==
  IF st.u[s] # "up" THEN st
  ELSE [st EXCEPT !.u = [st.u EXCEPT ![s] = "closing"], !.ev = Append(st.ev, <<"closing", s>>)]

Write(st, s, m) ==
  IF st.u[s] # "up" THEN st
  ELSE [st EXCEPT !.c = [st.c EXCEPT ![s] = Append(st.c[s], m)]]

(* A new request. *)
RECURSIVE Request(_, _, _, _, _)
Request(st, s, cmd, want, style) ==
  LET r == Len(st.r) + 1
      q == [from |-> s, cmd |-> cmd, want |-> want, style |-> style]
  IN  IF st.u[s] = "lost"
      THEN LET s1 == [st EXCEPT !.r = Append(st.r, q @@ [st |-> "done"]),
                                !.ev = Append(st.ev, <<"failed", r, "ConnectionLost">>)]
           IN  IF style = "again" THEN Request(s1, s, "hold", "ask", "plain") ELSE s1
      ELSE Write([st EXCEPT !.r = Append(st.r, q @@ [st |-> "sent"])],
                 s, [k |-> "ask", r |-> r, how |-> "-"])

(* Request r of side s gets its outcome. *)
Outcome(st, s, r, what) ==
  LET s1 == [st EXCEPT !.r = [st.r EXCEPT ![r].st = "done"], !.ev = Append(st.ev, what)]
      y  == st.r[r].style
  IN  IF y = "again" THEN Request(s1, s, "hold", "ask", "plain")
      ELSE IF y = "lax" /\ what[1] = "failed" /\ st.u[s] # "lost" THEN Closing(s1, s)
      ELSE s1

(* Side s answers request r. *)
Reply(st, s, r, how) ==
  LET s0 == [st EXCEPT !.r = [st.r EXCEPT ![r].st = IF st.r[r].st = "done" THEN "done" ELSE "answered"]]
  IN  IF st.u[s] = "lost" THEN s0
      ELSE IF st.r[r].want = "tell"
      THEN (IF how = "ok" THEN s0 ELSE Closing(s0, s))
      ELSE LET s1 == Write(s0, s, [k |-> "ans", r |-> r, how |-> how])
               s2 == IF st.r[r].cmd \in Negotiations
                     THEN [s1 EXCEPT !.v = [s1.v EXCEPT ![s] = Version(st.r[r].cmd)]]
                     ELSE s1
           IN  IF Closes(how) THEN Closing(s2, s) ELSE s2

(* Whether a request is for something the other side has. *)
Exists(cmd, style) ==
  IF style = "ns" THEN cmd \in {"hidden", "both"}
  ELSE style \notin Namespaces /\ cmd \notin {"nope", "hidden", "never"}
Instant(cmd, style) ==
  CASE ~Exists(cmd, style) -> "unknown" [] cmd \in {"echo", "hidden", "both"} -> "ok" [] cmd = "oops" -> "declared" [] cmd = "boom" -> "undeclared"
    [] cmd = "dead" -> "fatal" [] cmd \in Negotiations -> "ok" [] cmd = "novers" -> "undeclared"
    [] OTHER -> "unknown"

(* Side s receives message m. *)
Receive(st, s, m) ==
  LET q == st.r[m.r]
  IN  IF m.k = "ask"
      THEN LET s1 == IF q.cmd \in Negotiations \cup {"novers"} \/ ~Exists(q.cmd, q.style) THEN st
                     ELSE [st EXCEPT !.ev = Append(st.ev, <<"served", m.r>>)]
           IN  IF q.cmd \in {"hold", "heir"} /\ Exists(q.cmd, q.style)
               THEN [s1 EXCEPT !.r = [s1.r EXCEPT ![m.r].st = IF q.st = "done" THEN "done" ELSE "served"],
                               !.h = Append(s1.h, m.r)]
               ELSE Reply(s1, s, m.r, Instant(q.cmd, q.style))
      ELSE IF q.st = "done" THEN st
      ELSE LET s1 == IF q.cmd \in Exactly
                     THEN [st EXCEPT !.v = [st.v EXCEPT ![s] = Version(q.cmd)]]
                     ELSE st
           IN  Outcome(s1, s, m.r, IF m.how = "ok" THEN <<"result", m.r>>
                                   ELSE <<"failed", m.r, Class(m.how, q.style = "old")>>)

RECURSIVE ReceiveAll(_, _, _)
ReceiveAll(st, s, ms) ==
  IF ms = <<>> \/ st.u[s] # "up" THEN st
  ELSE ReceiveAll(Receive(st, s, Head(ms)), s, Tail(ms))

(* The connection is lost for side s: its outstanding requests fail, each once. *)
RECURSIVE FailFrom(_, _, _, _)
FailFrom(st, s, i, n) ==
  IF i > n THEN st
  ELSE FailFrom(IF st.r[i].from = s /\ st.r[i].want = "ask" /\ st.r[i].st # "done"
                THEN Outcome(st, s, i, <<"failed", i, "Gone">>) ELSE st, s, i + 1, n)

Held(rs) == SelectSeq([i \in 1..Len(rs) |-> i], LAMBDA i : rs[i].st = "served")

St == [r |-> reqs, c |-> chan, u |-> up, v |-> ver, h |-> <<>>, ev |-> <<>>]
Changed(st, s) == IF st.v[s] = ver[s] THEN <<>> ELSE << <<"version", s, st.v[s]>> >>
Become(st, e) == /\ reqs' = st.r /\ chan' = st.c /\ up' = st.u /\ ver' = st.v
                 /\ last' = e @@ [out |-> st.ev \o Changed(st, "A") \o Changed(st, "B")]

Step(e) ==
  CASE e.op = "call" ->       \* side, cmd, want, style
         Become(Request(St, e.side, e.cmd, e.want, e.style), e)
    [] e.op = "deliver" ->    \* to side; cut into chunks of e.chunk bytes
         /\ up[e.side] = "up" /\ chan[Other(e.side)] # <<>>
         /\ LET o == Other(e.side)
            IN  Become(ReceiveAll([St EXCEPT !.c = [chan EXCEPT ![o] = <<>>]],
                                  e.side, chan[o]), e)
    [] e.op = "answer" ->     \* request r, served and not yet answered
         /\ reqs[e.r].st = "served"
         /\ Become(Reply(St, Other(reqs[e.r].from), e.r, e.how), e)
    [] e.op = "lose" ->
         /\ up[e.side] # "lost"
         /\ Become(FailFrom([St EXCEPT !.u = [up EXCEPT ![e.side] = "lost"]],
                            e.side, 1, Len(reqs)), e)
    [] e.op = "repeat" ->     \* the other side repeats an answer already given
         /\ up[e.side] = "up" /\ chan[Other(e.side)] = <<>>
         /\ reqs[e.r].st = "done" /\ reqs[e.r].from = e.side /\ reqs[e.r].want = "ask"
         /\ Become([Closing(St, e.side) EXCEPT !.ev = << <<"refused">> >>], e)

Init == /\ reqs = <<>> /\ chan = [s \in Both |-> <<>>]
        /\ up = [s \in Both |-> "up"] /\ ver = [s \in Both |-> 0]
        /\ last = [op |-> "init", out |-> <<>>]
InitWith(r) == Init

Ok(cmd, want, style) ==
  /\ want = "tell" => style = "plain" /\ cmd \notin Negotiations \cup {"novers"}
  /\ style = "old" => cmd \in {"hold", "echo", "boom", "nope"}
  /\ style \in Namespaces \cup {"ns"} => cmd \in {"hold", "echo", "hidden", "both", "never"}
  /\ cmd \in Negotiations \cup {"novers"} => style \in {"plain", "lax"}

Call == /\ Len(reqs) < MaxReqs
        /\ \E s \in Sides, c \in Cmds, w \in Wants, y \in Styles :
             Ok(c, w, y) /\ Step([op |-> "call", side |-> s, cmd |-> c, want |-> w, style |-> y])
Deliver == \E s \in Both, k \in Chunks : Step([op |-> "deliver", side |-> s, chunk |-> k])
Answer == \E r \in DOMAIN reqs, h \in Hows :
            /\ (reqs[r].style = "old") => h \in {"ok", "undeclared"}
            /\ Step([op |-> "answer", r |-> r, how |-> h])
Lose == \E s \in Both : Step([op |-> "lose", side |-> s])
Repeat == \E r \in DOMAIN reqs : Step([op |-> "repeat", r |-> r, side |-> reqs[r].from])
Next == Call \/ Deliver \/ Answer \/ Lose \/ Repeat

-----------------------------------------------------------------------------
(* Every outcome is given once: a request with an outcome stays done, and an
   outcome is only given to a request without one. *)
Outcomes(o) == SelectSeq(o, LAMBDA e : e[1] \in {"result", "failed"})
OneOutcome == [][LET o == Outcomes(last'.out)
                 IN  \A i \in DOMAIN o :
                       /\ o[i][2] \in DOMAIN reqs => reqs[o[i][2]].st # "done"
                       /\ reqs'[o[i][2]].st = "done"
                       /\ \A j \in DOMAIN o : i # j => o[i][2] # o[j][2]]_vars
DoneStays == [][\A i \in DOMAIN reqs : reqs[i].st = "done" => reqs'[i].st = "done"]_vars
(* Nothing stays outstanding once the connection is lost. *)
LostMeansDone == \A s \in Both : up[s] = "lost" =>
                   \A i \in DOMAIN reqs :
                     (reqs[i].from = s /\ reqs[i].want = "ask") => reqs[i].st = "done"
=============================================================================
