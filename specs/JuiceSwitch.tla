---------------------------- MODULE JuiceSwitch ----------------------------
(* Leaving Juice for another protocol on the same connection.

   The client ("C") asks the server ("S") to switch.  When the server agrees,
   every byte it sends after its answer is the new protocol's, and every byte
   the client sends from then on goes to the server's new protocol; the first
   such byte may arrive in the same chunk as the last Juice byte.  Each new
   protocol is connected once, told once that the connection is lost, and no
   Juice traffic is sent by the client once it has asked.

   `style` of a switch: "sync" (agreed to at once), "body" (the same, with a
   request that has a body), "defer" (agreed to or refused later),
   "refuse" (refused at once with a declared error), "boom" (fails with an
   undeclared one), "ns" (asked for in a namespace the server does not have).                                                          *)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Styles, MaxCalls, Raws, MaxRaws, Chunks, Greets, Wants

VARIABLES cl,     \* client: "juice", "locked", "switched" or "failed"
          sv,     \* server: "juice", "asked", "switched"
          style,  \* of the switch
          calls,  \* ordinary requests made: [from, st, h: whether the answer is waited for]
          chan,   \* on the wire, by sender: <<"box", kind, r>> or <<"raw", bytes>>
          up,     \* "up", "closing", "lost", per side
          raws,   \* how many raw writes were made
          greet,  \* what new protocols do as soon as they are connected: nothing ("no"),
                  \* write ("yes"), close the connection ("close") or drop it: it is
                  \* lost at once ("drop")
          last
vars == <<cl, sv, style, calls, chan, up, raws, greet, last>>
View == <<cl, sv, style, calls, chan, up, raws, greet>>

Both == {"C", "S"}
Other(s) == IF s = "C" THEN "S" ELSE "C"

Greeting(s) == IF s = "C" THEN <<67, 13, 10>> ELSE <<83, 58, 32, 13, 10, 13, 10>>

Ev(st, e) == [st EXCEPT !.ev = Append(st.ev, e)]
Write(st, s, m) == IF st.u[s] # "up" THEN st
                   ELSE [st EXCEPT !.c = [st.c EXCEPT ![s] = Append(st.c[s], m)]]
Closing(st, s) == IF st.u[s] # "up" THEN st
                  ELSE Ev([st EXCEPT !.u = [st.u EXCEPT ![s] = "closing"]], <<"closing", s>>)

RECURSIVE FailCalls(_, _, _)
FailCalls(st, s, i) ==
  IF i > Len(st.k) THEN st
  ELSE FailCalls(IF st.k[i].from = s /\ st.k[i].st = "out"
                 THEN Ev([st EXCEPT !.k = [st.k EXCEPT ![i].st = "done"]], <<"failed", i>>)
                 ELSE st, s, i + 1)
Lost(st, s) == FailCalls([st EXCEPT !.u = [st.u EXCEPT ![s] = "lost"]], s, 1)
InnerLost(st, s) == IF s = "C" THEN Ev(Ev(st, <<"innerlost", "C">>), <<"factorylost">>)
                    ELSE Ev(st, <<"innerlost", "S">>)

Connected(st, s) ==
  LET s1 == Ev(st, <<"made", s>>)
  IN  CASE greet = "yes"  -> Write(s1, s, <<"raw", Greeting(s)>>)
        [] greet = "close" -> Closing(s1, s)
        [] greet = "drop" -> IF st.u[s] = "lost" THEN s1 ELSE InnerLost(Lost(s1, s), s)
        [] OTHER -> s1

Data(st, s, b) ==
  LET n == Len(st.ev)
  IN  IF n > 0 /\ st.ev[n][1] = "data" /\ st.ev[n][2] = s
      THEN [st EXCEPT !.ev = [st.ev EXCEPT ![n] = <<"data", s, st.ev[n][3] \o b>>]]
      ELSE Ev(st, <<"data", s, b>>)

Agree(st) == Connected([Write(st, "S", <<"box", "agreed", 0>>) EXCEPT !.sv = "switched"], "S")
Refuse(st, kind) ==
  LET s1 == [Write(st, "S", <<"box", kind, 0>>) EXCEPT !.sv = "juice"]
  IN  IF kind = "failed" THEN Closing(s1, "S") ELSE s1

SwitchFailed(st) ==   \* the client learns that there is no switch
  Closing(Ev(Ev([st EXCEPT !.cl = "failed"], <<"factoryfailed">>), <<"switchfailed">>), "C")

(* Side s reads message m. *)
Read(st, s, m) ==
  IF m[1] = "raw" THEN Data(st, s, m[2])
  ELSE CASE m[2] = "call" ->
              IF s = "C" /\ st.cl = "locked" THEN st       \* it could not be answered
              ELSE Write(Ev(st, <<"served", m[3]>>), s, <<"box", "reply", m[3]>>)
         [] m[2] = "tell" -> Ev(st, <<"served", m[3]>>)
         [] m[2] = "hold" ->
              IF s = "C" /\ st.cl = "locked" THEN st
              ELSE Ev([st EXCEPT !.k = [st.k EXCEPT ![m[3]].h = TRUE]], <<"served", m[3]>>)
         [] m[2] = "error" ->
              Ev([st EXCEPT !.k = [st.k EXCEPT ![m[3]].st = "done"]], <<"failed", m[3]>>)
         [] m[2] = "reply" ->
              Ev([st EXCEPT !.k = [st.k EXCEPT ![m[3]].st = "done"]], <<"result", m[3]>>)
         [] m[2] = "switch" ->
              IF style = "ns" THEN Refuse(st, "failed") ELSE
              LET s1 == Ev(st, <<"asked">>)
              IN  (CASE style \in {"sync", "body"} -> Agree(s1)
                    [] style = "defer" -> [s1 EXCEPT !.sv = "asked"]
                    [] style = "refuse" -> Refuse(s1, "refused")
                    [] style = "boom" -> Refuse(s1, "failed"))
         [] m[2] = "agreed" ->
              Ev(Connected([st EXCEPT !.cl = "switched"], "C"), <<"switched">>)
         [] OTHER -> SwitchFailed(st)

RECURSIVE ReadAll(_, _, _)
ReadAll(st, s, ms) == IF ms = <<>> \/ st.u[s] # "up" THEN st
                      ELSE ReadAll(Read(st, s, Head(ms)), s, Tail(ms))

St == [cl |-> cl, sv |-> sv, k |-> calls, c |-> chan, u |-> up, ev |-> <<>>]
Become(st, e) == /\ cl' = st.cl /\ sv' = st.sv /\ calls' = st.k /\ chan' = st.c /\ up' = st.u
                 /\ last' = e @@ [out |-> st.ev]

Refused(e) == /\ last' = e @@ [out |-> << <<"locked">> >>]
              /\ UNCHANGED <<cl, sv, calls, chan, up>>

(* Whether what a side says is still Juice. *)
Talks(s) == IF s = "C" THEN cl = "juice" ELSE sv # "switched"

Step(e) ==
  CASE e.op = "call" ->       \* side; want: "ask", "tell" if no answer is wanted, "hold" if it takes its time
         /\ up[e.side] # "lost" /\ UNCHANGED <<style, raws, greet>>
         /\ IF ~Talks(e.side) THEN Refused(e)
            ELSE Become(Write([St EXCEPT !.k = Append(calls, [from |-> e.side, h |-> FALSE,
                                                              st |-> IF e.want = "tell" THEN "told" ELSE "out"])],
                              e.side, <<"box", IF e.want = "ask" THEN "call" ELSE e.want, Len(calls) + 1>>), e)
    [] e.op = "answer" ->     \* r, how: a request which was held is answered; if that is still possible
         /\ calls[e.r].h /\ UNCHANGED <<style, raws, greet>>
         /\ LET s == Other(calls[e.r].from)
                s1 == [St EXCEPT !.k = [calls EXCEPT ![e.r].h = FALSE]]
            IN  Become(IF up[s] = "lost" \/ ~Talks(s) THEN s1
                       ELSE IF e.how = "ok" THEN Write(s1, s, <<"box", "reply", e.r>>)
                       ELSE Closing(Write(s1, s, <<"box", "error", e.r>>), s), e)
    [] e.op = "switch" ->
         /\ up["C"] = "up" /\ UNCHANGED <<raws, greet>>
         /\ cl = "juice"
         /\ style' = e.style
         /\ Become([Write(St, "C", <<"box", "switch", 0>>) EXCEPT !.cl = "locked"], e)
    [] e.op = "decide" ->
         /\ sv = "asked" /\ UNCHANGED <<style, raws, greet>>
         /\ up["S"] # "closing"
         /\ Become(IF up["S"] = "lost" THEN [St EXCEPT !.sv = "juice"]    \* too late
                   ELSE IF e.how = "agree" 
                   THEN Agree(St) ELSE Refuse(St, e.how), e)
    [] e.op = "raw" ->        \* the new protocol writes; "early" is a peer that does not wait
         /\ \/ e.side = "C" /\ cl = "switched"
            \/ e.side = "S" /\ sv = "switched"
            \/ e.side = "C" /\ cl = "locked" /\ style \in {"sync", "body"}
         /\ up[e.side] = "up"
         /\ raws' = raws + 1 /\ UNCHANGED <<style, greet>>
         /\ Become(Write(St, e.side, <<"raw", e.bytes>>), e)
    [] e.op = "deliver" ->
         /\ up[e.side] = "up" /\ chan[Other(e.side)] # <<>> /\ UNCHANGED <<style, raws, greet>>
         /\ LET o == Other(e.side)
            IN  Become(ReadAll([St EXCEPT !.c = [chan EXCEPT ![o] = <<>>]], e.side, chan[o]), e)
    [] e.op = "lose" ->
         /\ up[e.side] # "lost" /\ UNCHANGED <<style, raws, greet>>
         /\ LET s1 == Lost(St, e.side)
            IN  Become(IF e.side = "C"
                       THEN (CASE cl = "switched" -> InnerLost(s1, "C")
                              [] cl = "locked" -> SwitchFailed(s1)
                              [] OTHER -> s1)
                       ELSE IF sv = "switched" THEN InnerLost(s1, "S") ELSE s1, e)

InitWith(r) == /\ cl = "juice" /\ sv = "juice" /\ style = "none" /\ calls = <<>>
               /\ chan = [s \in Both |-> <<>>] /\ up = [s \in Both |-> "up"]
               /\ raws = 0 /\ greet = r.greet
               /\ last = [op |-> "init", out |-> <<>>]
Init == \E g \in Greets : InitWith([greet |-> g])

Call == /\ Len(calls) < MaxCalls
        /\ \E s \in Both, w \in Wants : Step([op |-> "call", side |-> s, want |-> w])
Answer == \E r \in DOMAIN calls, h \in {"ok", "boom"} : Step([op |-> "answer", r |-> r, how |-> h])
Switch == \E y \in Styles : Step([op |-> "switch", style |-> y])
Decide == \E h \in {"agree", "refused", "failed"} : Step([op |-> "decide", how |-> h])
Raw == /\ raws < MaxRaws
       /\ \E s \in Both, b \in Raws : Step([op |-> "raw", side |-> s, bytes |-> b])
Deliver == \E s \in Both, k \in Chunks : Step([op |-> "deliver", side |-> s, chunk |-> k])
Lose == \E s \in Both : Step([op |-> "lose", side |-> s])
Next == Call \/ Answer \/ Switch \/ Decide \/ Raw \/ Deliver \/ Lose

(* The new protocols are only ever connected as a pair the server began. *)
ServerFirst == cl = "switched" => sv = "switched"
Once == [][/\ cl = "switched" => cl' = "switched"
           /\ sv = "switched" => sv' = "switched"
           /\ \A i \in DOMAIN last'.out : last'.out[i][1] = "made" =>
                IF last'.out[i][2] = "C" THEN cl # "switched" ELSE sv # "switched"]_vars
=============================================================================
