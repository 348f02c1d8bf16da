------------------------------- MODULE Router -------------------------------
(* epsilon.amprouter: many box receivers multiplexed over one AMP connection.

   A router is bound routes (each a receiver under a local name), started once
   with the connection's sender and stopped once.  Receivers may call back into
   the router while they are being started or stopped ("react").              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxRoutes,   \* how many routes are ever bound
          Literals,    \* local names a user may choose ("none" is None)
          Remotes,     \* remote names ("none" is None)
          Boxes,       \* box contents
          Reacts,      \* what receivers do when started or stopped
          MaxIds       \* identifiers asked for explicitly

VARIABLES up,          \* "new", "up" or "down"
          routes,      \* sequence of routes, in order of binding
          ids,         \* how many identifiers were asked for
          last         \* the last operation and its outcome

vars == <<up, routes, ids, last>>
View == <<up, routes, ids>>

Unspec == "?"                       \* not yet connected to a remote route
Auto(i) == "#" \o ToString(i)       \* name the router chose for route i
Minted(k) == "@" \o ToString(k)     \* k-th identifier asked for

Holder(rs, n) == {i \in DOMAIN rs : rs[i].bound /\ rs[i].name = n}

(* Bind: a later binding of a name replaces the earlier one. *)
Bind(rs, n, react, sib) ==
  LET i  == Len(rs) + 1
      nm == IF n = "auto" THEN Auto(i) ELSE n
      cleared == [j \in DOMAIN rs |->
                    IF rs[j].bound /\ rs[j].name = nm
                    THEN [rs[j] EXCEPT !.bound = FALSE] ELSE rs[j]]
  IN  Append(cleared, [name |-> nm, remote |-> Unspec, bound |-> TRUE,
                       live |-> FALSE, over |-> FALSE, react |-> react, sib |-> sib])

(* Start route i, and whatever its receiver does on being started. *)
RECURSIVE StartOne(_, _)
StartOne(i, st) ==
  LET r  == st.r[i]
      s1 == [r  |-> [st.r EXCEPT ![i].live = TRUE],
             ev |-> Append(st.ev, <<"started", i>>)]
  IN  CASE r.react = "child" ->
             LET b == Bind(s1.r, "auto", "no", 0)
                 k == Len(b)
                 c == [b EXCEPT ![k].remote = "kid"]
             IN  StartOne(k, [r |-> c, ev |-> Append(s1.ev, <<"fresh">>)])
        [] r.react = "join" /\ r.sib \in DOMAIN s1.r
           /\ s1.r[r.sib].bound /\ s1.r[r.sib].remote = Unspec ->
             StartOne(r.sib, [s1 EXCEPT !.r = [s1.r EXCEPT ![r.sib].remote = "joined"]])
        [] r.react = "quit" -> [s1 EXCEPT !.r = [s1.r EXCEPT ![i].bound = FALSE]]
        [] OTHER -> s1

RECURSIVE StartAll(_, _)
StartAll(is, st) ==
  IF is = {} THEN st
  ELSE LET i == CHOOSE x \in is : \A y \in is : x <= y
       IN  StartAll(is \ {i}, StartOne(i, st))

Did(e, o) == last' = e @@ [out |-> o]

Step(e) ==
  CASE e.op = "bind" ->       \* name, react, sib
         /\ up # "down"
         /\ routes' = Bind(routes, e.name, e.react, e.sib)
         /\ UNCHANGED <<up, ids>>
         /\ Did(e, IF e.name = "auto" THEN << <<"fresh">> >> ELSE <<>>)
    [] e.op = "mkid" ->       \* ask for an identifier
         /\ up # "down"
         /\ ids' = ids + 1
         /\ UNCHANGED <<up, routes>>
         /\ Did(e, << <<"fresh">> >>)
    [] e.op = "connect" ->    \* i, remote
         /\ up # "down" /\ routes[e.i].bound /\ routes[e.i].remote = Unspec
         /\ LET rs == [routes EXCEPT ![e.i].remote = e.remote]
                st == IF up = "up" THEN StartOne(e.i, [r |-> rs, ev |-> <<>>])
                                   ELSE [r |-> rs, ev |-> <<>>]
            IN  /\ routes' = st.r
                /\ Did(e, st.ev)
         /\ UNCHANGED <<up, ids>>
    [] e.op = "reconnect" ->  \* i, remote: what is sent goes there from now on
         /\ up # "down" /\ routes[e.i].bound /\ routes[e.i].remote # Unspec
         /\ routes[e.i].react \in {"no", "drop"}
         /\ routes' = [routes EXCEPT ![e.i].remote = e.remote]
         /\ UNCHANGED <<up, ids>> /\ Did(e, <<>>)
    [] e.op = "unbind" ->     \* i
         \* of a route replaced by a later one of the same name: no effect on that
         /\ up # "down" /\ Holder(routes, routes[e.i].name) # {}
         /\ routes' = [routes EXCEPT ![e.i].bound = FALSE]
         /\ UNCHANGED <<up, ids>>
         /\ Did(e, <<>>)
    [] e.op = "start" ->
         /\ up = "new"
         /\ up' = "up"
         /\ LET st == StartAll({i \in DOMAIN routes :
                                  routes[i].bound /\ routes[i].remote # Unspec},
                               [r |-> routes, ev |-> <<>>])
            IN  /\ routes' = st.r
                /\ Did(e, st.ev)
         /\ UNCHANGED ids
    [] e.op = "stop" ->       \* reason
         /\ up = "up"
         /\ up' = "down"
         /\ LET bs == SelectSeq([k \in 1..Len(routes) |-> k], LAMBDA i : routes[i].bound)
            IN  Did(e, [k \in DOMAIN bs |-> <<"stopped", bs[k], e.reason>>])
         /\ routes' = [i \in DOMAIN routes |->
                        IF routes[i].bound THEN [routes[i] EXCEPT !.over = TRUE] ELSE routes[i]]
         /\ UNCHANGED ids
    [] e.op = "recv" ->       \* name, box: a box arrives
         /\ up = "up"
         /\ LET h == Holder(routes, e.name)
            IN  Did(e, IF h = {} THEN << <<"refused">> >>
                       ELSE << <<"got", CHOOSE i \in h : TRUE, e.box>> >>)
         /\ UNCHANGED <<up, routes, ids>>
    [] e.op = "send" ->       \* i, box: a receiver sends
         /\ up = "up" \/ (up = "new" /\ routes[e.i].remote = Unspec)
         /\ Did(e, IF routes[e.i].remote = Unspec THEN << <<"notconnected">> >>
                   ELSE << <<"sent", routes[e.i].remote, e.box>> >>)
         /\ UNCHANGED <<up, routes, ids>>
    [] e.op = "fail" ->       \* i: a receiver reports an unhandled error
         /\ up = "up"
         /\ Did(e, << <<"error", e.i>> >>)
         /\ UNCHANGED <<up, routes, ids>>

Init == /\ up = "new" /\ routes = <<>> /\ ids = 0
        /\ last = [op |-> "init", out |-> <<>>]
InitWith(r) == Init

NoAuto == ids = 0 /\ \A i \in DOMAIN routes : routes[i].name # Auto(i)

(* A numeric literal may coincide with an identifier the router will choose
   later: it must then choose another one.  (It cannot know of a literal a user
   picks after the identifier was handed out.) *)
Names == {"auto"} \cup {n \in Literals : n \in {"none", "a", "b"} \/ NoAuto}
         \cup {Minted(k) : k \in 1..ids}

(* A numeric name given up by its route may be chosen again by the router. *)
Known(rs, j) == rs[j].bound \/ rs[j].name \in {"none", "a", "b", Auto(j)}

BindAny ==
  /\ Len(routes) < MaxRoutes
  /\ \E n \in Names, rx \in Reacts :
       IF rx = "join"
       THEN \E s \in 1..MaxRoutes : Step([op |-> "bind", name |-> n, react |-> rx, sib |-> s])
       ELSE Step([op |-> "bind", name |-> n, react |-> rx, sib |-> 0])
MkId == ids < MaxIds /\ Step([op |-> "mkid"])
Connect == \E i \in DOMAIN routes, r \in Remotes, o \in {"connect", "reconnect"} :
             Step([op |-> o, i |-> i, remote |-> r])
Unbind == \E i \in DOMAIN routes : Step([op |-> "unbind", i |-> i])
Start == Step([op |-> "start"])
Stop == Step([op |-> "stop", reason |-> "why"])
Recv == \E n \in {"none", "zzz"} \cup {Minted(k) : k \in 1..ids}
                 \cup {routes[i].name : i \in {j \in DOMAIN routes : Known(routes, j)}},
           b \in Boxes : Step([op |-> "recv", name |-> n, box |-> b])
Send == \E i \in DOMAIN routes, b \in Boxes : Step([op |-> "send", i |-> i, box |-> b])
Fail == \E i \in DOMAIN routes : Step([op |-> "fail", i |-> i])

Lifecycle == BindAny \/ MkId \/ Connect \/ Unbind \/ Start \/ Stop
Next == BindAny \/ MkId \/ Connect \/ Unbind \/ Start \/ Stop \/ Recv \/ Send \/ Fail

-----------------------------------------------------------------------------
(* What the operations guarantee together. *)
OneHolder == \A n \in {routes[i].name : i \in DOMAIN routes} :
               Cardinality(Holder(routes, n)) <= 1
LiveMeansConnected == \A i \in DOMAIN routes :
               routes[i].live => routes[i].remote # Unspec /\ up # "new"
UpMeansLive == up = "up" => \A i \in DOMAIN routes :
               (routes[i].bound /\ routes[i].remote # Unspec) => routes[i].live
FreshAutos == \A i, j \in DOMAIN routes :
               (i # j /\ routes[i].name = Auto(i)) => routes[j].name # Auto(i)
StartedOnce == [][\A k, l \in DOMAIN last'.out :
                   (last'.out[k][1] = "started") =>
                     /\ (k # l => last'.out[k] # last'.out[l])
                     /\ (last'.out[k][2] \in DOMAIN routes => ~routes[last'.out[k][2]].live)]_vars
StoppedIsFinal == [][up = "down" => up' = "down" /\ routes' = routes]_vars
=============================================================================
