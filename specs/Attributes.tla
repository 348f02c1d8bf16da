------------------------------ MODULE Attributes ------------------------------
(* epsilon.remember and epsilon.descriptor: attributes computed on access.

   A remembered attribute is created at most once per instance, whatever its
   value; a failed creation is not remembered.  An attribute with its own get,
   set and delete does what those do, and refuses what it does not define.  A
   required attribute has no value until it is given one.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxObjects, Hows, Attrs

VARIABLES objects,    \* sequence of [m: remembered values, cell: per kind, req]
          made,       \* how many creations were attempted so far
          last

vars == <<objects, made, last>>
View == <<objects, made>>

Nothing == "-"
(* Remembered attributes: two of a class; two whose creations have no name of
   their own; one of a base class and the one a subclass overrides it with.   *)
Every == {"p", "q", "l", "m", "u", "v"}
Partner(a) == CASE a = "p" -> "q" [] a = "q" -> "p" [] a = "l" -> "m" [] a = "m" -> "l"
                [] a = "u" -> "v" [] a = "v" -> "u"
(* One-shot attributes, by what they define of get, set and delete. *)
Kinds == {"g", "s", "d", "gs", "gd", "sd", "gsd", "n"}
Defines(k, w) == CASE w = "get" -> k \in {"g", "gs", "gd", "gsd"}
                   [] w = "set" -> k \in {"s", "gs", "sd", "gsd"}
                   [] OTHER -> k \in {"d", "gd", "sd", "gsd"}
Fresh == [m |-> [a \in Every |-> Nothing], cell |-> 0, req |-> Nothing]

Did(e, o) == last' = e @@ [out |-> o]
Refused == <<"AttributeError">>

(* What the creation yields: a new value, None, a false value, an error, or a
   value made from the other remembered attribute of the object.              *)
Value(how, n) == IF how = "none" THEN "None" ELSE IF how = "zero" THEN "0" ELSE "v" \o ToString(n)

Step(e) ==
  CASE e.op = "new" -> /\ objects' = Append(objects, Fresh) /\ UNCHANGED made /\ Did(e, <<>>)
    [] e.op = "remembered" ->     \* i, a, how
         LET o == objects[e.i]
             n == made + 1
             other == Partner(e.a)
         IN  IF o.m[e.a] # Nothing
             THEN UNCHANGED <<objects, made>> /\ Did(e, <<o.m[e.a]>>)
             ELSE IF e.how = "fail"
             THEN UNCHANGED objects /\ made' = n /\ Did(e, <<"failed", <<"made", e.i, e.a>>>>)
             ELSE IF e.how = "nested"
             THEN LET inner == IF o.m[other] # Nothing THEN o.m[other] ELSE Value("new", n + 1)
                      k == IF o.m[other] # Nothing THEN n ELSE n + 1
                  IN  /\ objects' = [objects EXCEPT ![e.i].m = [@ EXCEPT ![e.a] = inner, ![other] = inner]]
                      /\ made' = k
                      /\ Did(e, <<inner, <<"made", e.i, e.a>>>>
                                \o (IF k = n THEN <<>> ELSE << <<"made", e.i, other>> >>))
             ELSE /\ objects' = [objects EXCEPT ![e.i].m = [@ EXCEPT ![e.a] = Value(e.how, n)]]
                  /\ made' = n
                  /\ Did(e, <<Value(e.how, n), <<"made", e.i, e.a>>>>)
    [] e.op = "get" ->            \* i, kind
         UNCHANGED <<objects, made>> /\
         Did(e, IF Defines(e.kind, "get") THEN <<objects[e.i].cell>> ELSE Refused)
    [] e.op = "set" ->            \* i, kind, v
         IF Defines(e.kind, "set")
         THEN objects' = [objects EXCEPT ![e.i].cell = e.v] /\ UNCHANGED made /\ Did(e, <<>>)
         ELSE UNCHANGED <<objects, made>> /\ Did(e, Refused)
    [] e.op = "delete" ->         \* i, kind
         IF Defines(e.kind, "delete")
         THEN objects' = [objects EXCEPT ![e.i].cell = 0] /\ UNCHANGED made /\ Did(e, <<>>)
         ELSE UNCHANGED <<objects, made>> /\ Did(e, Refused)
    [] e.op = "require" ->        \* i: read the required attribute
         UNCHANGED <<objects, made>> /\
         Did(e, IF objects[e.i].req = Nothing THEN Refused ELSE <<objects[e.i].req>>)
    [] e.op = "supply" ->         \* i, v
         objects' = [objects EXCEPT ![e.i].req = e.v] /\ UNCHANGED made /\ Did(e, <<>>)
    [] e.op = "drop" ->           \* i: a required attribute cannot be removed
         UNCHANGED <<objects, made>> /\ Did(e, Refused)
    [] e.op = "derived" ->        \* a subclass supplies the required attribute itself
         UNCHANGED <<objects, made>> /\ Did(e, <<"its own">>)

Init == objects = <<>> /\ made = 0 /\ last = [op |-> "init", out |-> <<>>]
InitWith(r) == Init
Next ==
  \/ Len(objects) < MaxObjects /\ Step([op |-> "new"])
  \/ \E i \in DOMAIN objects :
       \/ \E a \in Attrs : \E h \in Hows : made < 3 /\ Step([op |-> "remembered", i |-> i, a |-> a, how |-> h])
       \/ \E k \in Kinds : Step([op |-> "get", i |-> i, kind |-> k])
       \/ \E k \in Kinds : \E v \in {1, 2} : Step([op |-> "set", i |-> i, kind |-> k, v |-> v])
       \/ \E k \in Kinds : Step([op |-> "delete", i |-> i, kind |-> k])
       \/ Step([op |-> "require", i |-> i])
       \/ Step([op |-> "drop", i |-> i])
       \/ \E v \in {"None", "x"} : Step([op |-> "supply", i |-> i, v |-> v])
  \/ Step([op |-> "derived"])

(* What is remembered is never made again, nor changed. *)
Once == [][\A i \in DOMAIN objects : \A a \in Every :
             objects[i].m[a] # Nothing => objects'[i].m[a] = objects[i].m[a]]_vars
=============================================================================
