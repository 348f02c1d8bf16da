------------------------------- MODULE Record -------------------------------
(* epsilon.structlike: classes with a fixed set of attributes.

   A record class is defined from names and defaults; instances take values
   by position or by name, as a Python function with that signature would.
   A second part builds graphs of instances (and lists) and asks for their
   repr, which must be finite on every graph.                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Names, Kinds, MaxNodes

VARIABLES class,   \* <<names, those with defaults>>, or <<>> if none is defined
          nodes,   \* instances: [kind, a, b], a value being a node, 0 or "gone"
          last

vars == <<class, nodes, last>>
View == <<class, nodes>>

Stray == "z"                  \* never the name of an attribute
Order == <<"a", "b", "c", "d", "e">>
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Sorted(_, _)
Sorted(S, k) == IF k > Len(Order) THEN <<>>
                ELSE (IF Order[k] \in S THEN <<Order[k]>> ELSE <<>>) \o Sorted(S, k + 1)

Did(e, o) == last' = e @@ [out |-> o]
Error == <<"TypeError">>
Set(s) == IF s = <<>> THEN {} ELSE Range(s)

(* Defaults only from some attribute to the last. *)
Suffix(ns, D) == \A i, j \in DOMAIN ns : i < j /\ ns[i] \in D => ns[j] \in D

Define(e) ==        \* style, names (a sequence), defaults (a sequence, as a set)
  LET D  == Set(e.defaults)
      ns == IF e.style = "names" THEN e.names ELSE Sorted(D, 1)
  IN  IF \/ e.style = "two"
         \/ e.style = "defaults" /\ D = {}
         \/ ~(D \subseteq Range(ns)) \/ ~Suffix(ns, D)
      THEN <<>> ELSE <<ns, Sorted(D, 1)>>

Make(e) ==          \* positional (how many), keywords (a sequence, as a set)
  LET ns == class[1]
      D  == Set(class[2])
      K  == Set(e.keywords)
      first == {ns[i] : i \in 1..(IF e.positional < Len(ns) THEN e.positional ELSE Len(ns))}
  IN  IF \/ e.positional > Len(ns)
         \/ first \cap K # {}
         \/ ~(K \subseteq Range(ns))
         \/ ~(Range(ns) \subseteq (first \cup K \cup D))
      THEN Error
      ELSE [i \in DOMAIN ns |-> IF i <= e.positional THEN "p" \o ToString(i)
                                ELSE IF ns[i] \in K THEN "k" \o ns[i] ELSE "d" \o ns[i]]

(* The text of a node, or <<>> if asking for it is an error.  A node of kind
   "bad" has none; one of kind "try" shows its right side after its left, or
   after "!" if the left has none: a failure leaves nothing behind.           *)
Join(x, a, m, b, z) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE <<x \o a[1] \o m \o b[1] \o z>>
RECURSIVE Text(_, _)
Text(i, active) ==
  LET n == nodes[i]
      in == active \cup {i}
      val(v) == IF v = 0 THEN <<"0">> ELSE IF v > MaxNodes THEN <<"None">> ELSE Text(v, in)
  IN  CASE n.kind = "bad" -> <<>>
        [] n.kind = "try" ->
             LET l == val(n.a) IN Join("", IF l = <<>> THEN <<"!">> ELSE l, "|", val(n.b), "")
        [] i \in active -> <<(IF n.kind = "list" THEN "[...]" ELSE n.kind \o "(...)")>>
        [] n.kind = "list" -> Join("[", val(n.a), ", ", val(n.b), "]")
        [] OTHER -> Join(n.kind \o "(left=", val(n.a), ", right=", val(n.b), ")")
Repr(i) == LET t == Text(i, {}) IN IF t = <<>> THEN "ValueError" ELSE t[1]
(* Nothing but records and lists ends a cycle. *)
Sound(n, v) == IF n.kind \notin {"try", "bad"} \/ v = 0 THEN TRUE
               ELSE n.kind = "try" /\ nodes[v].kind # "try"

Step(e) ==
  CASE e.op = "define" ->
         /\ class = <<>>
         /\ class' = Define(e) /\ UNCHANGED nodes
         /\ Did(e, IF Define(e) = <<>> THEN Error ELSE Define(e)[1])
    [] e.op = "make" -> class # <<>> /\ UNCHANGED <<class, nodes>> /\ Did(e, Make(e))
    [] e.op = "node" ->      \* kind, a, b
         /\ Len(nodes) < MaxNodes
         /\ Sound(e, e.a) /\ Sound(e, e.b)
         /\ nodes' = Append(nodes, [kind |-> e.kind, a |-> e.a, b |-> e.b])
         /\ UNCHANGED class /\ Did(e, <<>>)
    [] e.op = "link" ->      \* i, side, v
         /\ Sound(nodes[e.i], e.v)
         /\ nodes' = [nodes EXCEPT ![e.i] = IF e.side = "a" THEN [@ EXCEPT !.a = e.v]
                                            ELSE [@ EXCEPT !.b = e.v]]
         /\ UNCHANGED class /\ Did(e, <<>>)
    [] e.op = "forget" ->    \* i: the left attribute is deleted
         /\ nodes[e.i].kind \notin {"list", "try", "bad"}
         /\ nodes' = [nodes EXCEPT ![e.i].a = MaxNodes + 1]
         /\ UNCHANGED class /\ Did(e, <<>>)
    [] e.op = "repr" -> UNCHANGED <<class, nodes>> /\ Did(e, Repr(e.i))
    [] e.op = "reprs" ->     \* i: in one thread while in the middle of it in another
         /\ nodes[e.i].kind \in {"R", "S"} /\ UNCHANGED <<class, nodes>>
         /\ Did(e, <<Repr(e.i), Repr(e.i)>>)

Init == class = <<>> /\ nodes = <<>> /\ last = [op |-> "init", out |-> <<>>]
InitWith(r) == Init

SubSeqs == {Sorted(S, 1) : S \in SUBSET Names}
Orders == {s \in UNION {[1..n -> Names] : n \in 0..Cardinality(Names)} :
             \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
Strays == {<<>>, <<Stray>>}

Construction ==
  \/ \E ns \in Orders : \E D \in SubSeqs : \E z \in Strays :
       Step([op |-> "define", style |-> "names", names |-> ns, defaults |-> D \o z])
  \/ \E D \in SubSeqs : Step([op |-> "define", style |-> "defaults", names |-> <<>>, defaults |-> D])
  \/ Step([op |-> "define", style |-> "two", names |-> <<>>, defaults |-> <<>>])
  \/ \E p \in 0..(Cardinality(Names) + 1) : \E K \in SubSeqs : \E z \in Strays :
       Step([op |-> "make", positional |-> p, keywords |-> K \o z])
Graphs ==
  \/ \E k \in Kinds : Step([op |-> "node", kind |-> k, a |-> 0, b |-> 0])
  \/ \E i \in DOMAIN nodes : \E s \in {"a", "b"} : \E v \in {0} \cup DOMAIN nodes :
       Step([op |-> "link", i |-> i, side |-> s, v |-> v])
  \/ \E i \in DOMAIN nodes : Step([op |-> "forget", i |-> i])
  \/ \E i \in DOMAIN nodes : Step([op |-> "repr", i |-> i])
  \/ \E i \in DOMAIN nodes : Step([op |-> "reprs", i |-> i])
Next == Construction \/ Graphs
=============================================================================
