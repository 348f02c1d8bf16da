------------------------------- MODULE Expose -------------------------------
(* epsilon.expose: which methods of an object may be reached from outside.

   Classes are defined one after another, with bases among the earlier ones.
   Each defines methods, each of which may be exposed for some keys by one of
   two exposers.  Getting a key from an instance yields the method exposed for
   it by that exposer and class, unless a class before it in the method
   resolution order has redefined it.                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxClasses, Bodies, Keys, Exposers

VARIABLES classes,   \* sequence of [mro, body]; a body is a sequence of methods
                     \* [name, keys], keys a sequence of <<exposer, key>>; the kind of
                     \* thing it is makes no difference
          last

vars == <<classes, last>>
View == <<classes>>

(* The C3 linearisation. *)
InTail(c, seqs) == \E k \in DOMAIN seqs : \E i \in 2..Len(seqs[k]) : seqs[k][i] = c
RECURSIVE Merge(_)
Merge(seqs0) ==
  LET seqs == SelectSeq(seqs0, LAMBDA s : s # <<>>)
      ok == {k \in DOMAIN seqs : ~InTail(seqs[k][1], seqs)}
  IN  IF seqs = <<>> THEN <<>>
      ELSE IF ok = {} THEN <<0>>        \* inconsistent
      ELSE LET k == CHOOSE k \in ok : \A j \in ok : k <= j
               c == seqs[k][1]
           IN  <<c>> \o Merge([j \in DOMAIN seqs |->
                                 IF seqs[j][1] = c THEN Tail(seqs[j]) ELSE seqs[j]])
Mro(c, bases) == <<c>> \o Merge([i \in DOMAIN bases |-> classes[bases[i]].mro] \o <<bases>>)
Consistent(m) == \A i \in DOMAIN m : m[i] # 0

Exposes(m, x, k) == \E i \in DOMAIN m.keys : m.keys[i] = <<x, k>>
Names(c) == {classes[c].body[i].name : i \in DOMAIN classes[c].body}

Denied == <<"MethodNotExposed">>
RECURSIVE Look(_, _, _, _)
Look(mro, x, k, seen) ==
  IF mro = <<>> THEN Denied
  ELSE LET c  == mro[1]
           b  == classes[c].body
           fs == {i \in DOMAIN b : Exposes(b[i], x, k)}
       IN  IF fs = {} THEN Look(Tail(mro), x, k, seen \cup Names(c))
           ELSE LET i == CHOOSE i \in fs : \A j \in fs : i <= j
                IN  IF b[i].name \in seen THEN Denied ELSE <<"method", c, b[i].name>>

Did(e, o) == last' = e @@ [out |-> o]
Step(e) ==
  CASE e.op = "class" ->      \* bases, body
         LET c == Len(classes) + 1
             m == Mro(c, e.bases)
         IN  /\ Consistent(m)
             /\ classes' = Append(classes, [mro |-> m, body |-> e.body])
             /\ Did(e, m)
    [] e.op = "get" ->        \* c, exposer, key
         UNCHANGED classes /\ Did(e, Look(classes[e.c].mro, e.exposer, e.key, {}))
    [] e.op = "nameless" ->   \* exposing something which is not a function needs a key
         UNCHANGED classes /\ Did(e, <<"NameRequired">>)

Init == classes = <<>> /\ last = [op |-> "init", out |-> <<>>]
InitWith(r) == Init

Bases(n) == {<<>>} \cup {<<i>> : i \in 1..n} \cup {<<i, j>> : i \in 1..n, j \in 1..n}
Next ==
  \/ \E bs \in Bases(Len(classes)) : \E b \in Bodies :
       /\ Len(classes) < MaxClasses
       /\ (Len(bs) = 2 => bs[1] # bs[2])
       /\ Step([op |-> "class", bases |-> bs, body |-> b])
  \/ \E c \in DOMAIN classes : \E x \in Exposers : \E k \in Keys :
       Step([op |-> "get", c |-> c, exposer |-> x, key |-> k])
  \/ classes = <<>> /\ Step([op |-> "nameless"])

(* Nothing is reached which was not exposed by that exposer for that key. *)
Only == [][last'.op = "get" /\ last'.out[1] = "method" =>
             \E i \in DOMAIN classes[last'.out[2]].body :
               /\ classes[last'.out[2]].body[i].name = last'.out[3]
               /\ Exposes(classes[last'.out[2]].body[i], last'.exposer, last'.key)]_last
(* ... nor a method which the object's class has redefined. *)
Current == [][last'.op = "get" /\ last'.out[1] = "method" =>
                LET m == classes[last'.c].mro
                    p == CHOOSE p \in DOMAIN m : m[p] = last'.out[2]
                IN  \A q \in 1..(p - 1) : last'.out[3] \notin Names(m[q])]_last
=============================================================================
