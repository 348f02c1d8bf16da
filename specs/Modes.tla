-------------------------------- MODULE Modes --------------------------------
(* epsilon.modal: an object whose methods depend on the mode it is in.

   A class defines modes, each with its own implementation of some methods;
   each instance is in one mode, kept in an attribute the class names.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Classes,    \* sequence of [attribute, initial, modes]; modes is a sequence
                      \* of [name, methods], methods a sequence of names
          MaxObjects

VARIABLES objects,    \* sequence of [class, mode]
          last

vars == <<objects, last>>
View == <<objects>>

Range(s) == {s[i] : i \in DOMAIN s}
ModeNames(c) == {Classes[c].modes[i].name : i \in DOMAIN Classes[c].modes}
Methods(c, m) == UNION {Range(Classes[c].modes[i].methods) :
                          i \in {i \in DOMAIN Classes[c].modes : Classes[c].modes[i].name = m}}
Has(c, m, f) == f \in Methods(c, m)

Did(e, o) == last' = e @@ [out |-> o]
Missing == <<"AttributeError">>
To(i, m) == objects' = [objects EXCEPT ![i].mode = m]

(* The mode which every Modal has is silent; a class may define it anew.  A
   mode which does not say what is to be done when it is entered or left can
   be entered and left all the same, from and to every mode there is.         *)
Silent(c, m)  == m = "nil" /\ Classes[c].initial = "nil"
Left(c, m)    == IF Silent(c, m) \/ ~Has(c, m, "__exit__") THEN <<>> ELSE << <<"exit", m, m>> >>
Entered(c, m) == IF Silent(c, m) \/ ~Has(c, m, "__enter__") THEN <<>> ELSE << <<"enter", m, m>> >>

Step(e) ==
  CASE e.op = "new" ->        \* class
         /\ objects' = Append(objects, [class |-> e.class, mode |-> Classes[e.class].initial])
         /\ Did(e, <<Classes[e.class].initial>>)
    [] e.op = "call" ->       \* i, method
         LET o == objects[e.i]
         IN  /\ Did(e, IF Has(o.class, o.mode, e.method) THEN <<o.mode, e.method>> ELSE Missing)
             /\ UNCHANGED objects
    [] e.op = "plain" ->      \* i: a method outside of any mode
         UNCHANGED objects /\ Did(e, <<"plain", objects[e.i].mode>>)
    [] e.op = "set" ->        \* i, mode: assign the attribute
         To(e.i, e.mode) /\ Did(e, <<>>)
    [] e.op = "go" ->         \* i, mode: transition, leaving one mode and entering the other
         LET o == objects[e.i]
         IN  /\ o.mode \in ModeNames(o.class)
             /\ To(e.i, e.mode)
             /\ Did(e, Left(o.class, o.mode) \o Entered(o.class, e.mode))
    [] e.op = "hop" ->        \* i, mode, method: a method which changes mode, then calls on
         LET o == objects[e.i]
         IN  /\ To(e.i, e.mode)
             /\ Did(e, IF Has(o.class, e.mode, e.method) THEN <<e.mode, e.method>> ELSE Missing)
    [] e.op = "leap" ->       \* the same, by a transition
         LET o == objects[e.i]
         IN  /\ o.mode \in ModeNames(o.class)
             /\ To(e.i, e.mode)
             /\ Did(e, Left(o.class, o.mode) \o Entered(o.class, e.mode) \o
                        <<IF Has(o.class, e.mode, e.method) THEN <<e.mode, e.method>> ELSE Missing>>)
    [] e.op = "define" ->     \* attribute, initial: whether given; base
         /\ UNCHANGED objects
         /\ Did(e, IF e.base # "modal" /\ ~(e.attribute /\ e.initial) THEN <<"TypeError">>
                   ELSE <<IF e.attribute THEN "state" ELSE "mode", IF e.initial THEN "one" ELSE "nil">>)
    [] e.op = "where" -> UNCHANGED objects /\ Did(e, <<objects[e.i].mode>>)
    [] e.op = "unbound" -> UNCHANGED objects /\ Did(e, Missing)     \* class, method

Strays == {"", "elsewhere"}     \* modes no class has: what is not theirs is all there is

Init == objects = <<>> /\ last = [op |-> "init", out |-> <<>>]
InitWith(r) == Init
AllMethods == {"one", "two", "three"}
Next ==
  \/ \E c \in DOMAIN Classes : Len(objects) < MaxObjects /\ Step([op |-> "new", class |-> c])
  \/ \E i \in DOMAIN objects :
       LET o == objects[i] IN
       \/ \E f \in AllMethods : Step([op |-> "call", i |-> i, method |-> f])
       \/ Step([op |-> "plain", i |-> i])
       \/ \E m \in ModeNames(o.class) \cup Strays : Step([op |-> "set", i |-> i, mode |-> m])
       \/ \E m \in ModeNames(o.class) :
            \/ Step([op |-> "go", i |-> i, mode |-> m])
            \/ \E f \in AllMethods : \E k \in {"hop", "leap"} : Step([op |-> k, i |-> i, mode |-> m, method |-> f])
       \/ Step([op |-> "where", i |-> i])
  \/ objects = <<>> /\ \E a, n \in BOOLEAN, b \in {"none", "plain", "modal"} :
        Step([op |-> "define", attribute |-> a, initial |-> n, base |-> b])
  \/ \E c \in DOMAIN Classes : Step([op |-> "unbound", class |-> c, method |-> "one"])

Defined == \A i \in DOMAIN objects : objects[i].mode \in ModeNames(objects[i].class) \cup Strays
=============================================================================
