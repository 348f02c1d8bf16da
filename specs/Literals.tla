------------------------------- MODULE Literals -------------------------------
(* epsilon.unrepr: from the text of a value back to the value, and of nothing
   else: no other expression is evaluated.

   Expressions are built on a stack.  An expression is [k, a, kids]: its kind,
   an atom's name, the expressions in it.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Atoms, Wraps, MaxStack, MaxBuilt

VARIABLES stack, built, last

vars == <<stack, built, last>>
View == <<stack, built>>
Did(e, o) == last' = e @@ [out |-> o]

Containers == {"tuple", "list", "dict", "set"}
Values == {"int", "neg", "float", "complex", "str", "bytes", "const"}
(* What is no literal: using a name, calling, computing. *)
Others == {"name", "call", "attr", "item", "sum", "not", "compare", "if", "lambda", "comp", "fstring",
           "star", "method", "assign", "walrus"}

RECURSIVE Literal(_), Hashable(_), Good(_)
Literal(x) == x.k \in Values \/ (x.k \in Containers /\ \A i \in DOMAIN x.kids : Literal(x.kids[i]))
Hashable(x) == x.k \in Values \/ (x.k = "tuple" /\ \A i \in DOMAIN x.kids : Hashable(x.kids[i]))
(* Elements of sets and keys of dictionaries (the odd ones of their parts) are hashable. *)
Good(x) == /\ \A i \in DOMAIN x.kids : Good(x.kids[i])
           /\ x.k = "set" => \A i \in DOMAIN x.kids : Hashable(x.kids[i])
           /\ x.k = "dict" => \A i \in DOMAIN x.kids : i % 2 = 1 => Hashable(x.kids[i])

(* Parts which are equal are not told apart in sets and as keys. *)
Distinct(x, step) == \A i, j \in DOMAIN x.kids : (i # j /\ i % step = 1 % step /\ j % step = 1 % step) => x.kids[i] # x.kids[j]
RECURSIVE Apart(_)
Apart(x) == /\ \A i \in DOMAIN x.kids : Apart(x.kids[i])
            /\ x.k = "set" => x.kids # <<>> /\ Distinct(x, 1)
            /\ x.k = "dict" => Len(x.kids) % 2 = 0 /\ Distinct(x, 2)

Top == stack[Len(stack)]
Step(e) ==
  CASE e.op = "atom" ->        \* k, a
         /\ stack' = Append(stack, [k |-> e.k, a |-> e.a, kids |-> <<>>]) /\ built' = built + 1 /\ Did(e, <<>>)
    [] e.op = "wrap" ->        \* k, n: the last n become parts of another
         /\ e.n <= Len(stack) /\ built' = built + 1
         /\ LET x == [k |-> e.k, a |-> "", kids |-> SubSeq(stack, Len(stack) - e.n + 1, Len(stack))]
            IN  Apart(x) /\ stack' = Append(SubSeq(stack, 1, Len(stack) - e.n), x)
         /\ Did(e, <<>>)
    [] e.op = "unrepr" ->
         /\ stack # <<>> /\ UNCHANGED <<stack, built>>
         /\ Did(e, IF Literal(Top) /\ Good(Top) THEN <<"value", Top>> ELSE <<"refused">>)
    [] e.op = "pop" -> /\ stack # <<>> /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED built /\ Did(e, <<>>)

Init == stack = <<>> /\ built = 0 /\ last = [op |-> "init", out |-> <<>>]
InitWith(r) == Init
Next ==
  \/ built < MaxBuilt /\ Len(stack) < MaxStack /\ \E x \in Atoms : Step([op |-> "atom", k |-> x[1], a |-> x[2]])
  \/ built < MaxBuilt /\ \E w \in Wraps : Step([op |-> "wrap", k |-> w[1], n |-> w[2]])
  \/ Step([op |-> "unrepr"])

(* A value holds nothing but literals, however deep. *)
RECURSIVE Kinds(_)
Kinds(x) == {x.k} \cup UNION {Kinds(x.kids[i]) : i \in DOMAIN x.kids}
Pure == [][IF last'.op # "unrepr" THEN TRUE
           ELSE IF last'.out[1] = "refused" THEN TRUE
           ELSE Kinds(last'.out[2]) \cap Others = {}]_vars
=============================================================================
