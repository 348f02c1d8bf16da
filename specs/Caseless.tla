------------------------------ MODULE Caseless ------------------------------
(* epsilon.caseless: strings compared, hashed and searched without regard to
   case, but keeping theirs.  Strings are sequences of character codes.

   A dictionary keyed by Caseless strings is kept to show that equality and
   hashing agree.                                                             *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Strings, MaxLen, Bounds

VARIABLES dict,    \* sequence of <<key in lower case, key as first given, value>>
          last

vars == <<dict, last>>
View == <<dict>>

Low(c) == IF c \in 65..90 \/ c = 201 THEN c + 32 ELSE c
Up(c)  == IF c \in 97..122 \/ c = 233 THEN c - 32 ELSE c
(* One letter, the dotted capital I, becomes two in lower case. *)
RECURSIVE Spell(_)
Spell(s) == IF s = <<>> THEN <<>>
            ELSE (IF s[1] = 304 THEN <<105, 775>> ELSE <<Low(s[1])>>) \o Spell(Tail(s))
Lower(s) == IF \E i \in DOMAIN s : s[i] = 304 THEN Spell(s) ELSE [i \in DOMAIN s |-> Low(s[i])]
Upper(s) == [i \in DOMAIN s |-> Up(s[i])]
Swap(s)  == [i \in DOMAIN s |-> IF Low(s[i]) # s[i] THEN Low(s[i]) ELSE Up(s[i])]

RECURSIVE Less(_, _)
Less(s, t) == CASE t = <<>> -> FALSE
                [] s = <<>> -> TRUE
                [] s[1] # t[1] -> s[1] < t[1]
                [] OTHER -> Less(Tail(s), Tail(t))

None == 999
(* Python's reading of the optional start and end of a search. *)
From(b, n) == IF b = None THEN 0 ELSE IF b < 0 THEN (IF b + n < 0 THEN 0 ELSE b + n) ELSE b
To(b, n)   == IF b = None \/ b > n THEN n ELSE IF b < 0 THEN (IF b + n < 0 THEN 0 ELSE b + n) ELSE b
At(s, t, i) == i + Len(t) <= Len(s) /\ \A j \in DOMAIN t : s[i + j] = t[j]
Places(s, t, f, l) == {i \in f..(l - Len(t)) : At(s, t, i)}
Places0(s, t, a, b) == LET f == From(a, Len(s)) l == To(b, Len(s))
                       IN  IF f > l THEN {} ELSE Places(s, t, f, l)
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
Most(S)  == CHOOSE i \in S : \A j \in S : i >= j
RECURSIVE Count(_, _, _, _)
Count(s, t, f, l) == LET P == Places(s, t, f, l)
                     IN  IF P = {} THEN 0 ELSE 1 + Count(s, t, Least(P) + Len(t), l)
Count0(s, t, a, b) == LET f == From(a, Len(s)) l == To(b, Len(s))
                      IN  IF f > l THEN 0 ELSE IF t = <<>> THEN (l - f) + 1 ELSE Count(s, t, f, l)
Begins(s, t, a, b) == LET f == From(a, Len(s)) l == To(b, Len(s))
                      IN  f <= l /\ f + Len(t) <= l /\ At(s, t, f)
Ends(s, t, a, b)   == LET f == From(a, Len(s)) l == To(b, Len(s))
                      IN  f <= l /\ l - Len(t) >= f /\ At(s, t, l - Len(t))

Search(s0, t0, a, b) ==
  LET s == Lower(s0)
      t == Lower(t0)
      P == Places0(s, t, a, b)
  IN  << IF P = {} THEN -1 ELSE Least(P), IF P = {} THEN -1 ELSE Most(P), Count0(s, t, a, b),
         Begins(s, t, a, b), Ends(s, t, a, b), Places0(s, t, None, None) # {} >>

Find(k) == {i \in DOMAIN dict : dict[i][1] = Lower(k)}
Did(e, o) == last' = e @@ [out |-> o]
Ask(e, o) == UNCHANGED dict /\ Did(e, o)

Step(e) ==
  CASE e.op = "compare" ->     \* s, t: < <= = # >= >, and whether they are one key
         LET s == Lower(e.s) t == Lower(e.t)
         IN  Ask(e, <<Less(s, t), s = t \/ Less(s, t), s = t, s # t, s = t \/ Less(t, s), Less(t, s), s = t>>)
    [] e.op = "search" ->      \* s, t, from, to
         Ask(e, Search(e.s, e.t, e.from, e.to))
    [] e.op = "show" -> Ask(e, <<e.s, Len(e.s), Lower(e.s), Upper(e.s), Swap(e.s)>>)
    [] e.op = "put" ->         \* s, v
         LET F == Find(e.s)
         IN  /\ dict' = IF F = {} THEN Append(dict, <<Lower(e.s), e.s, e.v>>)
                        ELSE [dict EXCEPT ![Least(F)] = <<@[1], @[2], e.v>>]
             /\ Did(e, <<>>)
    [] e.op = "get" -> Ask(e, IF Find(e.s) = {} THEN <<>> ELSE <<dict[Least(Find(e.s))][3]>>)
    [] e.op = "keys" -> Ask(e, [i \in DOMAIN dict |-> dict[i][2]])

Init == dict = <<>> /\ last = [op |-> "init", out |-> <<>>]
InitWith(r) == Init
Next ==
  \/ \E s \in Strings : \E t \in Strings : dict = <<>> /\ Step([op |-> "compare", s |-> s, t |-> t])
  \/ \E s \in Strings : \E t \in Strings : \E a \in Bounds : \E b \in Bounds :
       dict = <<>> /\ Step([op |-> "search", s |-> s, t |-> t, from |-> a, to |-> b])
  \/ \E s \in Strings : dict = <<>> /\ Step([op |-> "show", s |-> s])
  \/ \E s \in Strings : \E v \in {1, 2} :
       Len(s) <= MaxLen /\ Step([op |-> "put", s |-> s, v |-> v])
  \/ \E s \in Strings : Len(s) <= MaxLen /\ Step([op |-> "get", s |-> s])
  \/ Step([op |-> "keys"])

(* No two keys differ in case only. *)
OneKey == \A i, j \in DOMAIN dict : dict[i][1] = dict[j][1] => i = j
=============================================================================
