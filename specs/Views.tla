-------------------------------- MODULE Views --------------------------------
(* epsilon.view: a SlicedView is to its sequence what sequence[bounds] is, at
   every moment, however the sequence changes and however views are stacked.  *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Starts, Steps, Sizes, MaxViews, MaxLen

VARIABLES base,     \* the underlying sequence
          stack,    \* bounds of the views, each on the one before
          last

vars == <<base, stack, last>>
View == <<base, stack>>

None == 999
Clip(v, lo, hi, n) == IF v < 0 THEN (IF v + n < lo THEN lo ELSE v + n)
                      ELSE (IF v > hi THEN hi ELSE v)
(* What Python's s[b] is. *)
Slice(s, b) ==
  LET n    == Len(s)
      step == IF b[3] = None THEN 1 ELSE b[3]
      lo   == IF step > 0 THEN 0 ELSE -1
      hi   == IF step > 0 THEN n ELSE n - 1
      from == IF b[1] = None THEN (IF step > 0 THEN lo ELSE hi) ELSE Clip(b[1], lo, hi, n)
      to   == IF b[2] = None THEN (IF step > 0 THEN hi ELSE lo) ELSE Clip(b[2], lo, hi, n)
      len  == IF step > 0 THEN (IF from < to THEN ((to - from - 1) \div step) + 1 ELSE 0)
              ELSE (IF to < from THEN ((from - to - 1) \div (0 - step)) + 1 ELSE 0)
  IN  [i \in 1..len |-> s[from + ((i - 1) * step) + 1]]

RECURSIVE Seen(_, _)
Seen(s, k) == IF k = 0 THEN s ELSE Slice(Seen(s, k - 1), stack[k])

Did(e, o) == last' = e @@ [out |-> o]
Item(s, i) == IF i >= 0 /\ i < Len(s) THEN <<s[i + 1]>>
              ELSE IF i < 0 /\ i + Len(s) >= 0 THEN <<s[i + Len(s) + 1]>> ELSE <<"IndexError">>

Step(e) ==
  CASE e.op = "view" ->      \* from, to, by
         /\ stack' = Append(stack, <<e.from, e.to, e.by>>) /\ UNCHANGED base /\ Did(e, <<>>)
    [] e.op = "get" ->       \* k: which view, i
         /\ UNCHANGED <<base, stack>> /\ Did(e, Item(Seen(base, e.k), e.i))
    [] e.op = "all" ->       \* k: length and contents
         /\ UNCHANGED <<base, stack>>
         /\ LET s == Seen(base, e.k) IN Did(e, <<Len(s), s>>)
    [] e.op = "append" -> base' = Append(base, e.v) /\ UNCHANGED stack /\ Did(e, <<>>)
    [] e.op = "pop" -> /\ base # <<>>
                       /\ base' = SubSeq(base, 2, Len(base)) /\ UNCHANGED stack /\ Did(e, <<>>)

InitWith(r) == base = [i \in 1..r.size |-> i * 10] /\ stack = <<>> /\ last = [op |-> "init", out |-> <<>>]
Init == \E n \in Sizes : InitWith([size |-> n])
Next ==
  \/ \E f \in Starts : \E t \in Starts : \E b \in Steps :
       Len(stack) < MaxViews /\ Step([op |-> "view", from |-> f, to |-> t, by |-> b])
  \/ \E k \in DOMAIN stack : k = Len(stack) /\ Step([op |-> "all", k |-> k])
  \/ \E k \in DOMAIN stack : k = Len(stack) /\ \E i \in -4..3 : Step([op |-> "get", k |-> k, i |-> i])
  \/ Len(base) < MaxLen /\ stack # <<>> /\ Step([op |-> "append", v |-> 7])
  \/ base # <<>> /\ stack # <<>> /\ MaxLen > 0 /\ Step([op |-> "pop"])

(* A view never shows what its sequence does not have. *)
Within == \A k \in DOMAIN stack : \A i \in DOMAIN Seen(base, k) :
            \E j \in DOMAIN Seen(base, k - 1) : Seen(base, k)[i] = Seen(base, k - 1)[j]
=============================================================================
