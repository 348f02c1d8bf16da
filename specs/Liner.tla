------------------------------- MODULE Liner -------------------------------
(* epsilon.liner.LineReceiver: the byte stream cut into lines and raw data.

   The protocol using it ("the user") reacts to what it is given: a line that
   starts with R makes it take as many raw bytes as the line is long and then
   go back to lines; C makes the rest of the line the delimiter from there on; F makes it take raw data for ever; D makes it close the
   connection, Q do both; in raw data X makes it close.  It may also change
   between lines and raw data at any other time; what is left of an incomplete
   line is then raw data.  Once it closed it is given nothing
   more.  What it is given depends on the byte stream alone, never on how the
   stream was cut into chunks; a line is delivered as soon as its
   delimiter is complete and a raw byte as soon as it arrives.               *)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Alphabet, MaxChunk, Delims

VARIABLES delim,
          wired,     \* whether there is a connection: if not, it is not closed
          buf, mode, quota, closed, last
vars == <<delim, wired, buf, mode, quota, closed, last>>
View == <<delim, wired, buf, mode, quota, closed>>

R == 82
F == 70
D == 68
Q == 81
X == 88
C == 67

Suffix(s, d) == Len(s) >= Len(d) /\ SubSeq(s, Len(s) - Len(d) + 1, Len(s)) = d

AddRaw(ev, b) ==
  IF ev # <<>> /\ ev[Len(ev)][1] = "raw"
  THEN [ev EXCEPT ![Len(ev)] = <<"raw", Append(ev[Len(ev)][2], b)>>]
  ELSE Append(ev, <<"raw", <<b>> >>)

(* One byte. st: [b buffer, d delimiter, m mode, q raw bytes wanted, x closed, ev events] *)
Byte(st, b) ==
  IF st.x THEN st
  ELSE IF st.m = "raw"
  THEN [st EXCEPT !.ev = AddRaw(st.ev, b),
                  !.m = IF st.q = 1 \/ (b = X /\ wired) THEN "line" ELSE "raw",
                  !.q = IF st.q > 0 /\ ~(b = X /\ wired) THEN st.q - 1 ELSE 0,
                  !.x = b = X /\ wired]
  ELSE LET nb == Append(st.b, b)
       IN  IF ~Suffix(nb, st.d) THEN [st EXCEPT !.b = nb]
           ELSE LET l == SubSeq(nb, 1, Len(nb) - Len(st.d))
                    s == [st EXCEPT !.b = <<>>, !.ev = Append(st.ev, <<"line", l>>)]
                IN  IF l = <<>> THEN s
                    ELSE CASE l[1] = R -> [s EXCEPT !.m = "raw", !.q = Len(l)]
                           [] l[1] = F -> [s EXCEPT !.m = "raw", !.q = 0]
                           [] l[1] = C /\ Len(l) > 1 -> [s EXCEPT !.d = Tail(l)]
                           [] l[1] = D -> [s EXCEPT !.x = wired]
                           [] l[1] = Q -> [s EXCEPT !.x = wired, !.m = "raw", !.q = 0]
                           [] OTHER -> s

RECURSIVE Eat(_, _, _)
Eat(st, c, i) == IF i > Len(c) THEN st ELSE Eat(Byte(st, c[i]), c, i + 1)

Take(m, q, c) ==
  LET all == IF m = "raw" THEN buf \o c ELSE c
  IN  Eat([b |-> IF m = "raw" THEN <<>> ELSE buf, d |-> delim, m |-> m, q |-> q, x |-> closed, ev |-> <<>>], all, 1)
Is(st) == buf' = (IF st.x THEN <<>> ELSE st.b) /\ mode' = st.m /\ quota' = st.q /\ closed' = st.x
          /\ delim' = st.d

Step(e) ==
  /\ CASE e.op = "feed" ->        \* chunk
            LET st == Take(mode, quota, e.chunk)
            IN  IF e.chunk = <<>> \/ closed
                THEN UNCHANGED <<delim, buf, mode, quota, closed>> /\ last' = e @@ [out |-> <<>>]
                ELSE Is(st) /\ last' = e @@ [out |-> st.ev]
       [] e.op = "setraw" ->
            /\ ~closed /\ mode' = "raw" /\ quota' = 0 /\ UNCHANGED <<delim, buf, closed>> /\ last' = e @@ [out |-> <<>>]
       [] e.op = "setline" ->     \* chunk
            /\ ~closed
            /\ LET st == Take("line", 0, e.chunk) IN Is(st) /\ last' = e @@ [out |-> st.ev]
  /\ UNCHANGED wired

InitWith(r) == /\ delim = r.delim /\ wired = r.wired
               /\ buf = <<>> /\ mode = "line" /\ quota = 0 /\ closed = FALSE
               /\ last = [op |-> "init", out |-> <<>>]
Init == \E d \in Delims, w \in BOOLEAN : InitWith([delim |-> d, wired |-> w])

Chunks == UNION {[1..n -> Alphabet] : n \in 1..MaxChunk}
Next == \/ \E c \in Chunks : Step([op |-> "feed", chunk |-> c])
        \/ Step([op |-> "setraw"])
        \/ \E c \in {<<>>} \cup {x \in Chunks : Len(x) < 3} : Step([op |-> "setline", chunk |-> c])

Short(n) == Len(buf) <= n
(* No complete line is ever kept back. *)
Prompt == mode = "line" => \A i \in 1..(Len(buf) - Len(delim) + 1) : SubSeq(buf, i, i + Len(delim) - 1) # delim
(* Once closed nothing is kept or given. *)
ClosedKeepsNothing == closed => buf = <<>>
Silent == [][closed => last'.out = <<>>]_vars
=============================================================================
