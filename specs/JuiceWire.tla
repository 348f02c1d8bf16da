----------------------------- MODULE JuiceWire -----------------------------
(* Juice boxes on a connection: what one side sends, the other receives, in
   order and intact, however the bytes are cut into chunks, each box as soon as
   its last byte has arrived.

   A box is a sequence of <<key, value>> pairs, text as code points.  `pipe` is
   what is on its way, with the number of bytes each box takes on the wire.  *)
EXTENDS Text, TLC

CONSTANTS Boxes,      \* boxes our side sends
          Foreign,    \* byte sequences another implementation sends
          Keywords,   \* Python's (lower case) keywords
          MaxPipe, MaxDeliver

VARIABLES pipe, got, broken, last
vars == <<pipe, got, broken, last>>
View == <<pipe, got, broken>>

BODY == <<98, 111, 100, 121>>
LENGTH == <<95, 108, 101, 110, 103, 116, 104>>      \* "_length"

(* Keys are case insensitive, '-' is '_', and a key that is a Python keyword
   is capitalized, so that it can be used as an argument name. *)
NormalKey(k) ==
  LET l == [i \in DOMAIN k |-> IF k[i] = 45 THEN 95 ELSE Lower(k[i])]
  IN  IF l \in Keywords THEN Title(l) ELSE l

(* A long value of m lines, each of n times the character c, is <<-1, c, n, m>>. *)
Long(v) == Len(v) = 4 /\ v[1] = -1
Size(v) == IF Long(v) THEN v[3] * v[4] * U8Size(<<v[2]>>) + 2 * (v[4] - 1) ELSE U8Size(v)
Breaks(v) == IF Long(v) THEN v[4] - 1 ELSE Count(v, CRLF)

HeaderLen(k, v) == U8Size(k) + 2 + Size(v) + Breaks(v) + 2
PairLen(p) == IF p[1] = BODY
              THEN HeaderLen(LENGTH, Digits(Size(p[2]))) + Size(p[2])
              ELSE HeaderLen(p[1], p[2])
RECURSIVE PairsLen(_, _)
PairsLen(b, i) == IF i > Len(b) THEN 0 ELSE PairLen(b[i]) + PairsLen(b, i + 1)
WireLen(b) == PairsLen(b, 1) + 2

Arrives(b) == [i \in DOMAIN b |-> <<NormalKey(b[i][1]), b[i][2]>>]

-----------------------------------------------------------------------------
(* Reading a complete box another implementation wrote. *)
Malformed == << <<<<0>>, <<>>>> >>

Put(b, k, v) == IF \E i \in DOMAIN b : b[i][1] = k
                THEN [i \in DOMAIN b |-> IF b[i][1] = k THEN <<k, v>> ELSE b[i]]
                ELSE Append(b, <<k, v>>)

(* Read header lines from byte i; cur is the key being read. *)
RECURSIVE ReadFrom(_, _, _, _)
ReadFrom(w, i, cur, b) ==
  LET e == Find(w, CRLF, i)
      line == SubSeq(w, i, e - 1)
  IN IF line = <<>>
     THEN LET rest == SubSeq(w, e + 2, Len(w))
              ls == {j \in DOMAIN b : b[j][1] = LENGTH}
              hs == SelectSeq(b, LAMBDA p : p[1] # LENGTH)
              n == b[CHOOSE j \in ls : TRUE][2]
          IN  IF ls = {} THEN hs
              \* the length has to be one
              ELSE IF n = <<>> \/ \E j \in DOMAIN n : n[j] \notin 48..57 THEN Malformed
              ELSE Put(hs, BODY, U8Decode(rest))
     ELSE IF line[1] = SP
     THEN IF cur = <<>> THEN Malformed
          ELSE LET k == CHOOSE j \in DOMAIN b : b[j][1] = cur
               IN  ReadFrom(w, e + 2, cur,
                     [b EXCEPT ![k] = <<cur, b[k][2] \o CRLF \o U8Decode(Tail(line))>>])
     ELSE LET c == Find(line, <<58, 32>>, 1)
          IN  IF c = 0 THEN Malformed
              ELSE LET k == NormalKey(U8Decode(SubSeq(line, 1, c - 1)))
                   IN  ReadFrom(w, e + 2, k,
                                Put(b, k, U8Decode(SubSeq(line, c + 2, Len(line)))))
(* Text is UTF-8; of the bytes used here 254 and 255 never are. *)
Read(w) == IF \E i \in DOMAIN w : w[i] > 253 THEN Malformed ELSE ReadFrom(w, 1, <<>>, <<>>)

-----------------------------------------------------------------------------
RECURSIVE SumLen(_, _)
SumLen(p, i) == IF i > Len(p) THEN 0 ELSE p[i].len + SumLen(p, i + 1)
Left == SumLen(pipe, 1) - got

(* n bytes arrive: which boxes are complete. *)
RECURSIVE Take(_, _, _)
Take(p, have, ev) ==
  IF p = <<>> \/ have < p[1].len THEN [p |-> p, g |-> have, ev |-> ev, x |-> FALSE]
  ELSE IF p[1].box = Malformed
  THEN [p |-> <<>>, g |-> 0, ev |-> Append(ev, <<"malformed">>), x |-> TRUE]
  ELSE Take(Tail(p), have - p[1].len, Append(ev, <<"box", p[1].box>>))

Step(e) ==
  CASE e.op = "send" ->
         /\ ~broken
         /\ pipe' = Append(pipe, [box |-> Arrives(e.box), len |-> WireLen(e.box)])
         /\ UNCHANGED <<got, broken>>
         /\ last' = e @@ [out |-> << <<"wrote", WireLen(e.box)>> >>]
    [] e.op = "inject" ->
         /\ ~broken
         /\ pipe' = Append(pipe, [box |-> Read(e.bytes), len |-> Len(e.bytes)])
         /\ UNCHANGED <<got, broken>>
         /\ last' = e @@ [out |-> <<>>]
    [] e.op = "parse" ->       \* all at once, as a text by itself
         /\ ~broken /\ got = 0 /\ \A i \in DOMAIN pipe : pipe[i].box # Malformed
         /\ UNCHANGED <<pipe, got, broken>>
         /\ last' = e @@ [out |-> [i \in DOMAIN pipe |-> <<"box", pipe[i].box>>]]
    [] e.op = "deliver" ->
         /\ ~broken
         /\ LET t == Take(pipe, got + e.n, <<>>)
            IN  /\ pipe' = t.p /\ got' = t.g /\ broken' = t.x
                /\ last' = e @@ [out |-> t.ev]

Init == /\ pipe = <<>> /\ got = 0 /\ broken = FALSE
        /\ last = [op |-> "init", out |-> <<>>]
InitWith(r) == Init

Send == /\ Len(pipe) < MaxPipe /\ got = 0
        /\ \E b \in Boxes : Step([op |-> "send", box |-> b])
Inject == /\ Len(pipe) < MaxPipe /\ got = 0
          /\ \E b \in Foreign : Step([op |-> "inject", bytes |-> b])
Deliver == \E n \in 1..Left : (n <= MaxDeliver \/ n >= Left - MaxDeliver)
                              /\ Step([op |-> "deliver", n |-> n])
Next == Step([op |-> "parse"]) \/ Send \/ Inject \/ Deliver

Prompt == pipe # <<>> => got < pipe[1].len
=============================================================================
