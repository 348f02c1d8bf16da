------------------------------- MODULE Text -------------------------------
(* Text as sequences of code points, and the operations on it that epsilon's
   formats are defined with. *)
EXTENDS Integers, Sequences

CR == 13
LF == 10
SP == 32
CRLF == <<13, 10>>

IsUpper(c) == c \in 65..90
IsLower(c) == c \in 97..122
IsDigit(c) == c \in 48..57
Lower(c) == IF IsUpper(c) THEN c + 32 ELSE c
Upper(c) == IF IsLower(c) THEN c - 32 ELSE c
LowerAll(s) == [i \in DOMAIN s |-> Lower(s[i])]
UpperAll(s) == [i \in DOMAIN s |-> Upper(s[i])]
Letter(c) == IsUpper(c) \/ IsLower(c)
(* str.title: a letter is upper case exactly if no letter comes before it. *)
Title(s) == [i \in DOMAIN s |-> IF i > 1 /\ Letter(s[i-1]) THEN Lower(s[i]) ELSE Upper(s[i])]

U8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
RECURSIVE U8LenFrom(_, _)
U8LenFrom(s, i) == IF i > Len(s) THEN 0 ELSE U8Len(s[i]) + U8LenFrom(s, i + 1)
U8Size(s) == U8LenFrom(s, 1)

(* UTF-8 decoding of well-formed bytes. *)
RECURSIVE U8From(_, _, _)
U8From(b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE IF b[i] < 128 THEN U8From(b, i + 1, Append(acc, b[i]))
  ELSE IF b[i] < 224 THEN U8From(b, i + 2, Append(acc, (b[i] - 192) * 64 + (b[i+1] - 128)))
  ELSE IF b[i] < 240
       THEN U8From(b, i + 3, Append(acc, (b[i] - 224) * 4096 + (b[i+1] - 128) * 64 + (b[i+2] - 128)))
  ELSE U8From(b, i + 4, Append(acc, (b[i] - 240) * 262144 + (b[i+1] - 128) * 4096
                                    + (b[i+2] - 128) * 64 + (b[i+3] - 128)))
U8Decode(b) == U8From(b, 1, <<>>)

At(s, i, p) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
(* Position of the first occurrence of p in s at or after i; 0 if none. *)
RECURSIVE Find(_, _, _)
Find(s, p, i) == IF i + Len(p) - 1 > Len(s) THEN 0
                 ELSE IF At(s, i, p) THEN i ELSE Find(s, p, i + 1)

RECURSIVE CountFrom(_, _, _)
CountFrom(s, p, i) == LET j == Find(s, p, i)
                      IN  IF j = 0 THEN 0 ELSE 1 + CountFrom(s, p, j + Len(p))
Count(s, p) == CountFrom(s, p, 1)

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
RECURSIVE NumFrom(_, _, _)
NumFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE NumFrom(s, i + 1, acc * 10 + s[i] - 48)
Num(s) == NumFrom(s, 1, 0)

RECURSIVE Pad(_, _)
Pad(n, w) == LET d == Digits(n) IN IF Len(d) >= w THEN d ELSE [i \in 1..(w - Len(d)) |-> 48] \o d

Map(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]
RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, d, i) == IF i > Len(ss) THEN <<>>
                      ELSE IF i = Len(ss) THEN ss[i] ELSE ss[i] \o d \o JoinFrom(ss, d, i + 1)
Join(ss, d) == JoinFrom(ss, d, 1)
=============================================================================
