------------------------------ MODULE JuiceArgs ------------------------------
(* Typed arguments and results of Juice commands.

   A command declares named, typed, possibly optional arguments.  What the
   caller passes is what the responder gets, and what the responder returns is
   what the caller gets, value for value; an omitted optional argument is None;
   nothing is sent when a required argument is missing or a value cannot be
   represented; a responder never runs with arguments it did not declare or
   that do not parse.

   A value is a sequence of code points (numbers in decimal, bytes as such),
   or a sequence of values for lists.  An argument is [n, t, opt, has, v].    *)
EXTENDS Text, TLC

CONSTANTS Calls

VARIABLES open, last
vars == <<open, last>>
View == <<open>>

True  == <<84, 114, 117, 101>>
False == <<70, 97, 108, 115, 101>>
COMMA == <<44, 32>>
SLASH == <<47>>
SEMI  == <<59, 32>>

B64C(i) == IF i < 26 THEN 65 + i ELSE IF i < 52 THEN 71 + i ELSE IF i < 62 THEN i - 4
           ELSE IF i = 62 THEN 43 ELSE 47
RECURSIVE B64From(_, _)
B64From(b, i) ==
  LET n == Len(b) - i + 1
  IN  IF n <= 0 THEN <<>>
      ELSE IF n = 1 THEN << B64C(b[i] \div 4), B64C((b[i] % 4) * 16), 61, 61 >>
      ELSE IF n = 2 THEN << B64C(b[i] \div 4), B64C((b[i] % 4) * 16 + b[i+1] \div 16),
                            B64C((b[i+1] % 16) * 4), 61 >>
      ELSE << B64C(b[i] \div 4), B64C((b[i] % 4) * 16 + b[i+1] \div 16),
              B64C((b[i+1] % 16) * 4 + b[i+2] \div 64), B64C(b[i+2] % 64) >> \o B64From(b, i + 3)

(* Truth values: 0 and 1, and what counts as such. *)
Truth(v) == IF v[1] % 2 = 1 THEN <<1>> ELSE <<0>>
Received(t, v) == CASE t = "Boolean" -> Truth(v)
                    [] t = "ListOf:Boolean" -> [i \in DOMAIN v |-> Truth(v[i])]
                    [] OTHER -> v

(* Types whose text on the wire is laid down; the others only round-trip. *)
Scalars == {"Integer", "String", "Unicode", "Boolean", "Base64"}
Element(t) == CASE t = "ListOf:Integer" -> "Integer" [] t = "ListOf:String" -> "String"
                [] t = "ListOf:Unicode" -> "Unicode" [] t = "ListOf:Boolean" -> "Boolean"
                [] t = "ListOf:Base64" -> "Base64" [] OTHER -> "-"
Scalar(t, v) == CASE t = "Boolean" -> IF Truth(v) = <<1>> THEN True ELSE False
                  [] t = "Base64" -> B64From(v, 1)
                  [] OTHER -> v
HasText(t) == t \in Scalars \/ Element(t) # "-" \/ t = "Lists"
Text(t, v) == IF t \in Scalars THEN Scalar(t, v)
              ELSE IF t = "Lists" THEN Join([i \in DOMAIN v |-> Join(v[i], SLASH)], SEMI)
              ELSE Join([i \in DOMAIN v |-> Scalar(Element(t), v[i])], COMMA)

Representable(a) ==
  /\ a.t = "Ascii" => \A i \in DOMAIN a.v : a.v[i] < 128
  /\ a.t = "Lists" => \A i \in DOMAIN a.v : /\ Count(Join(a.v[i], SLASH), SEMI) = 0
                                             /\ \A j \in DOMAIN a.v[i] : Count(a.v[i][j], SLASH) = 0
  /\ Element(a.t) = "-" \/ \A i \in DOMAIN a.v : Count(Scalar(Element(a.t), a.v[i]), COMMA) = 0

Given(as) == SelectSeq(as, LAMBDA a : a.has)
Got(as) == [i \in DOMAIN as |-> IF as[i].has THEN <<as[i].n, Received(as[i].t, as[i].v)>> ELSE <<as[i].n>>]
OnWire(as) == LET g == SelectSeq(as, LAMBDA a : a.has /\ HasText(a.t))
              IN  [i \in DOMAIN g |-> <<g[i].n, Text(g[i].t, g[i].v)>>]

Step(e) ==
  CASE e.op = "call" ->      \* args; spelling of the names; whether unknown ones are added
         /\ open /\ UNCHANGED open
         /\ last' = e @@ [out |->
              IF \E i \in DOMAIN e.args : ~e.args[i].opt /\ ~e.args[i].has
              THEN << <<"forgot">> >>
              ELSE IF \E i \in DOMAIN e.args : e.args[i].has /\ ~Representable(e.args[i])
              THEN << <<"refused">> >>
              ELSE << <<"wire", OnWire(e.args)>>, <<"served", Got(e.args)>>,
                      <<"result", Got(e.args)>> >>]
    [] e.op = "bad" ->       \* a peer sends text that is not a value of the type, or nothing
         /\ open /\ open' = FALSE
         /\ last' = e @@ [out |-> << <<"closing">>, <<"unhandled">> >>]

Init == open = TRUE /\ last = [op |-> "init", out |-> <<>>]
InitWith(r) == Init
Next == \E c \in Calls : Step(c)

Never == [][last'.op = "bad" => \A i \in DOMAIN last'.out : last'.out[i][1] # "served"]_vars
=============================================================================
