------------------------------ MODULE JuiceTLS ------------------------------
(* Securing a Juice connection in mid-stream.

   From prepareTLS until the connection is secured nothing is written; what was
   sent meanwhile is written, once and in order, right after TLS was started,
   never before.  A connection is secured at most once: a second attempt is
   refused and changes nothing.                                              *)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Certs, MaxSends, Ways

VARIABLES holding, held, cert, sent, closing, last
vars == <<holding, held, cert, sent, closing, last>>
View == <<holding, held, cert, sent, closing>>

None == "none"
W(b) == <<"write", b>>

(* out of securing with certificate c; h is what is held *)
Secure(c, v, h) == << <<"starttls", c, v>> >> \o [i \in DOMAIN h |-> W(h[i])]

Step(e) ==
  CASE e.op = "prepare" ->
         /\ cert = None
         /\ holding' = TRUE /\ UNCHANGED <<held, cert, sent, closing>>
         /\ last' = e @@ [out |-> <<>>]
    [] e.op = "send" ->          \* box number sent+1; e.way: how it is sent, be it
                                 \* a request or the answer to one of the other side
         \* nobody is answered any more who asks after the end was asked for
         /\ e.way \in {"echo", "run", "fail"} => ~closing
         /\ sent' = sent + 1 /\ closing' = (closing \/ e.way = "quit")
         /\ held' = IF holding THEN Append(held, sent + 1) ELSE held
         /\ UNCHANGED <<holding, cert>>
         /\ last' = e @@ [out |-> (IF holding THEN <<>> ELSE << W(sent + 1) >>)
                                  \o (IF e.way = "quit" THEN << <<"closing">> >> ELSE <<>>)]
    [] e.op = "start" ->         \* startTLS(certificate[, authorities]): verify is how many
         /\ UNCHANGED <<sent, closing>>
         /\ IF cert = None
            THEN /\ cert' = e.cert /\ holding' = FALSE /\ held' = <<>>
                 /\ last' = e @@ [out |-> Secure(e.cert, e.verify, held)]
            ELSE /\ UNCHANGED <<holding, held, cert>>
                 /\ last' = e @@ [out |-> << <<"refused">> >>]
    [] e.op = "tlsbox" ->        \* an answer after which TLS starts
         /\ sent' = sent + 1 /\ UNCHANGED closing
         /\ LET h == IF holding THEN Append(held, sent + 1) ELSE held
                w == IF holding THEN <<>> ELSE << W(sent + 1) >>
            IN  IF cert = None
                THEN /\ cert' = e.cert /\ holding' = FALSE /\ held' = <<>>
                     /\ last' = e @@ [out |-> w \o Secure(e.cert, e.verify, h) \o << <<"started">> >>]
                ELSE /\ UNCHANGED <<holding, cert>> /\ held' = h
                     /\ last' = e @@ [out |-> w \o << <<"refused">> >>]

Init == /\ holding = FALSE /\ held = <<>> /\ cert = None /\ sent = 0 /\ closing = FALSE
        /\ last = [op |-> "init", out |-> <<>>]
InitWith(r) == Init

Next == \/ Step([op |-> "prepare"])
        \/ /\ sent < MaxSends
           /\ \E w \in Ways : Step([op |-> "send", way |-> w])
        \/ \E c \in Certs, v \in 0..2 : Step([op |-> "start", cert |-> c, verify |-> v])
        \/ /\ sent < MaxSends
           /\ \E c \in Certs, v \in 0..1 : Step([op |-> "tlsbox", cert |-> c, verify |-> v])

(* Nothing is written in the clear while TLS is being prepared. *)
Silent == [][holding => \A i \in DOMAIN last'.out :
               last'.out[i][1] = "write" => \E j \in 1..(i - 1) : last'.out[j][1] = "starttls"]_vars
Secured1 == [][cert # None => /\ cert' = cert
                              /\ \A i \in DOMAIN last'.out : last'.out[i][1] # "starttls"]_vars
NoneForgotten == (held # <<>>) => holding
InOrder == \A i, j \in DOMAIN held : i < j => held[i] < held[j]
=============================================================================
