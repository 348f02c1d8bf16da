-------------------------------- MODULE Auth --------------------------------
(* epsilon.ampauth: logging in over AMP.

   Several connections share one portal.  On each, the server issues challenges
   (all different) and answers login attempts: a response computed from some
   challenge k and some password, or a one-time pad.  The realm supplies an
   avatar at once, later ("finish"), or not at all.  While an avatar is in
   place every box of the connection goes to it.

   An avatar may be faulty: starting it fails ("start"), stopping it fails
   ("stop"), or its logout fails ("out").  It is logged out all the same, once. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS NConns, Users, Passwords, Pads, Modes, MaxChallenges, MaxLogins,
          Issues     \* pads which are issued, again, while the system runs

VARIABLES conns,    \* per connection: [st, chal, user, sess]
          nchal,    \* challenges issued so far, over all connections
          pads,     \* the pads not used yet
          logins,   \* successful authentications: [c, who, st, bad]
          last

vars == <<conns, nchal, pads, logins, last>>
View == <<conns, nchal, pads, logins>>

Password(u) == "p" \o u
Owner(p)    == IF p = "4" THEN "o1" ELSE "o" \o p     \* two pads of one owner
NoUser      == "nobody"

S == [conns |-> conns, nchal |-> nchal, pads |-> pads, logins |-> logins, ev |-> <<>>]
Say(s, e) == [s EXCEPT !.ev = Append(@, e)]
Done(e, s) == /\ conns' = s.conns /\ nchal' = s.nchal /\ pads' = s.pads /\ logins' = s.logins
              /\ last' = e @@ [out |-> s.ev]

Reply(s, c, what) == IF s.conns[c].st = "up" THEN Say(s, <<"reply", c, what>>) ELSE s

(* Avatar i is in place: it replaces an earlier one, which is logged out. *)
In(s, i) ==
  LET c == s.logins[i].c
      o == s.conns[c].sess
  IN  IF s.conns[c].st = "lost"
      THEN Say([s EXCEPT !.logins = [@ EXCEPT ![i].st = "out"]], <<"logout", i>>)
      ELSE LET s1 == IF o = 0 THEN s
                     ELSE Say([s EXCEPT !.logins = [@ EXCEPT ![o].st = "out"]], <<"logout", o>>)
               s2 == [s1 EXCEPT !.conns = [@ EXCEPT ![c].sess = i],
                                !.logins = [@ EXCEPT ![i].st = "in"]]
               s3 == IF o # 0 /\ s.logins[o].bad = "out" THEN s2 ELSE Say(s2, <<"started", i>>)
           IN  IF s3 = s2 \/ s.logins[i].bad = "start"
               THEN [Reply(s3, c, "denied") EXCEPT !.conns = [@ EXCEPT ![c].st = "closing"]]
               ELSE Reply(s3, c, "ok")

Faults == {"start", "stop", "out"}

(* The checkers agreed that w is on connection c. *)
Authenticated(s, c, w, mode) ==
  LET i  == Len(s.logins) + 1
      s1 == Say(s, <<"avatar for", w>>)
  IN  IF mode = "none" THEN Reply(s1, c, "noavatar")
      ELSE LET s2 == [s1 EXCEPT !.logins = Append(@, [c |-> c, who |-> w, st |-> "pending",
                                                          bad |-> IF mode \in Faults THEN mode ELSE "-"])]
           IN  IF mode = "later" THEN s2 ELSE In(s2, i)

Hello(s, c, u) ==
  [s EXCEPT !.nchal = @ + 1,
            !.conns = [@ EXCEPT ![c].chal = s.nchal + 1, ![c].user = u]]

Right(s, c, k, pw) == k # 0 /\ k = s.conns[c].chal
                      /\ s.conns[c].user \in Users /\ pw = Password(s.conns[c].user)

Answer(s, c, k, pw, mode) ==
  IF s.conns[c].chal = 0     \* nothing to answer: a protocol error
  THEN [Reply(s, c, "denied") EXCEPT !.conns = [@ EXCEPT ![c].st = "closing"]]
  ELSE IF Right(s, c, k, pw) THEN Authenticated(s, c, s.conns[c].user, mode)
  ELSE Reply(s, c, "denied")

Step(e) ==
  CASE e.op = "hello" ->        \* c, user
         /\ conns[e.c].st = "up"
         /\ Done(e, IF conns[e.c].sess # 0 THEN Say(S, <<"to avatar", conns[e.c].sess>>)
                    ELSE Say(Hello(S, e.c, e.user), <<"challenge", e.c>>))
    [] e.op = "answer" ->       \* c, k, password, mode
         /\ conns[e.c].st = "up"
         /\ Done(e, IF conns[e.c].sess # 0 THEN Say(S, <<"to avatar", conns[e.c].sess>>)
                    ELSE Answer(S, e.c, e.k, e.password, e.mode))
    [] e.op = "pad" ->          \* c, pad, mode
         /\ conns[e.c].st = "up"
         /\ Done(e, IF conns[e.c].sess # 0 THEN Say(S, <<"to avatar", conns[e.c].sess>>)
                    ELSE IF e.pad \in pads
                    THEN Authenticated([S EXCEPT !.pads = @ \ {e.pad}], e.c, Owner(e.pad), e.mode)
                    ELSE Reply(S, e.c, "denied"))
    [] e.op = "issue" ->        \* pad
         /\ e.pad \notin pads
         /\ Done(e, [S EXCEPT !.pads = @ \cup {e.pad}])
    [] e.op = "signin" ->       \* c, user, password, mode: the client's own login
         /\ conns[e.c].st = "up" /\ conns[e.c].sess = 0
         /\ LET s == Hello(S, e.c, e.user)
            IN  Done(e, Answer(s, e.c, s.nchal, e.password, e.mode))
    [] e.op = "other" ->        \* c: the client's own login, with credentials which are no name and password
         /\ conns[e.c].st = "up"
         /\ Done(e, Reply(S, e.c, "not possible"))
    [] e.op = "finish" ->       \* i, how: the realm's answer arrives
         /\ logins[e.i].st = "pending"
         /\ Done(e, IF e.how # "none"
                    THEN In([S EXCEPT !.logins = [@ EXCEPT ![e.i].bad = IF e.how \in Faults THEN e.how ELSE "-"]], e.i)
                    ELSE Reply([S EXCEPT !.logins = [@ EXCEPT ![e.i].st = "failed"]],
                               logins[e.i].c, "noavatar"))
    [] e.op = "send" ->         \* c: a command which is not about logging in
         /\ conns[e.c].st = "up"
         /\ Done(e, IF conns[e.c].sess # 0 THEN Say(S, <<"to avatar", conns[e.c].sess>>)
                    ELSE Say(S, <<"unhandled", e.c>>))
    [] e.op = "lose" ->         \* c, during: a login (or 0) which succeeds while the avatar is told
         /\ conns[e.c].st # "lost"
         /\ IF e.during = 0 THEN TRUE
            ELSE conns[e.c].sess # 0 /\ logins[e.during].st = "pending" /\ logins[e.during].c = e.c
         /\ LET i == conns[e.c].sess
                s == [S EXCEPT !.conns = [@ EXCEPT ![e.c].st = "lost", ![e.c].sess = 0]]
            IN  Done(e, IF i = 0 THEN s
                        ELSE LET s1 == Say([s EXCEPT !.logins = [@ EXCEPT ![i].st = "out"]], <<"stopped", i>>)
                             IN  Say(IF e.during = 0 THEN s1 ELSE In(s1, e.during), <<"logout", i>>))

Init == /\ conns = [c \in 1..NConns |-> [st |-> "up", chal |-> 0, user |-> NoUser, sess |-> 0]]
        /\ nchal = 0 /\ pads = Pads /\ logins = <<>>
        /\ last = [op |-> "init", out |-> <<>>]
InitWith(r) == Init

Next ==
  \E c \in 1..NConns :
    \/ \E u \in Users \cup {"x"} : nchal < MaxChallenges /\ Step([op |-> "hello", c |-> c, user |-> u])
    \/ \E k \in 0..nchal : \E p \in Passwords : \E m \in Modes :
         /\ Len(logins) < MaxLogins
         /\ Step([op |-> "answer", c |-> c, k |-> k, password |-> p, mode |-> m])
    \/ \E p \in Pads \cup {"0"} : \E m \in Modes :
         /\ Len(logins) < MaxLogins
         /\ Step([op |-> "pad", c |-> c, pad |-> p, mode |-> m])
    \/ \E u \in Users \cup {"x"} : \E p \in Passwords : \E m \in Modes :
         /\ Len(logins) < MaxLogins /\ nchal < MaxChallenges
         /\ Step([op |-> "signin", c |-> c, user |-> u, password |-> p, mode |-> m])
    \/ \E i \in DOMAIN logins : \E h \in {"ok", "none"} \cup (Modes \cap Faults) :
         /\ logins[i].c = c
         /\ Step([op |-> "finish", i |-> i, how |-> h])
    \/ \E p \in Issues : Step([op |-> "issue", pad |-> p])
    \/ Step([op |-> "send", c |-> c])
    \/ Step([op |-> "other", c |-> c])
    \/ \E j \in {0} \cup {i \in DOMAIN logins : logins[i].c = c} : Step([op |-> "lose", c |-> c, during |-> j])

-----------------------------------------------------------------------------
(* Every avatar in place belongs to a connection which is not lost, and is the
   only one of that connection.                                               *)
InPlace == /\ \A i \in DOMAIN logins : logins[i].st = "in" <=> conns[logins[i].c].sess = i
           /\ \A c \in 1..NConns : conns[c].st = "lost" => conns[c].sess = 0
(* Logged out at most once, and never reached without authentication. *)
LogoutOnce == [][\A i \in DOMAIN logins : logins[i].st = "out" => logins'[i].st = "out"]_vars
(* A pad is accepted at most once. *)
PadOnce == \A p \in Pads \ Issues :
             LET all == {q \in Pads : Owner(q) = Owner(p)}
             IN  all \cap Issues = {} => Cardinality({i \in DOMAIN logins : logins[i].who = Owner(p)}) <= Cardinality(all)
UsedPads == [][last'.op # "issue" => pads' \subseteq pads]_vars
(* No avatar but by the password of the user the last challenge was for, or a pad. *)
Access == [][Len(logins') > Len(logins) =>
               LET w == logins'[Len(logins')].who IN
               \/ last'.op = "pad" /\ last'.pad \in pads /\ w = Owner(last'.pad)
               \/ last'.op = "answer" /\ last'.k = conns[last'.c].chal /\ last'.k # 0
                  /\ w = conns[last'.c].user /\ last'.password = Password(w)
               \/ last'.op = "signin" /\ w = last'.user /\ last'.password = Password(w)]_vars
=============================================================================
