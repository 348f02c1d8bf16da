----------------------------- MODULE Certificates -----------------------------
(* epsilon.scripts.certcreate: a key and a certificate for it, by options.

   Each option given sets one part of the subject, the others keep their
   defaults; the file named gets exactly one key and the certificate for it.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Options,   \* values which may be given to each: a function of the option's name
          MaxGiven, MaxRuns

VARIABLES given,     \* seq of <<option, value>>: the command line so far
          disk,      \* what each file holds: set of <<name, number of the run>>
          runs, last

vars == <<given, disk, runs, last>>
View == <<given, disk, runs>>
Did(e, o) == last' = e @@ [out |-> o]

Default == [country |-> "US", state |-> "New York", city |-> "New York", organization |-> "Divmod LLC",
            unit |-> "Security", hostname |-> "divmod.com", email |-> "support@divmod.org",
            filename |-> "server.pem", serial |-> "1"]
(* The last one given counts. *)
Value(o) == LET G == {i \in DOMAIN given : given[i][1] = o}
            IN  IF G = {} THEN Default[o] ELSE given[CHOOSE i \in G : \A j \in G : j <= i][2]
(* The number a serial number is. *)
Number(s) == IF s = "007" THEN "7" ELSE s
Subject == [C |-> Value("country"), ST |-> Value("state"), L |-> Value("city"), O |-> Value("organization"),
            OU |-> Value("unit"), CN |-> Value("hostname"), email |-> Value("email")]

Step(e) ==
  CASE e.op = "option" ->     \* o, v
         given' = Append(given, <<e.o, e.v>>) /\ UNCHANGED <<disk, runs>> /\ Did(e, <<>>)
    [] e.op = "create" ->     \* quiet; style: of the options; then start a new command line
         /\ given' = <<>> /\ runs' = runs + 1
         /\ disk' = {d \in disk : d[1] # Value("filename")} \cup {<<Value("filename"), runs + 1>>}
         /\ Did(e, [subject |-> Subject, issuer |-> Subject, serial |-> Number(Value("serial")),
                    keys |-> 1, certificates |-> 1, match |-> TRUE, signed |-> TRUE, fresh |-> TRUE,
                    said |-> ~e.quiet, files |-> disk'])
    [] e.op \in {"unknown", "bad"} ->    \* an option which does not exist; o, v: one which cannot be in a certificate
         given' = <<>> /\ UNCHANGED <<disk, runs>> /\ Did(e, [refused |-> TRUE, files |-> disk])

Init == given = <<>> /\ disk = {} /\ runs = 0 /\ last = [op |-> "init", out |-> <<>>]
InitWith(r) == Init
Next ==
  \/ Len(given) < MaxGiven /\ \E o \in DOMAIN Options : \E v \in Options[o] : Step([op |-> "option", o |-> o, v |-> v])
  \/ runs < MaxRuns /\ \E q \in BOOLEAN, s \in {"long", "short"} : Step([op |-> "create", quiet |-> q, style |-> s])
  \/ runs < MaxRuns /\ Step([op |-> "unknown"])
  \/ runs < MaxRuns /\ Step([op |-> "bad", o |-> "country", v |-> "USA"])

(* One run writes one file, and no other changes. *)
OneFile == [][Cardinality(disk' \ disk) <= 1]_vars
Kept == [][\A d \in disk : d \in disk' \/ \E f \in disk' : f[1] = d[1] /\ f[2] = runs']_vars
=============================================================================
