-------------------------------- MODULE Hotfix --------------------------------
(* epsilon.hotfix: repairs of Twisted, made where they are needed.

   A fix is known under the name of a package and its own; whether the version
   of Twisted at hand needs it is the environment's affair.                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Fixes, Breakable, Strangers

VARIABLES broken,   \* the fixes which Twisted needs
          fails,    \* the fixes which cannot be installed at present
          settled,  \* the fixes required before, found unnecessary or installed
          last

vars == <<broken, fails, settled, last>>
View == <<broken, fails, settled>>
Did(e, o) == last' = e @@ [out |-> o]

Step(e) ==
  CASE e.op = "break" ->      \* fix: another version of Twisted, which needs it
         broken' = broken \cup {e.fix} /\ UNCHANGED <<fails, settled>> /\ Did(e, <<>>)
    [] e.op = "jam" ->        \* fix: its installation fails, or works again
         /\ fails' = (IF e.fix \in fails THEN fails \ {e.fix} ELSE fails \cup {e.fix})
         /\ UNCHANGED <<broken, settled>> /\ Did(e, <<>>)
    [] e.op = "require" ->    \* pkg, fix
         IF e.pkg # "twisted" \/ e.fix \notin Fixes
         THEN UNCHANGED <<broken, fails, settled>> /\ Did(e, <<"NoSuchHotfix">>)
         ELSE IF e.fix \in settled
         THEN UNCHANGED <<broken, fails, settled>> /\ Did(e, <<>>)
         ELSE IF e.fix \notin broken
         THEN settled' = settled \cup {e.fix} /\ UNCHANGED <<broken, fails>> /\ Did(e, <<>>)
         ELSE IF e.fix \in fails      \* it is tried again when next required
         THEN UNCHANGED <<broken, fails, settled>> /\ Did(e, <<"install", "failed">>)
         ELSE settled' = settled \cup {e.fix} /\ UNCHANGED <<broken, fails>> /\ Did(e, <<"install">>)

Init == broken = {} /\ fails = {} /\ settled = {} /\ last = [op |-> "init", out |-> <<>>]
InitWith(r) == Init
Next ==
  \/ \E f \in Breakable : f \notin broken /\ Step([op |-> "break", fix |-> f])
  \/ \E f \in Breakable : Step([op |-> "jam", fix |-> f])
  \/ \E p \in {"twisted", "other"}, f \in Fixes \cup Strangers : Step([op |-> "require", pkg |-> p, fix |-> f])

(* With only the fixes which may break required, and strangers. *)
SmallNext ==
  \/ \E f \in Breakable : f \notin broken /\ Step([op |-> "break", fix |-> f])
  \/ \E f \in Breakable : Step([op |-> "jam", fix |-> f])
  \/ \E p \in {"twisted", "other"}, f \in Breakable \cup Strangers : Step([op |-> "require", pkg |-> p, fix |-> f])

(* Nothing is installed twice, nor where it is not needed. *)
Installs == [][IF last'.op # "require" THEN TRUE
               ELSE \A i \in DOMAIN last'.out : last'.out[i] = "install" =>
                      last'.fix \in broken /\ last'.fix \notin settled]_vars
Kept == [][settled \subseteq settled']_vars
=============================================================================
