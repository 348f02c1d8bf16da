------------------------------- MODULE Process -------------------------------
(* epsilon.process: starting processes which can import what this one can, and
   services connecting protocols to standard input and output.

   Packages and modules are placed in directories; what this process finds
   depends on the path it searches.  "lib" directories are in the interpreter's
   own library, where every process finds them.  A directory is what it is
   called by whoever searches it, whatever that may be a link to.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS DirOrder,      \* the directories: a sequence
          Library,       \* those of them in the interpreter's library
          Names, Paths, Asked, Owns, Envs, Hows, Rests, MaxPlaced,
          Services

VARIABLES placed,        \* pairs of a directory and a name
          path,          \* the directories searched, in order
          kids,          \* the services attached to the parent, in order
          on,            \* whether the parent is running
          running,       \* the services which are
          last

vars == <<placed, path, kids, on, running, last>>
View == <<placed, path, kids, on, running>>
Did(e, o) == last' = e @@ [out |-> o]
Range(q) == {q[i] : i \in DOMAIN q}
Dirs == Range(DirOrder)

(* Where this process finds something: the first directory having it. *)
Having(n) == SelectSeq(path, LAMBDA d : <<d, n>> \in placed)
Found(n) == Having(n) # <<>>
(* The directories a process needs for some packages. *)
Needed(pkgs) == {Having(pkgs[i])[1] : i \in DOMAIN pkgs} \ Library
Front(pkgs) == SelectSeq(DirOrder, LAMBDA d : d \in Needed(pkgs))
(* Whether a process with such a path, and no library, can import something. *)
Able(n, dirs) == \E d \in dirs : <<d, n>> \in placed

State(r) == [s \in Services |-> s \in r]
Stay == UNCHANGED <<placed, path, kids, on, running>>

Step(e) ==
  CASE e.op = "place" ->       \* dir, name, kind; a mere directory is neither package nor module
         /\ <<e.dir, e.name>> \notin placed \/ e.kind = "directory"
         /\ placed' = (IF e.kind = "directory" THEN placed ELSE placed \union {<<e.dir, e.name>>})
         /\ UNCHANGED <<path, kids, on, running>> /\ Did(e, <<>>)
    [] e.op = "search" ->      \* path
         /\ path' = e.path
         /\ UNCHANGED <<placed, kids, on, running>> /\ Did(e, <<>>)
    [] e.op = "spawn" ->       \* how, pkgs, own, env, rest, child
         /\ Stay
         /\ IF \A i \in DOMAIN e.pkgs : Found(e.pkgs[i])
            THEN Did(e, [refused |-> FALSE, how |-> e.how, rest |-> e.rest,
                         env |-> e.env,
                         front |-> Front(e.pkgs), own |-> e.own,
                         able |-> [i \in DOMAIN e.pkgs |->
                                     e.child /\ Able(e.pkgs[i], Needed(e.pkgs) \union Range(e.own))]])
            ELSE Did(e, [refused |-> TRUE])
    [] e.op = "attach" ->      \* s: to the parent, which starts it if it is running itself
         /\ e.s \notin Range(kids) /\ e.s \notin running
         /\ kids' = Append(kids, e.s)
         /\ running' = IF on THEN running \union {e.s} ELSE running
         /\ UNCHANGED <<placed, path, on>>
         /\ Did(e, [connected |-> IF on THEN <<e.s>> ELSE <<>>, running |-> State(running')])
    [] e.op = "detach" ->      \* s
         /\ e.s \in Range(kids)
         /\ kids' = SelectSeq(kids, LAMBDA k : k # e.s)
         /\ running' = IF on THEN running \ {e.s} ELSE running
         /\ UNCHANGED <<placed, path, on>>
         /\ Did(e, [connected |-> <<>>, running |-> State(running')])
    [] e.op = "startAll" ->    \* the parent
         /\ ~on /\ on' = TRUE /\ Range(kids) \intersect running = {}
         /\ running' = running \union Range(kids)
         /\ UNCHANGED <<placed, path, kids>>
         /\ Did(e, [connected |-> kids, running |-> State(running')])
    [] e.op = "stopAll" ->
         /\ on /\ on' = FALSE
         /\ running' = running \ Range(kids)
         /\ UNCHANGED <<placed, path, kids>>
         /\ Did(e, [connected |-> <<>>, running |-> State(running')])
    [] e.op = "start" ->       \* s: by itself
         /\ e.s \notin Range(kids) /\ e.s \notin running
         /\ running' = running \union {e.s}
         /\ UNCHANGED <<placed, path, kids, on>>
         /\ Did(e, [connected |-> <<e.s>>, running |-> State(running')])
    [] e.op = "stop" ->        \* s
         /\ e.s \notin Range(kids) /\ e.s \in running
         /\ running' = running \ {e.s}
         /\ UNCHANGED <<placed, path, kids, on>>
         /\ Did(e, [connected |-> <<>>, running |-> State(running')])

Init == /\ placed = {} /\ path = <<>> /\ kids = <<>> /\ on = FALSE /\ running = {}
        /\ last = [op |-> "init", out |-> <<>>]
InitWith(r) == Init

Placing ==
  \/ Cardinality(placed) < MaxPlaced
     /\ \E d \in Dirs, n \in Names, k \in {"package", "module"} :
           Step([op |-> "place", dir |-> d, name |-> n, kind |-> k])
  \/ path = <<>> /\ \E p \in Paths : Step([op |-> "search", path |-> p])
Spawning ==
  \E h \in Hows, a \in Asked, o \in Owns, v \in Envs, r \in Rests :
     Step([op |-> "spawn", how |-> h, pkgs |-> a, own |-> o, env |-> v, rest |-> r, child |-> FALSE])
Serving ==
  \/ \E o \in {"attach", "detach", "start", "stop"}, s \in Services : Step([op |-> o, s |-> s])
  \/ \E o \in {"startAll", "stopAll"} : Step([op |-> o])
Next == Placing \/ Spawning
ServeNext == Serving

(* What is asked for can be imported, from where this process has it, or is in the library. *)
Reaches == last.op = "spawn" /\ ~last.out.refused =>
             \A i \in DOMAIN last.pkgs :
                Having(last.pkgs[i])[1] \in Range(last.out.front) \union Library
(* Nothing is there which is neither needed nor given. *)
NothingMore == last.op = "spawn" /\ ~last.out.refused =>
                 /\ \A d \in Range(last.out.front) : \E i \in DOMAIN last.pkgs : <<d, last.pkgs[i]>> \in placed
                 /\ Range(last.out.front) \intersect Library = {}
                 /\ last.out.own = last.own
Family == /\ on => Range(kids) \subseteq running
          /\ ~on => Range(kids) \intersect running = {}
(* A service is connected exactly when it begins to run. *)
Connects == [][last'.op \in {"attach", "detach", "start", "stop", "startAll", "stopAll"} =>
                 Range(last'.out.connected) = running' \ running]_vars
=============================================================================
