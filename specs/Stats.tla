-------------------------------- MODULE Stats --------------------------------
(* epsilon.scripts.benchmark: the statistics of disks, devices and directories
   which are measured, and the differences which are reported.                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Fields, Mounts, Dirs, Parts, Disks, MaxMounts, Sizes, Numbers

VARIABLES table,   \* the mounts, in order: device, at (root, base, near, else), p (names below base)
          tree,    \* a directory: seq of nodes [up, kind: file, dir, broken, link; n: size or length of the link]
          last

vars == <<table, tree, last>>
View == <<table, tree>>
Did(e, o) == last' = e @@ [out |-> o]
Still == UNCHANGED <<table, tree>>

(* --- one line of the statistics: a device and numbers --- *)
Line(l) ==
  LET n == Len(l.fields) IN
  IF n = 4 THEN <<"partition", l.device, l.fields>>
  ELSE IF n >= 11 THEN <<"disk", l.device, SubSeq(l.fields, 1, 11)>>
  ELSE <<"error">>

(* --- the device on which a directory is --- *)
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Holds(m, dir) == m.at = "root" \/ (m.at = "base" /\ Prefix(m.p, dir))
Depth(m) == IF m.at = "root" THEN 0 ELSE 1 + Len(m.p)
(* The deepest mount which holds it; of several at the same place, the last. *)
Device(dir) ==
  LET H == {i \in DOMAIN table : Holds(table[i], dir)} IN
  IF H = {} THEN "<unknown>"
  ELSE table[CHOOSE i \in H : \A j \in H : \/ Depth(table[j]) < Depth(table[i])
                                           \/ Depth(table[j]) = Depth(table[i]) /\ j <= i].device

(* --- a report: partition and disk are <<>> if unknown --- *)
Diff(a, b, i) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE <<b[i] - a[i]>>
Report(e) ==
  [elapsed |-> e.after.time - e.before.time, growth |-> e.after.size - e.before.size,
   sector |-> e.sector, error |-> e.error, timeout |-> e.timeout, name |-> e.name,
   read_count |-> Diff(e.before.part, e.after.part, 1), read_sectors |-> Diff(e.before.part, e.after.part, 2),
   write_count |-> Diff(e.before.part, e.after.part, 3), write_sectors |-> Diff(e.before.part, e.after.part, 4),
   read_ms |-> Diff(e.before.disk, e.after.disk, 4), write_ms |-> Diff(e.before.disk, e.after.disk, 8)]

(* --- what is reported of a process: its partition's and its disk's numbers.  The lines are of
       these two ("part", "disk"; the same if the disk is used as a whole, n = 0) and of others --- *)
Of(L, n, d) ==
  LET I == {i \in DOMAIN L : L[i].device = d \/ (n = 0 /\ {L[i].device, d} = {"part", "disk"})} IN
  IF I = {} THEN <<>> ELSE L[CHOOSE i \in I : \A j \in I : j <= i].fields
Four(f) == IF f = <<>> \/ Len(f) = 4 THEN f ELSE <<f[1], f[3], f[5], f[7]>>
Measured(name, e) ==
  LET p == Four(Of(e.before, e.n, "part"))
      q == Four(Of(e.after, e.n, "part"))
      d == Of(e.before, e.n, "disk")
      f == Of(e.after, e.n, "disk")
  IN  <<name>> \o [i \in 1..4 |-> Diff(p, q, i)] \o <<Diff(d, f, 4), Diff(d, f, 8)>>

(* --- the size of a directory: its files and broken links; those of the directories themselves
       and of links are the file system's, and the adapter takes them off --- *)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE (IF s[1].kind \in {"file", "broken"} THEN s[1].n ELSE 0) + Sum(Tail(s))

Step(e) ==
  CASE e.op = "line" -> Still /\ Did(e, Line(e))
    [] e.op = "lines" ->      \* lines: the last of each device
         LET L == e.lines
             D == {L[i].device : i \in DOMAIN L}
             at(d) == CHOOSE i \in DOMAIN L : L[i].device = d /\ \A j \in DOMAIN L : L[j].device = d => j <= i
         IN  Still /\ Did(e, [d \in D |-> Line(L[at(d)])] @@ [none |-> 0])
    [] e.op = "mount" -> table' = Append(table, e.m) /\ UNCHANGED tree /\ Did(e, 0)
    [] e.op = "unmount" -> /\ table # <<>> /\ table' = SubSeq(table, 1, Len(table) - 1)
                           /\ UNCHANGED tree /\ Did(e, 0)
    [] e.op = "device" -> Still /\ Did(e, Device(e.dir))
    [] e.op = "report" -> Still /\ Did(e, Report(e))
    [] e.op = "measure" -> Still /\ Did(e, <<Measured("b-overall", e), Measured("b-benchmark", e)>>)
    [] e.op = "make" -> tree' = Append(tree, e.node) /\ UNCHANGED table /\ Did(e, 0)
    [] e.op = "size" -> Still /\ Did(e, Sum(tree))

Init == table = <<>> /\ tree = <<>> /\ last = [op |-> "init", out |-> 0]
InitWith(r) == Init
Snap == [time : {3}, size : {12}, part : Parts, disk : Disks]
Snap2 == [time : {7}, size : {5}, part : Parts, disk : Disks]
Next ==
  \/ table = <<>> /\ tree = <<>> /\ \E f \in Fields : Step([op |-> "line", device |-> "sda1", fields |-> f])
  \/ tree = <<>> /\ Len(table) < MaxMounts /\ \E m \in Mounts : Step([op |-> "mount", m |-> m])
  \/ Step([op |-> "unmount"])
  \/ tree = <<>> /\ \E d \in Dirs : Step([op |-> "device", dir |-> d])
  \/ table = <<>> /\ tree = <<>> /\ \E a \in Snap, b \in Snap2, x, y \in BOOLEAN :
        Step([op |-> "report", name |-> "n", sector |-> 512, before |-> a, after |-> b, error |-> x, timeout |-> y])
  \/ Len(tree) < 2 /\ table = <<>> /\ \E k \in {"file", "broken"}, n \in Sizes, u \in 0..Len(tree) :
        (IF u = 0 THEN TRUE ELSE tree[u].kind = "dir") /\ Step([op |-> "make", node |-> [up |-> u, kind |-> k, n |-> n]])
  \/ Len(tree) < 2 /\ table = <<>> /\ \E k \in {"dir", "link"} :
        Step([op |-> "make", node |-> [up |-> 0, kind |-> k, n |-> 0]])
  \/ table = <<>> /\ Step([op |-> "size"])
  \/ table = <<>> /\ tree = <<>> /\ \E n \in Numbers, a, b \in SUBSET {"part", "disk", "less", "more"} :
        LET line(d, k) == [device |-> d, fields |-> [i \in 1..11 |-> k * i + (CASE d = "part" -> 100 [] d = "disk" -> 200 [] OTHER -> 5000)]]
            lines(S, k) == SelectSeq(<<line("less", k * 5), line("part", k), line("disk", k * 2), line("more", k * 3)>>, LAMBDA l : l.device \in S)
        IN  Step([op |-> "measure", n |-> n, before |-> lines(a, 1), after |-> lines(b, 7)])

(* What is found holds the directory, and nothing between them does. *)
Deepest == [][IF last'.op # "device" THEN TRUE
              ELSE IF last'.out = "<unknown>" THEN \A i \in DOMAIN table : ~Holds(table[i], last'.dir)
              ELSE \E i \in DOMAIN table :
                      /\ table[i].device = last'.out /\ Holds(table[i], last'.dir)
                      /\ \A j \in DOMAIN table : Holds(table[j], last'.dir) => Depth(table[j]) <= Depth(table[i])]_vars
=============================================================================
