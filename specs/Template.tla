------------------------------- MODULE Template -------------------------------
(* epsilon.asplode: a project's files from one template.

   The template is lines; a line naming a file starts it, the lines up to the
   next are its content.  Placeholders are replaced throughout.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Names, Texts, MaxLines, MaxRuns

VARIABLES template,   \* seq of [file, parts]: file is <<>> or the name's parts; parts: of the text
          disk,       \* function: files there are (as names) to their content
          day,        \* which of two it is
          runs, last

vars == <<template, disk, day, runs, last>>
View == <<template, disk, day, runs>>
Did(e, o) == last' = e @@ [out |-> o]

(* The placeholders, as the project's name, capitalised name and the date. *)
Fill(p, e) == CASE p = "_project_" -> e.name [] p = "_Project_" -> e.cap [] p = "_date_" -> day [] OTHER -> p
Filled(ps, e) == [i \in DOMAIN ps |-> Fill(ps[i], e)]

(* The files of the first i lines: st.files: set of <<name, lines>>; st.open: the current one's name. *)
RECURSIVE Lines(_, _, _)
Lines(i, e, st) ==
  IF i > Len(template) THEN st
  ELSE LET l == template[i] IN
       IF l.file # <<>>
       THEN LET n == Filled(l.file, e)
            IN  Lines(i + 1, e, [files |-> {f \in st.files : f[1] # n} \cup {<<n, <<>>>>}, open |-> n,
                                 made |-> Append(st.made, n)])
       ELSE Lines(i + 1, e, [st EXCEPT !.files = {IF f[1] = st.open THEN <<f[1], Append(f[2], Filled(l.parts, e))>> ELSE f
                                                    : f \in @}])

Step(e) ==
  CASE e.op = "line" ->     \* file, parts
         /\ (template = <<>> => e.file # <<>>)
         /\ template' = Append(template, [file |-> e.file, parts |-> e.parts]) /\ UNCHANGED <<disk, day, runs>> /\ Did(e, <<>>)
    [] e.op = "day" ->      \* to: another day dawns
         /\ day' = e.to /\ UNCHANGED <<template, disk, runs>> /\ Did(e, <<>>)
    [] e.op = "splode" ->   \* name, cap
         /\ template # <<>>
         /\ LET s == Lines(1, e, [files |-> {}, open |-> <<>>, made |-> <<>>])
                d == {f \in disk : \A g \in s.files : g[1] # f[1]} \cup s.files
            IN  disk' = d /\ runs' = runs + 1 /\ UNCHANGED <<template, day>> /\ Did(e, <<d, s.made>>)

Init == template = <<>> /\ disk = {} /\ day = "<day 1>" /\ runs = 0 /\ last = [op |-> "init", out |-> <<>>]
InitWith(r) == Init
Next ==
  \/ Len(template) < MaxLines /\ \E n \in Names : Step([op |-> "line", file |-> n, parts |-> <<>>])
  \/ Len(template) < MaxLines /\ \E t \in Texts : Step([op |-> "line", file |-> <<>>, parts |-> t])
  \/ runs > 0 /\ day = "<day 1>" /\ Step([op |-> "day", to |-> "<day 2>"])
  \/ runs < MaxRuns /\ \E n \in {"zoop", "other"} :
        Step([op |-> "splode", name |-> n, cap |-> IF n = "zoop" THEN "Zoop" ELSE "Other"])

(* No placeholder is left, and no file lost. *)
Marks == {"_project_", "_Project_", "_date_"}
NoneLeft == \A f \in disk : /\ \A i \in DOMAIN f[1] : f[1][i] \notin Marks
                            /\ \A k \in DOMAIN f[2] : \A i \in DOMAIN f[2][k] : f[2][k][i] \notin Marks
Grows == [][{f[1] : f \in disk} \subseteq {f[1] : f \in disk'}]_vars
=============================================================================
