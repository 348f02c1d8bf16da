------------------------------- MODULE Packages -------------------------------
(* epsilon.setuphelper: the packages and data files of a source tree.

   A directory with an __init__.py is a package; one without it but with a
   directory of plugins is a package for plugins.  Every other file below a top
   level package is data of it.  Hidden directories and caches of compiled
   files do not count.                                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS DirNames, FileNames, MaxDirs, MaxFiles

VARIABLES dirs,    \* seq of [up (0: the root), name]
          files,   \* set of [dir, name, bad]: a bad __init__.py cannot be imported
          last

vars == <<dirs, files, last>>
View == <<dirs, files>>
Did(e, o) == last' = e @@ [out |-> o]

Hidden == {".git", ".hidden", "__pycache__"}
(* A name which is nothing but a suffix, or of which it is not the end, is no source. *)
Source == {"__init__.py", "mod.py", "mod.pyc", "other.pyo", "a.b.py"}
RECURSIVE Path(_)
Path(d) == IF d = 0 THEN <<>> ELSE Append(Path(dirs[d].up), dirs[d].name)
RECURSIVE Visible(_)
Visible(d) == IF d = 0 THEN TRUE ELSE dirs[d].name \notin Hidden /\ Visible(dirs[d].up)
RECURSIVE Line(_)          \* d and the directories above it, without the root
Line(d) == IF d = 0 THEN {} ELSE {d} \cup Line(dirs[d].up)
Has(d, n) == \E f \in files : f.dir = d /\ f.name = n
Init_(d) == Has(d, "__init__.py")
Plugins(d) == \E k \in DOMAIN dirs : dirs[k].up = d /\ dirs[k].name = "plugins"
Seen == {d \in DOMAIN dirs : Visible(d)}
ForPlugins(d) == ~Init_(d) /\ Plugins(d)
Packages == {d \in Seen : Init_(d) \/ ForPlugins(d)}
Data(p) == {SubSeq(Path(f.dir), 2, Len(Path(f.dir))) \o <<f.name>> :
              f \in {g \in files : /\ Visible(g.dir) /\ p \in Line(g.dir) /\ g.name # "dropin.cache"
                                   /\ ~(g.name \in Source /\ Init_(g.dir))}}
Child(d) == CHOOSE k \in DOMAIN dirs : dirs[k].up = d /\ dirs[k].name = "plugins"
Importable(d) == ~\E f \in files : f.dir \in Line(d) /\ f.name = "__init__.py" /\ f.bad

Step(e) ==
  CASE e.op = "mkdir" ->     \* up, name
         /\ ~\E k \in DOMAIN dirs : dirs[k].up = e.up /\ dirs[k].name = e.name
         /\ dirs' = Append(dirs, [up |-> e.up, name |-> e.name]) /\ UNCHANGED files /\ Did(e, <<>>)
    [] e.op = "file" ->      \* dir, name, bad
         /\ ~Has(e.dir, e.name)
         /\ files' = files \cup {[dir |-> e.dir, name |-> e.name, bad |-> e.bad]} /\ UNCHANGED dirs /\ Did(e, <<>>)
    [] e.op = "setup" ->     \* install: whether it is installed, too; other: something else, after it; given: an argument also determined here
         /\ UNCHANGED <<dirs, files>>
         /\ Did(e, IF e.given THEN [refused |-> TRUE]
                   ELSE [packages |-> {Path(d) : d \in Packages},
                         data |-> {<<Path(d)[1], Data(d)>> : d \in {p \in Packages : Len(Path(p)) = 1}},
                         \* the plugins of each package for plugins are looked for, of those which work
                         cached |-> IF ~e.install THEN {}
                                    ELSE {Path(d) : d \in {p \in Packages : ForPlugins(p) /\ Importable(Child(p))}}])

Init == dirs = <<>> /\ files = {} /\ last = [op |-> "init", out |-> <<>>]
InitWith(r) == Init
Next ==
  \/ Len(dirs) < MaxDirs /\ \E u \in 0..Len(dirs), n \in DirNames :
        (u # 0 \/ n # "plugins") /\ Step([op |-> "mkdir", up |-> u, name |-> n])
  \/ Cardinality(files) < MaxFiles /\ \E d \in 0..Len(dirs), n \in FileNames :
        (d # 0 \/ n # "__init__.py") /\ Step([op |-> "file", dir |-> d, name |-> n, bad |-> FALSE])
  \/ Cardinality(files) < MaxFiles /\ \E d \in 1..Len(dirs) :
        Step([op |-> "file", dir |-> d, name |-> "__init__.py", bad |-> TRUE])
  \/ \E i \in BOOLEAN, o \in BOOLEAN : Step([op |-> "setup", install |-> i, other |-> o, given |-> FALSE])
  \/ dirs = <<>> /\ Step([op |-> "setup", install |-> FALSE, other |-> FALSE, given |-> TRUE])

(* No file belongs to two packages' data, and none which is hidden to any. *)
Apart == \A p, q \in {d \in Packages : Len(Path(d)) = 1} : p # q => Line(p) \cap Line(q) = {}
=============================================================================
