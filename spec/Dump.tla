-------------------------------- MODULE Dump --------------------------------
(* The filter of wiki dumps.                                                 *)
(*                                                                           *)
(* A dump is a sequence of lines [k |-> kind, s |-> text, t |-> code points  *)
(* of the title]: "open" a page, "title", "close" it, or "text". What must   *)
(* come out is defined by the pages of the dump (Kept). A machine that reads *)
(* one line after the other with three states, as the script does, is run    *)
(* along: it refines the definition on every dump (clause "law").            *)
(*                                                                           *)
(* Decides recorded runs of the script.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
Groups == Data.groups
VARIABLES g, l
vars == <<g, l>>
Rng(f) == {f[x] : x \in DOMAIN f}
Colon == 58
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

\* the pages: pairs of the numbers of their opening and closing lines; a page opens where none is open. A page that
\* the dump ends in goes to the end.
RECURSIVE PagesFrom(_, _)
PagesFrom(ls, i) ==
  IF i > Len(ls) THEN {}
  ELSE IF ls[i].k # "open" THEN PagesFrom(ls, i + 1)
  ELSE LET ends == {j \in (i + 1)..Len(ls) : ls[j].k = "close"}
           e == IF ends = {} THEN Len(ls) ELSE Least(ends)
       IN {<<i, e>>} \cup PagesFrom(ls, e + 1)
Title(ls, p) == LET ts == {j \in p[1]..p[2] : ls[j].k = "title"} IN ls[Least(ts)].t
Main(title) == Colon \notin Rng(title)
Kept(ls) == LET out == {p \in PagesFrom(ls, 1) : ~Main(Title(ls, p))}
            IN {i \in 1..Len(ls) : \A p \in out : ~(p[1] <= i /\ i <= p[2])}

\* the machine
Step(m, ln, i) ==
  CASE m.st = "page" -> IF ln.k = "open" THEN [m EXCEPT !.st = "title", !.buf = {i}] ELSE [m EXCEPT !.out = @ \cup {i}]
    [] m.st = "title" -> IF ln.k # "title" THEN [m EXCEPT !.buf = @ \cup {i}]
                         ELSE IF Main(ln.t) THEN [st |-> "page", buf |-> {}, out |-> m.out \cup m.buf \cup {i}]
                         ELSE [m EXCEPT !.st = "close", !.buf = {}]
    [] m.st = "close" -> IF ln.k = "close" THEN [m EXCEPT !.st = "page"] ELSE m
RECURSIVE RunFrom(_, _, _)
RunFrom(m, ls, i) == IF i > Len(ls) THEN m ELSE RunFrom(Step(m, ls[i], i), ls, i + 1)
Machine(ls) == RunFrom([st |-> "page", buf |-> {}, out |-> {}], ls, 1).out

RECURSIVE Cat(_, _, _)
Cat(ls, is, i) == IF i > Len(ls) THEN "" ELSE (IF i \in is THEN ls[i].s ELSE "") \o Cat(ls, is, i + 1)

Bad(o) ==
  IF o.raised # "" THEN {"raised"} ELSE
  LET kept == Kept(o.lines) IN
       (IF o.out # Cat(o.lines, kept, 1) THEN {"output"} ELSE {})
  \cup (IF Machine(o.lines) # kept THEN {"law"} ELSE {})

Init == g \in 1..Len(Groups) /\ l = 0
Next == /\ l < Len(Groups[g])
        /\ l' = l + 1 /\ g' = g
        /\ \A c \in Bad(Groups[g][l + 1]) : PrintT(<<"MM", g, l + 1, c>>)
Spec == Init /\ [][Next]_vars
=============================================================================
