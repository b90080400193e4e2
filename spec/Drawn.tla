------------------------------- MODULE Drawn --------------------------------
(* The printed tree of a sentence: a line for each token below its root,     *)
(* every token once, drawn under its head, left dependents before right ones.*)
EXTENDS Parse

Show(d, i, side) == "[" \o side \o "]" \o d.toks[i].word \o "/" \o d.toks[i].pos \o " (" \o d.toks[i].dep \o ") {" \o d.toks[i].ent \o "}"

\* the lines of the subtree of i
RECURSIVE Lines(_, _, _)
Lines(d, i, side) ==
  LET ls == Lefts(d, i)
      cs == ls \o Rights(d, i)
      n == Len(cs)
      Under1(k) == LET sub == Lines(d, cs[k], IF k <= Len(ls) THEN "L" ELSE "R")
                       bar == IF k = n THEN "    " ELSE " |  "
                   IN [x \in DOMAIN sub |-> IF x = 1 THEN " +-- " \o sub[x] ELSE bar \o sub[x]]
  IN <<Show(d, i, side)>> \o Flat([k \in 1..n |-> Under1(k)])

\* a sentence without a root prints nothing
Drawing(d, sp) == IF Root(d, sp) = 0 THEN <<>> ELSE Lines(d, Root(d, sp), "*")

BadDrawn(o) ==
  IF o.raised # "" THEN {"raised"} ELSE
  LET d == o.text
      want == [x \in DOMAIN d.spans |-> Drawing(d, d.spans[x])]
  IN   (IF o.drawn # want THEN {"drawn"} ELSE {})
  \* as many lines as there are tokens below the root
  \cup (IF \E x \in DOMAIN d.spans : Root(d, d.spans[x]) # 0 /\ Len(want[x]) # Cardinality(Under(d, Root(d, d.spans[x]))) THEN {"law"} ELSE {})

NextDrawn == /\ l < Len(Groups[g])
             /\ l' = l + 1 /\ g' = g
             /\ \A c \in BadDrawn(Groups[g][l + 1]) : PrintT(<<"MM", g, l + 1, c>>)
SpecDrawn == Init /\ [][NextDrawn]_vars
=============================================================================
