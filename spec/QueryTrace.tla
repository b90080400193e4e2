----------------------------- MODULE QueryTrace -----------------------------
(* Decides recorded neighbourhoods and intersections.                        *)
EXTENDS Queries, TLC, Json, IOUtils

Groups == JsonDeserialize(IOEnv.DATA).groups
VARIABLES g, l
vars == <<g, l>>
Has(o, f) == f \in DOMAIN o

\* one store (u, E) and what was asked of it
Bad(o) ==
  LET U == o.u
      E == Rng(o.E)
  IN IF Has(o, "raised") THEN {"raised"} ELSE
       (IF Has(o, "egos") /\ \E i \in 1..Len(o.egos) :
             Rng(o.egos[i][3]) # Ego(U, E, o.egos[i][1], o.egos[i][2]) THEN {"ego"} ELSE {})
  \cup (IF Has(o, "inters") /\ \E i \in 1..Len(o.inters) :
             Rng(o.inters[i][2]) # Intersect(U, E, o.inters[i][1]) THEN {"intersect"} ELSE {})
  \* the store was not changed by the questions
  \cup (IF o.before # o.after THEN {"changed"} ELSE {})
  \* laws of the specification: growing, empty at depth 0, for what has no edges
  \cup (IF Has(o, "egos") /\ \E i \in 1..Len(o.egos) :
             LET v == o.egos[i][1]  n == o.egos[i][2]
             IN \/ ~(Ego(U, E, v, n) \subseteq Ego(U, E, v, n + 1))
                \/ n = 0 /\ Ego(U, E, v, n) # {}
                \/ Having(U, E, {v}) = {} /\ Ego(U, E, v, n) # {}
        THEN {"law"} ELSE {})

Init == g \in 1..Len(Groups) /\ l = 0
Next == /\ l < Len(Groups[g])
        /\ l' = l + 1 /\ g' = g
        /\ \A c \in Bad(Groups[g][l + 1]) : PrintT(<<"MM", g, l + 1, c>>)
Spec == Init /\ [][Next]_vars
=============================================================================
