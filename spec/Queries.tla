------------------------------ MODULE Queries -------------------------------
(* Neighbourhoods, and the intersection of entities, over the stored edges E *)
(* of a universe U (see Hyper).                                              *)
EXTENDS Hyper

Participants(U, e) == {U.el[e][i] : i \in 2..Len(U.el[e])}
Having(U, E, vs) == {e \in E : Verts(U, e) \cap vs # {}}

\* a step leads from entities to the edges that have them, and to the participants of these
RECURSIVE Reach(_, _, _, _)
Reach(U, E, vs, n) ==
  IF n = 0 THEN {}
  ELSE LET es == Having(U, E, vs)
       IN es \cup Reach(U, E, UNION {Participants(U, e) : e \in es}, n - 1)
Ego(U, E, v, n) == Reach(U, E, {v}, n)

Limit == 250
Deg(U, E, v) == MapThenSumSet(LAMBDA e : Occ(U, e, v), E)
Usable(U, E, seeds) ==
  LET near == UNION {Ego(U, E, v, 2) : v \in seeds}
      crowded == {v \in UNION {Participants(U, e) : e \in near} : Deg(U, E, v) > Limit}
  IN {e \in near : Participants(U, e) \cap crowded = {}}

RECURSIVE Connections(_, _, _)
Connections(nb, seeds, w) ==
  IF seeds \subseteq Rng(w) THEN {w}
  ELSE LET last == w[Len(w)]
           next == (IF last \in DOMAIN nb THEN nb[last] ELSE {}) \ Rng(w)
       IN UNION {Connections(nb, seeds, Append(w, v)) : v \in next}

Intersect(U, E, seeds) ==   \* a sequence of seeds
  LET set == Rng(seeds)
      us == Usable(U, E, set)
      verts == UNION {Participants(U, e) : e \in us}
      nb == [v \in verts |-> UNION {Participants(U, e) : e \in {x \in us : v \in Participants(U, x)}}]
      cs == Connections(nb, set, <<seeds[1]>>)
      kept == {c \in cs : \A v \in Rng(c) \ set :
                              ~\E d \in cs : Len(d) < Len(c) /\ v \in Rng(d)}
      on == UNION {Rng(c) : c \in kept}
  IN {e \in us : Participants(U, e) \subseteq on}
=============================================================================
