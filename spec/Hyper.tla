------------------------------- MODULE Hyper -------------------------------
(* The hypergraph as its users see it: a set of edges, and the moment each   *)
(* vertex appeared. Everything else (degrees, queries, beliefs) follows.     *)
(*                                                                           *)
(* Vertices are numbers 1..N of a universe U, a record of                    *)
(*   el   el[v] is << >> for an atom, the vertices it is made of for an edge *)
(*   cls  vertices that Python takes for equal (7 and 7.0) have the same cls *)
(*   txt  the code points of a concept symbol, << >> for anything else       *)
(*   src  the vertex src/1, first element of the links of beliefs, or 0      *)
(* A state is a record of                                                    *)
(*   E   the stored edges                                                    *)
(*   T   the timestamp of each vertex introduced since the last erasure      *)
(*   M   edges introduced as elements of other edges, since their own last   *)
(*       removal: as long as they are not stored themselves, what their      *)
(*       timestamp is is left open                                           *)
(* All operators are total.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Rng(f) == {f[x] : x \in DOMAIN f}
Ids(U) == 1..Len(U.el)
IsEdge(U, v) == Len(U.el[v]) > 0
Verts(U, e) == Rng(U.el[e])
Occ(U, e, v) == Cardinality({i \in 1..Len(U.el[e]) : U.el[e][i] = v})

Empty == [E |-> {}, T |-> <<>>, M |-> {}]

(***************************** what is observed *****************************)
Exists(s, e) == e \in s.E
Degree(U, s, v) == MapThenSumSet(LAMBDA e : Occ(U, e, v), s.E)
TimestampSettled(s, v) == v \in s.E \/ v \notin s.M
Timestamp(s, v) == IF v \in DOMAIN s.T THEN s.T[v] ELSE -1
\* a pattern is a sequence of vertices and wildcards (0)
Matches(U, e, p) == /\ Len(U.el[e]) = Len(p)
                    /\ \A i \in 1..Len(p) : p[i] # 0 => U.el[e][i] = p[i]
Pattern(U, s, p) == {e \in s.E : Matches(U, e, p)}
Star(U, s, v) == {e \in s.E : v \in Verts(U, e)}
\* root r (code points) followed by a slash
HasRoot(U, v, r) == /\ Len(U.txt[v]) > Len(r)
                    /\ SubSeq(U.txt[v], 1, Len(r) + 1) = r \o <<47>>
RootSymbols(U, s, r) == {v \in UNION {Verts(U, e) : e \in s.E} : HasRoot(U, v, r)}
LinkSet(U, e, a) == {x \in Ids(U) : U.el[x] = <<U.src, e, a>>}
Link(U, e, a) == CHOOSE x \in LinkSet(U, e, a) : TRUE
Sources(U, s, e) == {U.el[x][3] : x \in Pattern(U, s, <<U.src, e, 0>>)}

(******************************** operations ********************************)
AddOne(U, s, e, ts) ==
  IF e \in s.E THEN s
  ELSE [E |-> s.E \cup {e},
        T |-> [v \in (DOMAIN s.T) \cup Verts(U, e) \cup {e} |->
                 IF v = e THEN ts                      \* when the edge was added
                 ELSE IF v \in DOMAIN s.T THEN s.T[v]  \* kept from its first appearance
                 ELSE ts],
        M |-> s.M \cup {v \in Verts(U, e) : IsEdge(U, v)}]

RemoveOne(U, s, e) ==
  IF e \notin s.E THEN s
  ELSE [E |-> s.E \ {e}, T |-> [s.T EXCEPT ![e] = -1], M |-> s.M \ {e}]

\* one after the other (StoreMC checks that this is so)
AddSet(U, s, es, ts) ==
  LET new == es \ s.E
      vs == UNION {Verts(U, e) : e \in new}
  IN IF new = {} THEN s
     ELSE [E |-> s.E \cup new,
           T |-> [v \in (DOMAIN s.T) \cup vs \cup new |->
                    IF v \notin new /\ v \in DOMAIN s.T THEN s.T[v] ELSE ts],
           M |-> s.M \cup {v \in vs : IsEdge(U, v)}]
AddAll(U, s, es, ts) == AddSet(U, s, Rng(es), ts)

RemoveSet(U, s, es) ==
  LET gone == es \cap s.E
  IN IF gone = {} THEN s
     ELSE [E |-> s.E \ gone,
           T |-> [v \in DOMAIN s.T |-> IF v \in gone THEN -1 ELSE s.T[v]],
           M |-> s.M \ gone]
RemoveAll(U, s, es) == RemoveSet(U, s, Rng(es))

RECURSIVE BelieveAll(_, _, _, _, _)
BelieveAll(U, s, a, es, ts) ==
  IF es = <<>> THEN s
  ELSE LET e == Head(es) IN
       BelieveAll(U, AddOne(U, AddOne(U, s, e, ts), Link(U, e, a), ts), a, Tail(es), ts)

Retract(U, s, a, e) ==
  LET s2 == RemoveOne(U, s, Link(U, e, a)) IN
  IF Sources(U, s2, e) = {} THEN RemoveOne(U, s2, e) ELSE s2

RemovePattern(U, s, p) == RemoveSet(U, s, Pattern(U, s, p))

\* one operation, as recorded
Apply(U, s, o) ==
  CASE o.op = "add" -> AddAll(U, s, o.es, o.ts)
    [] o.op = "rem" -> RemoveAll(U, s, o.es)
    [] o.op = "bel" -> BelieveAll(U, s, o.a, o.es, o.ts)
    [] o.op = "unbel" -> Retract(U, s, o.a, o.es[1])
    [] o.op = "rmpat" -> RemovePattern(U, s, o.p)
    [] o.op = "destroy" -> Empty
    [] OTHER -> s

RECURSIVE ApplyAll(_, _, _)
ApplyAll(U, s, os) == IF os = <<>> THEN s ELSE ApplyAll(U, Apply(U, s, Head(os)), Tail(os))

(************************ invariants of all states **************************)
WellFormed(U, s) ==
  /\ s.E \subseteq Ids(U)
  /\ DOMAIN s.T \subseteq Ids(U)
  /\ s.M \subseteq DOMAIN s.T
  /\ \A e \in s.E : e \in DOMAIN s.T /\ Verts(U, e) \subseteq DOMAIN s.T
=============================================================================
