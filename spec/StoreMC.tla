------------------------------- MODULE StoreMC -------------------------------
(* The hypergraph over a small universe, explored exhaustively: the          *)
(* operations of Data.ops in any order, batches of them up to Data.depth,    *)
(* committed or given up. Checks what the properties say on the design, and  *)
(* prints every transition, so that each is replayed on the real store.      *)
EXTENDS Hyper, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
U == Data.universe
Ops == Data.ops
MaxDepth == Data.depth
Batches == IF MaxDepth > 0 THEN 1..MaxDepth ELSE {}

VARIABLES s,      \* what the handle at work sees
          com,    \* what is committed
          depth,  \* open batches
          last    \* the operation that led here: 0 begin, -1 end, -2 abort, or an index of Ops
vars == <<s, com, depth, last>>
View == <<s, com, depth>>

Init == s = Empty /\ com = Empty /\ depth = 0 /\ last = 0

Do(i) == /\ s' = Apply(U, s, Ops[i])
         /\ com' = IF depth = 0 THEN s' ELSE com
         /\ last' = i
         /\ UNCHANGED depth
Begin == /\ depth < MaxDepth
         /\ depth' = depth + 1
         /\ last' = 0
         /\ UNCHANGED <<s, com>>
End == /\ depth > 0
       /\ depth' = depth - 1
       /\ com' = IF depth = 1 THEN s ELSE com
       /\ last' = -1
       /\ UNCHANGED s
Abort == /\ depth > 0
         /\ depth' = 0 /\ s' = com
         /\ last' = -2
         /\ UNCHANGED com

Next == (\E i \in 1..Len(Ops) : Do(i)) \/ Begin \/ End \/ Abort
Spec == Init /\ [][Next]_vars

Key(a, b, d) == ToString(a) \o "#" \o ToString(b) \o "#" \o ToString(d)
ShowTransition == PrintT("TR|" \o Key(s, com, depth) \o "|" \o ToString(last') \o "|" \o Key(s', com', depth'))

---------------------------------------------------------------------------
(* What the properties say, on the design *)
Edges == {v \in Ids(U) : IsEdge(U, v)}
Patterns(n) == [1..n -> 0..Len(U.el)]

Inv == WellFormed(U, s) /\ WellFormed(U, com) /\ (depth = 0 => s = com)

\* C01: adding and removing are idempotent, inverse on presence, and touch one edge
Presence == \A e \in Edges :
  LET a == AddOne(U, s, e, 9)  r == RemoveOne(U, s, e) IN
  /\ a.E = s.E \cup {e} /\ r.E = s.E \ {e}
  /\ e \in s.E => a = s
  /\ e \notin s.E => r = s
  /\ AddOne(U, a, e, 8) = a /\ RemoveOne(U, r, e) = r
\* adding or removing several is adding or removing them one after the other
RECURSIVE FoldAdd(_, _, _), FoldRemove(_, _)
FoldAdd(st, es, ts) == IF es = <<>> THEN st ELSE FoldAdd(AddOne(U, st, Head(es), ts), Tail(es), ts)
FoldRemove(st, es) == IF es = <<>> THEN st ELSE FoldRemove(RemoveOne(U, st, Head(es)), Tail(es))
ManyLaws == \A es \in [1..2 -> Edges] \cup [1..3 -> Edges] :
  /\ AddAll(U, s, es, 9) = FoldAdd(s, es, 9)
  /\ RemoveAll(U, s, es) = FoldRemove(s, es)
\* C02: the wildcard pattern gives all edges of a size, a full pattern at most the edge itself
PatternLaws == \A n \in 2..3 :
  /\ Pattern(U, s, [i \in 1..n |-> 0]) = {e \in s.E : Len(U.el[e]) = n}
  /\ \A e \in Edges : Pattern(U, s, U.el[e]) = {e} \cap s.E
\* C03, C04: an entity has edges exactly when its degree is positive; degrees add up
DegreeLaws ==
  /\ \A v \in Ids(U) : (Star(U, s, v) # {}) <=> Degree(U, s, v) > 0
  /\ MapThenSumSet(LAMBDA v : Degree(U, s, v), Ids(U)) = MapThenSumSet(LAMBDA e : Len(U.el[e]), s.E)
  /\ \A e \in Edges, v \in Ids(U) : e \notin s.E =>
        Degree(U, AddOne(U, s, e, 9), v) = Degree(U, s, v) + Occ(U, e, v)
\* C08: sources follow assertions and retractions
BeliefLaws == \A e \in Edges, a \in Ids(U) : LinkSet(U, e, a) # {} =>
  LET b == BelieveAll(U, s, a, <<e>>, 9)  r == Retract(U, s, a, e) IN
  /\ Sources(U, b, e) = Sources(U, s, e) \cup {a} /\ e \in b.E
  /\ Sources(U, r, e) = Sources(U, s, e) \ {a}
  /\ (e \in r.E) <=> (e \in s.E /\ Sources(U, s, e) \ {a} # {})
  /\ \A f \in Edges : (f # e /\ f # Link(U, e, a)) => (f \in r.E <=> f \in s.E)

\* C05: the timestamp of a known atom never changes, except when all is erased or undone
TimestampsStay == [][(s' # Empty /\ last' # -2) =>
                      \A v \in DOMAIN s.T : ~IsEdge(U, v) => (v \in DOMAIN s'.T /\ s'.T[v] = s.T[v])]_vars
\* C09, C10, C12: others see nothing of an open batch, and all of it at its end
Isolation == [][(depth > 0 /\ depth' > 0) => com' = com]_vars
=============================================================================
