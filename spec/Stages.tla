------------------------------- MODULE Stages -------------------------------
(* The five stages that turn a parsed sentence into an edge.                 *)
(*                                                                           *)
(* A sentence T has T.tok, its tokens, each with word and lemma (texts), pos,*)
(* dep, ent (entity type), left and right (dependents, as token numbers), and*)
(* eq (tokens that are equal have the same one); and T.root.                 *)
(* A tree is a leaf [k |-> "l", t |-> token number] or a node [k |-> "n",    *)
(* c |-> children, cmp |-> is it a compound].                                *)
EXTENDS Integers, Sequences, FiniteSets

Leaf(i) == [k |-> "l", t |-> i]
Node(c) == [k |-> "n", c |-> c, cmp |-> FALSE]
Comp(c) == [k |-> "n", c |-> c, cmp |-> TRUE]
IsNode(v) == v.k = "n"
IsLeaf(v) == v.k = "l"
Terminal(v) == IsLeaf(v) \/ v.cmp
Range(f) == {f[x] : x \in DOMAIN f}

\* only words and nesting, without what recordings have in addition
RECURSIVE Bare(_)
Bare(v) == IF IsLeaf(v) THEN Leaf(v.t)
           ELSE [k |-> "n", c |-> [i \in 1..Len(v.c) |-> Bare(v.c[i])], cmp |-> v.cmp]

RECURSIVE Flat(_)   \* sequence of sequences, joined
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

RECURSIVE Leaves(_)
Leaves(v) == IF IsLeaf(v) THEN <<v.t>> ELSE Flat([i \in 1..Len(v.c) |-> Leaves(v.c[i])])

\* what is inside a compound is only its words
RECURSIVE Norm(_)
Norm(v) == IF IsLeaf(v) THEN Leaf(v.t)
           ELSE IF v.cmp THEN [k |-> "c", w |-> Leaves(v)]
           ELSE [k |-> "n", c |-> [i \in 1..Len(v.c) |-> Norm(v.c[i])]]

RECURSIVE AllCompound(_)
AllCompound(v) == IF IsLeaf(v) THEN v ELSE Comp([i \in 1..Len(v.c) |-> AllCompound(v.c[i])])

RECURSIVE SameTree(_, _, _)
SameTree(T, a, b) ==
  /\ a.k = b.k
  /\ IF IsLeaf(a) THEN T.tok[a.t].eq = T.tok[b.t].eq
     ELSE Len(a.c) = Len(b.c) /\ \A i \in 1..Len(a.c) : SameTree(T, a.c[i], b.c[i])

RECURSIVE HasPos(_, _, _)
HasPos(T, v, p) == IF IsLeaf(v) THEN T.tok[v.t].pos = p ELSE \E i \in 1..Len(v.c) : HasPos(T, v.c[i], p)


(******************************* first stage ********************************)
Modifiers == {"aux", "auxpass", "cc", "agent", "det", "advmod", "amod", "poss", "nummod"}
IntoFirst == {"pcomp", "compound"}
Skipped(T, i) == T.tok[i].dep \in {"", "punct"}
IsModifier(T, i, group) == \/ T.tok[i].dep \in Modifiers
                           \/ T.tok[i].dep = "prep" /\ ~HasPos(T, group, "VERB")

Appended(g, x) == IF IsLeaf(g) THEN Node(<<g, x>>) ELSE [g EXCEPT !.c = Append(@, x)]
AddedToFirst(g, x, left) ==
  LET cs == IF IsLeaf(g) THEN <<g>> ELSE g.c
      f == IF IsLeaf(cs[1]) THEN <<cs[1]>> ELSE cs[1].c
  IN Node(<<Node(IF left THEN <<x>> \o f ELSE Append(f, x))>> \o Tail(cs))

\* m around g: g comes after the first element of m
Wrapped(m, g) ==
  LET inner == IF IsNode(g) /\ Len(g.c) = 1 THEN g.c[1] ELSE g
  IN IF IsLeaf(m) THEN Node(<<m, inner>>)
     ELSE Node(<<m.c[1], inner>> \o Tail(m.c))
RECURSIVE WrapAll(_, _)
WrapAll(ms, g) == IF ms = <<>> THEN g ELSE Wrapped(Head(ms), WrapAll(Tail(ms), g))

(* g: the group of a word so far; out: the modifiers that go around the      *)
(* group of the nearest head that is not a modifier itself                   *)
RECURSIVE Attach(_, _, _), Group(_, _)
Attach(T, acc, todo) ==
  IF todo = <<>> THEN acc
  ELSE LET i == Head(todo)[1]
           left == Head(todo)[2]
       IN IF Skipped(T, i) THEN Attach(T, acc, Tail(todo))
          ELSE IF IsModifier(T, i, acc.g)
          THEN LET m == Group(T, i)
               IN Attach(T, [acc EXCEPT !.out = @ \o m.out \o <<m.g>>], Tail(todo))
          ELSE LET d == Group(T, i)
                   x == WrapAll(d.out, d.g)
               IN Attach(T, [acc EXCEPT !.g = IF T.tok[i].dep \in IntoFirst THEN AddedToFirst(@, x, left)
                                              ELSE Appended(@, x)], Tail(todo))
Group(T, i) ==
  LET t == T.tok[i]
      deps == [j \in 1..Len(t.left) |-> <<t.left[j], TRUE>>] \o [j \in 1..Len(t.right) |-> <<t.right[j], FALSE>>]
  IN Attach(T, [g |-> Leaf(i), out |-> <<>>], deps)

RECURSIVE Unnested(_)
Unnested(v) == IF IsLeaf(v) THEN v
               ELSE LET cs == [i \in 1..Len(v.c) |-> Unnested(v.c[i])]
                    IN IF Len(cs) = 1 /\ IsNode(cs[1]) THEN cs[1] ELSE [v EXCEPT !.c = cs]

Alpha(T) == LET r == Group(T, T.root) IN Unnested(WrapAll(r.out, r.g))

\* the words that count: all but punctuation and unlabelled ones, with what depends on them
RECURSIVE Words(_, _)
Words(T, i) == {i} \cup UNION {IF Skipped(T, j) THEN {} ELSE Words(T, j) : j \in Range(T.tok[i].left) \cup Range(T.tok[i].right)}

(******************************* second stage *******************************)
CompoundDeps == {"pobj", "compound", "dobj", "nsubj"}
ByType(T, v) == /\ \A i \in 1..Len(v.c) : IsLeaf(v.c[i])
                /\ T.tok[v.c[1].t].ent # ""
                /\ \A i \in 1..Len(v.c) : T.tok[v.c[i].t].ent = T.tok[v.c[1].t].ent
ByDeps(T, v) == \A t \in Range(Leaves(v)) : T.tok[t].dep \in CompoundDeps
RECURSIVE Beta(_, _)
Beta(T, v) == IF IsLeaf(v) THEN v
              ELSE IF ByType(T, v) \/ ByDeps(T, v) THEN AllCompound(v)
              ELSE Node([i \in 1..Len(v.c) |-> Beta(T, v.c[i])])

(******************************* third stage ********************************)
RelPos == {"VERB", "ADV", "ADP", "PART"}
IsRel(T, v) == \A t \in Range(Leaves(v)) : T.tok[t].pos \in RelPos
Determiner(T, v) == /\ IsLeaf(v) /\ T.tok[v.t].pos = "DET"
                    /\ T.tok[v.t].art      \* its lemma is the, a or an
RECURSIVE IntoHead(_, _)
IntoHead(x, v) ==
  IF IsNode(v.c[1]) /\ ~v.c[1].cmp THEN [v EXCEPT !.c[1] = IntoHead(x, @)]
  ELSE [v EXCEPT !.c[1] = AllCompound(Node(<<x, @>>))]
GammaOne(T, v) ==
  IF (\A i \in 1..Len(v.c) : IsLeaf(v.c[i])) /\ IsRel(T, v) THEN AllCompound(v)
  ELSE IF Len(v.c) # 2 THEN v
  ELSE IF Determiner(T, v.c[1]) THEN v.c[2]
  ELSE IF IsNode(v.c[2]) /\ ~v.c[2].cmp /\ IsRel(T, v.c[1]) /\ IsRel(T, v.c[2].c[1]) THEN IntoHead(v.c[1], v.c[2])
  ELSE v
RECURSIVE Gamma(_, _)
Gamma(T, v) == IF IsLeaf(v) THEN v
               ELSE GammaOne(T, [v EXCEPT !.c = [i \in 1..Len(v.c) |-> Gamma(T, v.c[i])]])

(******************************* fourth stage *******************************)
Arity(v) == IF Terminal(v) THEN 1 ELSE Len(v.c)
RECURSIVE Flattened(_)
Flattened(v) ==
  IF IsLeaf(v) THEN v
  ELSE [v EXCEPT !.c = Flat([i \in 1..Len(v.c) |->
                               LET f == Flattened(v.c[i]) IN IF Terminal(f) THEN <<f>> ELSE f.c])]

Front(s) == SubSeq(s, 1, Len(s) - 1)
\* the ways to merge the relation r of a parameter into the relation l
Before(l, r, first) == IF first THEN <<Node(<<r, l>>)>> ELSE <<>>
AsCompound(l, r) == IF Terminal(l) /\ Terminal(r) THEN <<AllCompound(Node(<<l, r>>))>> ELSE <<>>
AtCenter(l, r) ==
  IF Terminal(l) /\ Terminal(r) THEN <<>>
  ELSE LET la == IF Terminal(l) THEN <<>> ELSE Front(l.c)
           lb == IF Terminal(l) THEN l ELSE l.c[Len(l.c)]
           ra == IF Terminal(r) THEN r ELSE r.c[1]
           rb == IF Terminal(r) THEN <<>> ELSE Tail(r.c)
       IN <<Node(la \o <<AllCompound(Node(<<lb, ra>>))>> \o rb)>>
IntoRelation(l, r) ==
  IF Terminal(r) THEN <<Node((IF Terminal(l) THEN <<l>> ELSE l.c) \o <<r>>)>> ELSE <<>>

RECURSIVE Readings(_, _), Extend(_, _, _)
Readings(T, v) ==
  IF IsLeaf(v) THEN <<v>> ELSE Extend(T, Node(<<v.c[1]>>), Tail(v.c))
Extend(T, w, todo) ==
  IF todo = <<>> THEN <<[w EXCEPT !.c[1] = Flattened(@)]>>
  ELSE LET child == Head(todo)
           rs == Readings(T, child)
           kept == Extend(T, [w EXCEPT !.c = Append(@, child)], Tail(todo))
           merged(r) ==
             IF IsNode(r) /\ IsRel(T, r.c[1])
             THEN LET rels == Before(w.c[1], r.c[1], Len(w.c) = 1) \o AsCompound(w.c[1], r.c[1])
                              \o AtCenter(w.c[1], r.c[1]) \o IntoRelation(w.c[1], r.c[1])
                  IN Flat([i \in 1..Len(rels) |->
                             Extend(T, [w EXCEPT !.c = <<rels[i]>> \o Tail(@) \o Tail(r.c)], Tail(todo))])
             ELSE <<>>
       IN Flat([i \in 1..Len(rs) |-> merged(rs[i]) \o kept])

PartOf(T, rel, part) == \E a \in Range(Leaves(rel)), b \in Range(Leaves(part)) : T.tok[a].eq = T.tok[b].eq
RECURSIVE DirectlyUnder(_, _, _, _)
DirectlyUnder(T, v, part, x) ==
  /\ Arity(v) >= 2
  /\ \/ PartOf(T, v.c[1], part) /\ \E i \in 2..Len(v.c) : SameTree(T, v.c[i], x)
     \/ \E i \in 2..Len(v.c) : DirectlyUnder(T, v.c[i], part, x)

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Min(a, b) == IF a < b THEN a ELSE b
Fit(T, v, original) ==
  LET rel == v.c[1]
      n == Len(v.c)
      count == Min(Arity(rel), n - 2)
      points(i) == (IF i = 1 /\ DirectlyUnder(T, original, rel.c[1], v.c[2]) THEN 100 ELSE 0)
                   + (IF DirectlyUnder(T, original, rel.c[i], v.c[i + 2]) THEN 100 ELSE 0)
  IN (IF (Arity(rel) = 1 /\ n = 2) \/ Arity(rel) = n - 2 THEN 1000 ELSE 0)
     + (IF Terminal(rel) \/ count < 1 THEN 0 ELSE Sum([i \in 1..count |-> points(i)]))
RECURSIVE Best(_, _, _, _, _)
Best(T, rs, original, best, fit) ==
  IF rs = <<>> THEN best
  ELSE LET f == Fit(T, Head(rs), original)
       IN IF f > fit THEN Best(T, Tail(rs), original, Head(rs), f)
          ELSE Best(T, Tail(rs), original, best, fit)
HeadedByRel(T, v) == ~Terminal(v) /\ IsRel(T, v.c[1])
Delta(T, v) == IF HeadedByRel(T, v)
               THEN LET rs == Readings(T, v) IN Best(T, rs, v, rs[1], -1)
               ELSE v

(******************************** last stage ********************************)
\* an edge: symbols are texts, edges are sequences of symbols and edges
Underscore == <<95>>
RECURSIVE Joined(_, _)
Joined(ts, sep) == IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o sep \o Joined(Tail(ts), sep)
RECURSIVE Epsilon(_, _, _)
\* ns: the namespace of words, with a slash
Epsilon(T, v, ns) ==
  IF IsLeaf(v) THEN [k |-> "s", t |-> T.tok[v.t].word \o ns]
  ELSE IF v.cmp THEN LET ls == Leaves(v)
                     IN [k |-> "s", t |-> Joined([i \in 1..Len(ls) |-> T.tok[ls[i]].word], Underscore) \o <<47, 63>>]
  ELSE [k |-> "e", c |-> [i \in 1..Len(v.c) |-> Epsilon(T, v.c[i], ns)]]

\* with a namespace of its own for each word
RECURSIVE EpsilonNs(_, _)
EpsilonNs(T, v) ==
  IF IsLeaf(v) THEN [k |-> "s", t |-> T.tok[v.t].word \o <<47>> \o v.nst]
  ELSE IF v.cmp THEN Epsilon(T, v, <<>>)
  ELSE [k |-> "e", c |-> [i \in 1..Len(v.c) |-> EpsilonNs(T, v.c[i])]]

RECURSIVE Show(_, _)
Show(T, v) ==
  IF IsLeaf(v) THEN T.tok[v.t].word
  ELSE LET ss == [i \in 1..Len(v.c) |-> Show(T, v.c[i])]
       IN IF v.cmp THEN Joined(ss, Underscore) ELSE <<40>> \o Joined(ss, <<32>>) \o <<41>>
=============================================================================
