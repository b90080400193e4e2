------------------------------- MODULE TreeOps ------------------------------
(* Semantic trees as they are edited: places (references) and what they hold.*)
(* A place holds a leaf [k |-> "l", t |-> token] or a node [k |-> "n",       *)
(* c |-> places of its children, cmp |-> compound, ls |-> places of the      *)
(* layers to apply]. Editing an element changes what its place holds, so that*)
(* whatever refers to the place finds the result.                            *)
(*                                                                           *)
(* Decides recorded edits: after each, what every place holds, unfolded.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
Groups == Data.groups
VARIABLES g, tr, l,
          h,     \* what the places hold: a sequence
          names, \* the places that the recorder refers to, in the order it got to know them
          gone   \* names that are not used any more
vars == <<g, tr, l, h, names, gone>>
Has(o, f) == f \in DOMAIN o
Range(f) == {f[x] : x \in DOMAIN f}

LeafOf(t) == [k |-> "l", t |-> t]
NodeOf(c) == [k |-> "n", c |-> c, cmp |-> FALSE, ls |-> <<>>]
IsNode(x) == x.k = "n"
Terminal(x) == ~IsNode(x) \/ x.cmp

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

\* what is at a place, unfolded
RECURSIVE Value(_, _)
Value(hp, p) == IF IsNode(hp[p]) THEN [k |-> "n", c |-> [i \in 1..Len(hp[p].c) |-> Value(hp, hp[p].c[i])], cmp |-> hp[p].cmp]
                ELSE hp[p]
RECURSIVE LeavesAt(_, _)
LeavesAt(hp, p) == IF IsNode(hp[p]) THEN Flat([i \in 1..Len(hp[p].c) |-> LeavesAt(hp, hp[p].c[i])]) ELSE <<hp[p].t>>

\* results are records of the places hp, and r, the place that came out of it
New(hp, x) == [hp |-> Append(hp, x), r |-> Len(hp) + 1]

\* a group with just this element takes its place
Enclose(hp, p) == [Append(hp, hp[p]) EXCEPT ![p] = NodeOf(<<Len(hp) + 1>>)]
Disenclose(hp, p) == [hp EXCEPT ![p] = hp[hp[p].c[1]]]

AddChild(hp, p, x) ==
  LET e == IF IsNode(hp[p]) THEN hp ELSE Enclose(hp, p) IN [e EXCEPT ![p].c = Append(@, x)]

AddToFirst(hp, p, x, left) ==
  LET e == IF IsNode(hp[p]) THEN hp ELSE Enclose(hp, p)
      f == e[p].c[1]
      e2 == IF Terminal(e[f]) THEN Enclose(e, f) ELSE e
  IN [e2 EXCEPT ![f].c = IF left THEN <<x>> \o @ ELSE Append(@, x)]

\* x around p, once layers are applied: its first element, what it goes around (0), and the rest
Nest(hp, p, x) ==
  LET e == IF IsNode(hp[p]) THEN hp ELSE Enclose(hp, p)
      layer == NodeOf(IF IsNode(e[x]) THEN <<e[x].c[1], 0>> \o Tail(e[x].c) ELSE <<x, 0>>)
      n == New(e, layer)
  IN [n.hp EXCEPT ![p].ls = Append(@, n.r)]

\* the children of p with its layers, the first one outermost
RECURSIVE Layered(_, _, _)
Layered(hp, ls, c) ==
  IF ls = <<>> THEN [hp |-> hp, c |-> c]
  ELSE LET last == ls[Len(ls)]
           n == IF Len(c) = 1 THEN [hp |-> hp, r |-> c[1]] ELSE New(hp, NodeOf(c))
           c2 == [i \in 1..Len(n.hp[last].c) |-> IF n.hp[last].c[i] = 0 THEN n.r ELSE n.hp[last].c[i]]
       IN Layered(n.hp, SubSeq(ls, 1, Len(ls) - 1), c2)
ApplyLayers(hp, p) ==
  IF ~IsNode(hp[p]) THEN hp
  ELSE LET r == Layered(hp, hp[p].ls, hp[p].c) IN [r.hp EXCEPT ![p].c = r.c, ![p].ls = <<>>]

RECURSIVE Flatten(_, _), FlattenAll(_, _)
FlattenAll(hp, ps) == IF ps = <<>> THEN hp ELSE FlattenAll(Flatten(hp, Head(ps)), Tail(ps))
Flatten(hp, p) ==
  IF ~IsNode(hp[p]) THEN hp
  ELSE LET e == FlattenAll(hp, hp[p].c)
       IN [e EXCEPT ![p].c = Flat([i \in 1..Len(e[p].c) |-> LET q == e[p].c[i] IN IF Terminal(e[q]) THEN <<q>> ELSE e[q].c])]

\* a copy, sharing only leaves
RECURSIVE Clone(_, _), CloneAll(_, _, _)
CloneAll(hp, ps, acc) == IF ps = <<>> THEN [hp |-> hp, c |-> acc]
                         ELSE LET r == Clone(hp, Head(ps)) IN CloneAll(r.hp, Tail(ps), Append(acc, r.r))
Clone(hp, p) ==
  IF ~IsNode(hp[p]) THEN [hp |-> hp, r |-> p]
  ELSE LET r == CloneAll(hp, hp[p].c, <<>>)
       IN New(r.hp, [NodeOf(r.c) EXCEPT !.cmp = hp[p].cmp])

RECURSIVE Unnest(_, _), UnnestAll(_, _)
UnnestAll(hp, ps) == IF ps = <<>> THEN hp ELSE UnnestAll(Unnest(hp, Head(ps)), Tail(ps))
Unnest(hp, p) ==
  IF ~IsNode(hp[p]) THEN hp
  ELSE LET e == UnnestAll(hp, hp[p].c)
       IN IF Len(e[p].c) = 1 /\ IsNode(e[e[p].c[1]]) THEN Disenclose(e, p) ELSE e

RECURSIVE SetCompound(_, _, _), SetAll(_, _, _)
SetAll(hp, ps, b) == IF ps = <<>> THEN hp ELSE SetAll(SetCompound(hp, Head(ps), b), Tail(ps), b)
SetCompound(hp, p, b) == IF ~IsNode(hp[p]) THEN hp ELSE SetAll([hp EXCEPT ![p].cmp = b], hp[p].c, b)

\* the same shape and words; tokens are compared by what makes them equal
Tr == Groups[g][tr]
RECURSIVE Alike(_, _, _)
Alike(hp, p, q) ==
  /\ hp[p].k = hp[q].k
  /\ IF IsNode(hp[p]) THEN Len(hp[p].c) = Len(hp[q].c) /\ \A i \in 1..Len(hp[p].c) : Alike(hp, hp[p].c[i], hp[q].c[i])
     ELSE Tr.eq[hp[p].t] = Tr.eq[hp[q].t]

RECURSIVE Joined(_, _)
Joined(ts, sep) == IF Len(ts) = 0 THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o sep \o Joined(Tail(ts), sep)
RECURSIVE Show(_, _)
Show(hp, p) ==
  IF ~IsNode(hp[p]) THEN Tr.words[hp[p].t]
  ELSE LET ss == [i \in 1..Len(hp[p].c) |-> Show(hp, hp[p].c[i])]
       IN IF hp[p].cmp THEN Joined(ss, <<95>>) ELSE <<40>> \o Joined(ss, <<32>>) \o <<41>>
Arity(x) == IF Terminal(x) THEN 1 ELSE Len(x.c)

\* the kinds (parts of speech, or dependencies) to be found in it, and directly in it; a leaf is in itself
Kinds(hp, p, kind) == {kind[t] : t \in Range(LeavesAt(hp, p))}
Direct(hp, p, kind) == IF ~IsNode(hp[p]) THEN {kind[hp[p].t]}
                       ELSE {kind[hp[hp[p].c[i]].t] : i \in {j \in 1..Len(hp[p].c) : ~IsNode(hp[hp[p].c[j]])}}
HasOk(hp, p, s) == /\ Range(s[2]) = Kinds(hp, p, Tr.pos) /\ Range(s[3]) = Direct(hp, p, Tr.pos)
                   /\ Range(s[4]) = Kinds(hp, p, Tr.dep) /\ Range(s[5]) = Direct(hp, p, Tr.dep)

Line == Tr.lines[l]
P(n) == names[n]

\* the places after the operation, and the place that is new to the recorder, if any
After ==
  LET o == Line
      same(hp) == [hp |-> hp, r |-> 0]
  IN CASE o.op = "leaf" -> New(h, LeafOf(o.t))
       [] o.op = "node" -> New(h, NodeOf([i \in 1..Len(o.c) |-> P(o.c[i])]))
       [] o.op = "enclose" -> LET e == Enclose(h, P(o.p)) IN [hp |-> e, r |-> e[P(o.p)].c[1]]
       [] o.op = "disenclose" -> same(Disenclose(h, P(o.p)))
       [] o.op = "addchild" -> same(AddChild(h, P(o.p), P(o.x)))
       [] o.op = "addtofirst" -> same(AddToFirst(h, P(o.p), P(o.x), o.left))
       [] o.op = "nest" -> same(Nest(h, P(o.p), P(o.x)))
       [] o.op = "apply" -> same(ApplyLayers(h, P(o.p)))
       [] o.op = "flatten" -> same(Flatten(h, P(o.p)))
       [] o.op = "clone" -> Clone(h, P(o.p))
       [] o.op = "unnest" -> same(Unnest(h, P(o.p)))
       [] o.op = "compound" -> same(SetCompound(h, P(o.p), o.b))
       [] OTHER -> same(h)

\* laws: what each operation does to the words at its place
LawOk(a) ==
  LET o == Line IN
  CASE o.op \in {"enclose", "flatten", "unnest", "compound"} -> LeavesAt(a.hp, P(o.p)) = LeavesAt(h, P(o.p))
    [] o.op = "addchild" -> LeavesAt(a.hp, P(o.p)) = LeavesAt(h, P(o.p)) \o LeavesAt(h, P(o.x))
    [] o.op = "addtofirst" /\ o.left -> LeavesAt(a.hp, P(o.p)) = LeavesAt(h, P(o.x)) \o LeavesAt(h, P(o.p))
    [] o.op = "clone" -> Value(a.hp, a.r) = Value(h, P(o.p))
    [] OTHER -> TRUE

Bad(a) ==
  LET o == Line IN
  (IF Has(o, "raised") THEN {"raised"} ELSE {})
  \cup (IF Has(o, "vals") /\ \E i \in 1..Len(o.vals) : o.vals[i][2] # Value(a.hp, names[o.vals[i][1]]) THEN {o.op} ELSE {})
  \cup (IF Has(o, "newval") /\ o.newval # Value(a.hp, a.r) THEN {o.op} ELSE {})
  \cup (IF Has(o, "shown") /\ \E i \in 1..Len(o.shown) : o.shown[i][2] # Show(a.hp, names[o.shown[i][1]]) THEN {"show"} ELSE {})
  \cup (IF Has(o, "flat") /\ \E i \in 1..Len(o.flat) : o.flat[i][2] # LeavesAt(a.hp, names[o.flat[i][1]]) THEN {"words"} ELSE {})
  \cup (IF Has(o, "arity") /\ \E i \in 1..Len(o.arity) : o.arity[i][2] # Arity(a.hp[names[o.arity[i][1]]]) THEN {"arity"} ELSE {})
  \cup (IF Has(o, "has") /\ \E i \in 1..Len(o.has) : ~HasOk(a.hp, names[o.has[i][1]], o.has[i]) THEN {"has"} ELSE {})
  \cup (IF o.op = "eq" /\ (o.eq # Alike(h, P(o.p), P(o.x)) \/ o.ne = o.eq) THEN {"eq"} ELSE {})
  \cup (IF ~LawOk(a) THEN {"law"} ELSE {})

Init == /\ g \in 1..Len(Groups) /\ tr = 1 /\ l = 1
        /\ h = <<>> /\ names = <<>> /\ gone = {}
Next == /\ g' = g /\ gone' = gone
        /\ IF l <= Len(Tr.lines)
           THEN /\ LET a == After
                   IN /\ h' = a.hp
                      /\ names' = IF Has(Line, "new") THEN Append(names, a.r) ELSE names
                      /\ \A c \in Bad(a) : PrintT(<<"MM", g, tr, l, c>>)
                /\ l' = l + 1 /\ tr' = tr
           ELSE /\ tr < Len(Groups[g])
                /\ tr' = tr + 1 /\ l' = 1 /\ h' = <<>> /\ names' = <<>>
Spec == Init /\ [][Next]_vars
=============================================================================
