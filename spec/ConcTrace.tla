----------------------------- MODULE ConcTrace ------------------------------
(* Decides histories recorded from several handles at work on one store at   *)
(* the same time: is there a sequential order of their operations, keeping   *)
(* the order of those that did not overlap, in which every operation answers *)
(* what it was recorded to answer?                                           *)
(*                                                                           *)
(* A trace has threads, sequences of operations; an operation has            *)
(*   lines  the operation itself, or everything that was done in a batch,    *)
(*          and what was asked and answered (as in StoreTrace)               *)
(*   after  for each other thread, how many of its operations had returned   *)
(*          when this one was called                                         *)
(* TLC searches all orders. <<"OK", trace>> is printed for a trace that has  *)
(* one; <<"AT", trace, position of each thread>> for every state reached, by *)
(* which a trace that has none can be explained.                             *)
EXTENDS Hyper, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
Universes == Data.universes
Traces == Data.traces

VARIABLES tr, pos, s
vars == <<tr, pos, s>>

Tr == Traces[tr]
U == Universes[Tr.u]
Has(o, f) == f \in DOMAIN o

SetOk(ret, exp) ==
  /\ Rng(ret) \subseteq exp
  /\ {U.cls[x] : x \in exp} = {U.cls[x] : x \in Rng(ret)}
FallOk(pairs, st) ==
  LET vis == [i \in 1..Len(pairs) |-> pairs[i][1]]
      must == st.E \cup UNION {Verts(U, e) : e \in st.E}
  IN /\ Cardinality(Rng(vis)) = Len(vis)
     /\ must \subseteq Rng(vis)
     /\ \A v \in Rng(vis) : v \in DOMAIN st.T
     /\ \A i \in 1..Len(pairs) : pairs[i][2] = Degree(U, st, vis[i])

\* the answers fit the state
Fits(o, st) ==
  /\ Has(o, "raised") => FALSE
  /\ Has(o, "ex") => Rng(o.ex) = {e \in Rng(o.exq) : e \in st.E}
  /\ Has(o, "deg") => \A v \in Ids(U) : o.deg[v] = Degree(U, st, v)
  /\ Has(o, "ts") => \A v \in Ids(U) : (TimestampSettled(st, v) => o.ts[v] = Timestamp(st, v))
  /\ Has(o, "deg1") => o.deg1[2] = Degree(U, st, o.deg1[1])
  /\ Has(o, "ts1") => (TimestampSettled(st, o.ts1[1]) => o.ts1[2] = Timestamp(st, o.ts1[1]))
  /\ Has(o, "ex1") => o.ex1[2] = (o.ex1[1] \in st.E)
  /\ Has(o, "star1") => SetOk(o.star1[2], Star(U, st, o.star1[1]))
  /\ Has(o, "star") => \A v \in Ids(U) : SetOk(o.star[v], Star(U, st, v))
  /\ Has(o, "pats") => \A i \in 1..Len(o.pats) : SetOk(o.pats[i][2], Pattern(U, st, o.pats[i][1]))
  /\ Has(o, "fall") => FallOk(o.fall, st)
  /\ Has(o, "srcs") => \A i \in 1..Len(o.srcs) : SetOk(o.srcs[i][2], Sources(U, st, o.srcs[i][1]))

\* everything of one operation, in its order: the state after it, or NoState
NoState == [no |-> TRUE]
RECURSIVE Do(_, _)
Do(lines, st) ==
  IF lines = <<>> THEN st
  ELSE IF Has(Head(lines), "raised") THEN NoState
  ELSE IF Head(lines).op = "obs"
       THEN IF Fits(Head(lines), st) THEN Do(Tail(lines), st) ELSE NoState
       ELSE Do(Tail(lines), Apply(U, st, Head(lines)))

Start == LET lines == Tr.before IN Do(lines, Empty)

Init == /\ tr \in 1..Len(Traces)
        /\ pos = [t \in 1..Len(Tr.threads) |-> 0]
        /\ s = Start

\* an operation takes effect between its call and its return: after all that had
\* returned when it was called
Linearize(t) ==
  /\ pos[t] < Len(Tr.threads[t])
  /\ LET o == Tr.threads[t][pos[t] + 1]
         after == Do(o.lines, s)
     IN /\ \A u \in 1..Len(Tr.threads) : pos[u] >= o.after[u]
        /\ after # NoState
        /\ s' = after
        /\ pos' = [pos EXCEPT ![t] = @ + 1]
        /\ tr' = tr

Next == s # NoState /\ \E t \in 1..Len(Tr.threads) : Linearize(t)
Spec == Init /\ [][Next]_vars

Done == \A t \in 1..Len(Tr.threads) : pos[t] = Len(Tr.threads[t])
\* evaluated in every state reached
Report == s = NoState \/ (IF Done THEN PrintT(<<"OK", tr>>) ELSE TRUE)
StateOk == s = NoState \/ WellFormed(U, s)
=============================================================================
