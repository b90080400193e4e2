----------------------------- MODULE StoreTrace -----------------------------
(* Decides recorded executions of the real store. Each line of a trace is an *)
(* operation, with its arguments, or an observation, with everything that    *)
(* was asked and answered. The operations drive the abstract hypergraph, and *)
(* each observation is compared with it, clause by clause. A verdict is      *)
(* total: a mismatch is printed as <<"MM", trace, line, clause>> and the rest*)
(* of the trace is still checked.                                            *)
EXTENDS Hyper, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
Universes == Data.universes
Traces == Data.traces

VARIABLES tr,   \* the trace
          l,    \* the next line
          s,    \* the hypergraph as the handle at work sees it
          com,  \* as everyone else sees it: what is committed
          depth,\* how many batches are open
          buf   \* adds buffered by a buffered hypergraph: <<edge, timestamp>>
vars == <<tr, l, s, com, depth, buf>>

Tr == Traces[tr]
U == Universes[Tr.u]

Has(o, f) == f \in DOMAIN o

\* a set of edges, as Python returned it: equal edges with different types of
\* numbers can not be in one set
SetOk(ret, exp) ==
  /\ Rng(ret) \subseteq exp
  /\ {U.cls[x] : x \in exp} = {U.cls[x] : x \in Rng(ret)}

\* FAll: the pairs <<vertex, degree>> visited, in their order
\* vs are the vertices of which the degree is looked at; the others have to add up
FallOk(pairs, st, vs) ==
  LET vis == [i \in 1..Len(pairs) |-> pairs[i][1]]
      must == st.E \cup UNION {Verts(U, e) : e \in st.E}
  IN /\ Cardinality(Rng(vis)) = Len(vis)              \* once each
     /\ must \subseteq Rng(vis)
     /\ \A v \in Rng(vis) : v \in DOMAIN st.T          \* 0, not a known vertex, is not there
     /\ \A i \in 1..Len(pairs) : pairs[i][1] \in vs => pairs[i][2] = Degree(U, st, vis[i])
     /\ MapThenSumSet(LAMBDA i : pairs[i][2], 1..Len(pairs)) = MapThenSumSet(LAMBDA e : Len(U.el[e]), st.E)

\* the vertices that are looked at, one by one: all if not said otherwise
Looked(o) == IF Has(o, "vs") THEN o.vs ELSE [v \in Ids(U) |-> v]

\* the clauses of an observation that do not fit the state st
Bad(o, st) ==
  (IF Has(o, "ex") /\ Rng(o.ex) # {e \in Rng(o.exq) : e \in st.E} THEN {"ex"} ELSE {})
  \cup (IF Has(o, "deg") /\ \E i \in 1..Len(Looked(o)) : o.deg[i] # Degree(U, st, Looked(o)[i]) THEN {"deg"} ELSE {})
  \cup (IF Has(o, "ts") /\ \E i \in 1..Len(Looked(o)) :
             LET v == Looked(o)[i] IN TimestampSettled(st, v) /\ o.ts[i] # Timestamp(st, v)
        THEN {"ts"} ELSE {})
  \cup (IF Has(o, "star") /\ \E i \in 1..Len(Looked(o)) : ~SetOk(o.star[i], Star(U, st, Looked(o)[i]))
        THEN {"star"} ELSE {})
  \cup (IF Has(o, "pats") /\ \E i \in 1..Len(o.pats) :
                                ~SetOk(o.pats[i][2], Pattern(U, st, o.pats[i][1]))
        THEN {"pats"} ELSE {})
  \cup (IF Has(o, "fall") /\ ~FallOk(o.fall, st, Rng(Looked(o))) THEN {"fall"} ELSE {})
  \cup (IF Has(o, "fallret") /\ ~o.fallret THEN {"fallret"} ELSE {})
  \cup (IF Has(o, "roots") /\ \E i \in 1..Len(o.roots) :
                                 Rng(o.roots[i]) # RootSymbols(U, st, U.roots[i])
        THEN {"roots"} ELSE {})
  \cup (IF Has(o, "srcs") /\ \E i \in 1..Len(o.srcs) :
                                 ~SetOk(o.srcs[i][2], Sources(U, st, o.srcs[i][1]))
        THEN {"srcs"} ELSE {})
  \cup (IF Has(o, "raised") THEN {"raised"} ELSE {})

\* two observations show the same
SameSets(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Rng(a[i]) = Rng(b[i])
SamePairs(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) :
                       a[i][1] = b[i][1] /\ Rng(a[i][2]) = Rng(b[i][2])
Same(a, b) ==
  /\ (DOMAIN a) \ {"op", "oid", "h"} = (DOMAIN b) \ {"op", "oid", "h"}
  /\ Has(a, "ex") => Rng(a.ex) = Rng(b.ex)
  /\ Has(a, "deg") => a.deg = b.deg
  /\ Has(a, "ts") => a.ts = b.ts
  /\ Has(a, "star") => SameSets(a.star, b.star)
  /\ Has(a, "pats") => SamePairs(a.pats, b.pats)
  /\ Has(a, "fall") => Rng(a.fall) = Rng(b.fall)
  /\ Has(a, "roots") => SameSets(a.roots, b.roots)
  /\ Has(a, "srcs") => SamePairs(a.srcs, b.srcs)

\* what an operation answers
BadReturn(o, st) ==
  (IF Has(o, "ret") /\ ~o.ret THEN {"ret"} ELSE {})
  \cup (IF Has(o, "raised") THEN {"raised"} ELSE {})

Ops == {"add", "rem", "bel", "unbel", "rmpat", "destroy"}

Say(bad) == \A c \in bad : PrintT(<<"MM", tr, l, c>>)

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1
        /\ s = Empty /\ com = Empty
        /\ depth = 0
        /\ buf = <<>>

Line == Tr.lines[l]

(* An operation of the handle at work. Through a buffered hypergraph (b) all *)
(* but adds and beliefs come after what was buffered before them. On the     *)
(* null backend nothing has any effect.                                      *)
Buffered == Has(Line, "b")
Null == Has(Tr, "null")
RECURSIVE Flushed(_, _)
Flushed(st, b) == IF b = <<>> THEN st
                  ELSE Flushed(AddOne(U, st, Head(b)[1], Head(b)[2]), Tail(b))
Now == IF Buffered THEN Flushed(s, buf) ELSE s
RestOfBuffer == IF Buffered THEN <<>> ELSE buf

Operation ==
  /\ Line.op \in Ops
  /\ s' = IF Null THEN s ELSE Apply(U, Now, Line)
  /\ com' = IF depth = 0 THEN s' ELSE com
  /\ buf' = RestOfBuffer
  /\ Say(BadReturn(Line, s))
  /\ UNCHANGED depth

Begin == /\ Line.op = "begin"
         /\ depth' = depth + 1
         /\ s' = Now
         /\ com' = IF depth = 0 THEN s' ELSE com
         /\ buf' = RestOfBuffer
End == /\ Line.op = "end"
       /\ depth' = depth - 1
       /\ com' = IF depth = 1 THEN s ELSE com
       /\ Say(BadReturn(Line, s))
       /\ UNCHANGED <<s, buf>>
\* the outermost batch failed: nothing of it is left
Abort == /\ Line.op = "abort"
         /\ depth' = 0
         /\ s' = com
         /\ UNCHANGED <<com, buf>>

RECURSIVE BelievedEdges(_, _)
BelievedEdges(es, a) == IF es = <<>> THEN <<>>
                        ELSE <<Head(es), Link(U, Head(es), a)>> \o BelievedEdges(Tail(es), a)
Stamped(es, ts) == [i \in 1..Len(es) |-> <<es[i], ts>>]
BufferedAdd ==
  /\ Line.op \in {"badd", "bbel"}
  /\ buf' = buf \o Stamped(IF Line.op = "badd" THEN Line.es ELSE BelievedEdges(Line.es, Line.a), Line.ts)
  /\ Say(BadReturn(Line, s))
  /\ UNCHANGED <<s, com, depth>>
\* If the database fails, the error is reported and the edges stay in the buffer
Failed == Has(Line, "failed") /\ Line.failed
Flush ==
  /\ Line.op = "flush"
  /\ s' = IF Failed THEN s
          ELSE Flushed(s, buf)
  /\ com' = s'
  /\ buf' = IF Failed THEN buf ELSE <<>>
  /\ Say(BadReturn(Line, s) \cup (IF Failed /\ ~Has(Line, "said") THEN {"silent"} ELSE {}))
  /\ UNCHANGED <<depth>>
\* what the store itself shows: a prefix of the buffered adds, lacking at most max of them
Peek ==
  /\ Line.op = "peek"
  /\ LET n == Len(buf)
         low == IF n > Line.max THEN n - Line.max ELSE 0
     IN IF \E k \in low..n : Bad(Line, Flushed(s, SubSeq(buf, 1, k))) = {}
        THEN TRUE ELSE Say({"peek"})
  /\ UNCHANGED <<s, com, depth, buf>>

(* what the handle at work (w), another one (c), or a buffered one (b) sees  *)
Observe ==
  /\ Line.op = "obs"
  /\ Say(Bad(Line, CASE Line.h = "w" -> s
                      [] Line.h = "c" -> com
                      [] Line.h = "b" -> Flushed(s, buf)))
  /\ UNCHANGED <<s, com, depth, buf>>

(* an observation that has to show the same as another one that was recorded *)
Compare ==
  /\ Line.op = "same"
  /\ IF Same(Line.a, Line.b) THEN TRUE ELSE Say({Line.clause})
  /\ UNCHANGED <<s, com, depth, buf>>
(* one that has to show the same as one of two *)
CompareEither ==
  /\ Line.op = "either"
  /\ IF Same(Line.o, Line.a) \/ Same(Line.o, Line.b) THEN TRUE ELSE Say({Line.clause})
  /\ UNCHANGED <<s, com, depth, buf>>

(* a file that holds these edges already, with the timestamps it has for the *)
(* vertices (-1 in a file from before there were timestamps)                 *)
Load ==
  /\ Line.op = "load"
  /\ LET st == AddAll(U, Empty, Line.es, -1)
         ts(v) == (CHOOSE i \in 1..Len(Line.tss) : Line.tss[i][1] = v)
     IN s' = [st EXCEPT !.T = [v \in DOMAIN @ |-> Line.tss[ts(v)][2]]]
  /\ com' = s'
  /\ UNCHANGED <<depth, buf>>

Other ==
  /\ Line.op \in {"note"}
  /\ UNCHANGED <<s, com, depth, buf>>

Next == /\ l <= Len(Tr.lines)
        /\ l' = l + 1 /\ tr' = tr
        /\ \/ Operation \/ Begin \/ End \/ Abort
           \/ BufferedAdd \/ Flush \/ Peek
           \/ Observe \/ Compare \/ CompareEither \/ Load \/ Other

Spec == Init /\ [][Next]_vars

\* evaluated in every state of every trace
StateOk == WellFormed(U, s) /\ WellFormed(U, com) /\ (depth = 0 => s = com)
=============================================================================
