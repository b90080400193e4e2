----------------------------- MODULE StageTrace -----------------------------
(* Decides recorded outputs of the stages of the extractor, each against the *)
(* recorded output of the stage before.                                      *)
EXTENDS Stages, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
Groups == Data.groups
VARIABLES g, l
vars == <<g, l>>
Has(o, f) == f \in DOMAIN o
Asked(c) == \E i \in 1..Len(Data.clauses) : Data.clauses[i] = c

\* how often each token occurs
Times(v, t) == LET ls == Leaves(v) IN Cardinality({i \in 1..Len(ls) : ls[i] = t})
WordsOf(v) == Range(Leaves(v))
Article(T, t) == T.tok[t].pos = "DET" /\ T.tok[t].art

\* tokens of an edge, counted by their words: sequences of words of its symbols
RECURSIVE SymbolTexts(_)
SymbolTexts(e) == IF e.k = "e" THEN Flat([i \in 1..Len(e.c) |-> SymbolTexts(e.c[i])]) ELSE <<e.t>>

RECURSIVE Names(_)
Names(v) == {v.ns} \cup (IF IsNode(v) THEN UNION {Names(v.c[i]) : i \in 1..Len(v.c)} ELSE {})

EachOnce(T, v, must, may) ==
  /\ WordsOf(v) \subseteq must \cup may
  /\ must \subseteq WordsOf(v)
  /\ \A t \in WordsOf(v) : Times(v, t) = 1

\* words without the underscores that join them
NoUnderscores(w) == LET In(c) == c # 95 IN SelectSeq(w, In)

\* one stage on a tree that was made for it
BadTree(o) ==
  LET T == o.sent
      in == Bare(o.in)
  IN (IF Has(o, "raised") THEN {"raised"} ELSE
        CASE o.stage = "beta" -> IF Bare(o.out) # Beta(T, in) THEN {"beta"} ELSE {}
          [] o.stage = "gamma" -> IF Norm(Bare(o.out)) # Norm(Gamma(T, in)) THEN {"gamma"} ELSE {}
          [] o.stage = "delta" -> IF Norm(Bare(o.out)) # Norm(Delta(T, in)) THEN {"delta"} ELSE {}
          [] o.stage = "epsilon" -> IF o.edge # EpsilonNs(T, o.in) THEN {"epsilon"} ELSE {})
     \cup (IF o.shown # Show(T, in) THEN {"text"} ELSE {})
     \cup (IF o.stage = "beta" /\ Has(o, "out") /\ Names(o.out) # {"1"} THEN {"namespace"} ELSE {})

BadSentence(o) ==
  LET T == o.sent
      al == o.alpha  be == o.beta  ga == o.gamma  de == o.delta
      words == Words(T, T.root)
      arts == {t \in words : Article(T, t)}
  IN
    \* C21: every word, once
    (IF Asked("words") THEN
        (IF Has(o, "raised") THEN {"raised"} ELSE
          (IF ~EachOnce(T, al, words, {}) THEN {"words-alpha"} ELSE {})
     \cup (IF ~EachOnce(T, be, words, {}) THEN {"words-beta"} ELSE {})
     \cup (IF ~EachOnce(T, ga, words \ arts, arts) THEN {"words-gamma"} ELSE {})
     \cup (IF ~EachOnce(T, de, words \ arts, arts) THEN {"words-delta"} ELSE {})
     \* and the edge has the words of the tree it was made of
     \cup (IF Flat(o.edgewords) # Flat([i \in 1..Len(Leaves(de)) |-> NoUnderscores(T.tok[Leaves(de)[i]].word)]) THEN {"words-edge"} ELSE {})
     \cup (IF Len(o.outputs) # 5 THEN {"outputs"}
           ELSE IF \/ o.outputs[1] # Show(T, al) \/ o.outputs[2] # Show(T, be)
                   \/ o.outputs[3] # Show(T, ga) \/ o.outputs[4] # Show(T, de)
                   \/ o.outputs[5] # o.edgetext THEN {"outputs"} ELSE {})
     \* an extractor that read other sentences before reads this one as a new one does
     \cup (IF Has(o, "together") /\ o.together # o.alone THEN {"together"} ELSE {})
     \* whether its stages are the usual ones or were all named
     \cup (IF Has(o, "alone") /\ o.alone[Len(o.alone)].edge # o.edge THEN {"usual"} ELSE {}))
     ELSE {})
  \cup (IF Asked("alpha") /\ Has(o, "alpha") /\ Norm(Bare(al)) # Norm(Alpha(T)) THEN {"alpha"} ELSE {})
  \cup (IF Asked("alpha") /\ Has(o, "raised") /\ o.raised = "alpha" THEN {"raised"} ELSE {})
  \cup (IF Asked("beta") /\ Has(o, "beta") /\ Bare(be) # Beta(T, Bare(al)) THEN {"beta"} ELSE {})
  \cup (IF Asked("beta") /\ Has(o, "beta") /\ Names(be) # {"1"} THEN {"namespace"} ELSE {})
  \cup (IF Asked("beta") /\ Has(o, "raised") /\ o.raised = "beta" THEN {"raised"} ELSE {})
  \cup (IF Asked("gamma") /\ Has(o, "gamma") /\ Norm(Bare(ga)) # Norm(Gamma(T, Bare(be))) THEN {"gamma"} ELSE {})
  \cup (IF Asked("gamma") /\ Has(o, "raised") /\ o.raised = "gamma" THEN {"raised"} ELSE {})
  \cup (IF Asked("delta") /\ Has(o, "delta") /\ Norm(Bare(de)) # Norm(Delta(T, Bare(ga))) THEN {"delta"} ELSE {})
  \cup (IF Asked("delta") /\ Has(o, "raised") /\ o.raised = "delta" THEN {"raised"} ELSE {})
  \cup (IF Asked("epsilon") /\ Has(o, "edge") /\ o.edge # Epsilon(T, Bare(de), <<47, 49>>) THEN {"epsilon"} ELSE {})
  \cup (IF Asked("epsilon") /\ Has(o, "raised") /\ o.raised = "epsilon" THEN {"raised"} ELSE {})
  \cup (IF Asked("epsilon") /\ Has(o, "shown")
           /\ \E i \in 1..Len(o.shown) : o.shown[i] # Show(T, (<<al, be, ga, de>>)[i]) THEN {"text"} ELSE {})

Bad(o) == IF Has(o, "stage") THEN BadTree(o) ELSE BadSentence(o)

Init == g \in 1..Len(Groups) /\ l = 0
Next == /\ l < Len(Groups[g])
        /\ l' = l + 1 /\ g' = g
        /\ \A c \in Bad(Groups[g][l + 1]) : PrintT(<<"MM", g, l + 1, c>>)
Spec == Init /\ [][Next]_vars
=============================================================================
