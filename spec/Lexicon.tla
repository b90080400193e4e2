------------------------------ MODULE Lexicon -------------------------------
(* Decides recorded imports of lexicons: what was in the store before and    *)
(* after, and after importing again in another order.                        *)
EXTENDS LexiconDef, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
Groups == Data.groups
VARIABLES g, l
vars == <<g, l>>

Bad(o) ==
  IF o.raised # "" THEN {"raised"} ELSE
  LET before == StoreOf(o.before)
      want == Import(o.lex, before)
      after == StoreOf(o.after)
      again == StoreOf(o.again)
      new == TLCEval(Facts(o.lex))
      held == TLCEval(before.beliefs)
  IN   (IF want.facts \ after.facts # {} THEN {"missing"} ELSE {})
  \cup (IF after.facts \ want.facts # {} THEN {"invented"} ELSE {})
  \cup (IF want.beliefs \ after.beliefs # {} THEN {"nosource"} ELSE {})
  \cup (IF after.beliefs \ want.beliefs # {} THEN {"sources"} ELSE {})
  \cup (IF Len(o.after.facts) # Cardinality(after.facts) \/ Len(o.after.beliefs) # Cardinality(after.beliefs) THEN {"twice"} ELSE {})
  \cup (IF o.after.other # o.before.other THEN {"others"} ELSE {})
  \cup (IF again # after \/ o.again.other # o.after.other THEN {"again"} ELSE {})
  \* what is new has no time; what was there keeps its own
  \cup UNION {LET had == {y.ts : y \in {z \in Rng(o.timed) : z.fact = x.fact}}
                  linked == <<x.fact, Wordnet>> \in held
              IN IF \/ had # {} /\ {x.ts} # had
                    \/ had = {} /\ x.fact \in new /\ x.ts # -1
                    \/ ~linked /\ x.link # <<-1>> THEN {"times"} ELSE {} : x \in Rng(o.times)}
  \cup UNION {IF Rng(n.syms) # SymbolsNamed(o.lex, n.name) THEN {"roots"} ELSE {} : n \in Rng(o.names)}
  \cup UNION {IF Rng(x.srcs) # {b[2] : b \in {y \in want.beliefs : y[1] = x.fact}} THEN {"sources"} ELSE {} : x \in Rng(o.sources)}

Init == g \in 1..Len(Groups) /\ l = 0
Next == /\ l < Len(Groups[g])
        /\ l' = l + 1 /\ g' = g
        /\ \A c \in Bad(Groups[g][l + 1]) : PrintT(<<"MM", g, l + 1, c>>)
Spec == Init /\ [][Next]_vars
=============================================================================
