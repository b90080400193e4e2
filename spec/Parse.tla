------------------------------- MODULE Parse --------------------------------
(* Parsed texts: tokens with their dependents, and their listings.           *)
(*                                                                           *)
(* A text is what the parser answers: toks (their attributes), head (the     *)
(* token each depends on, itself for none), and spans <<first, last>>, the   *)
(* sentences. Recorded are the tokens that come out, known by their place.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
Groups == Data.groups
VARIABLES g, l
vars == <<g, l>>
Rng(f) == {f[x] : x \in DOMAIN f}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE <<Least(S)>> \o Ascending(S \ {Least(S)})
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

Toks(d) == 1..Len(d.toks)
Dependents(d, i) == {j \in Toks(d) : d.head[j] = i /\ j # i}
Lefts(d, i) == Ascending({j \in Dependents(d, i) : j < i})
Rights(d, i) == Ascending({j \in Dependents(d, i) : j > i})
Parent(d, i) == IF d.head[i] = i THEN 0 ELSE d.head[i]

\* a token and all below it
RECURSIVE Under(_, _)
Under(d, i) == {i} \cup UNION {Under(d, j) : j \in Dependents(d, i)}
RECURSIVE Listed(_, _)
Listed(d, i) == LET L == Lefts(d, i)  R == Rights(d, i)
                IN Flat([x \in DOMAIN L |-> Listed(d, L[x])]) \o <<i>> \o Flat([x \in DOMAIN R |-> Listed(d, R[x])])
\* no dependencies cross: everything below a token is a stretch of the text
Stretch(S) == \A x, y \in S : \A z \in x..y : z \in S

IsWord(o, i) == ~o.sep[i] /\ o.text.toks[i].pos \notin {"PUNCT", "SPACE"}
RECURSIVE Only(_, _)
Only(o, s) == IF s = <<>> THEN <<>> ELSE (IF IsWord(o, Head(s)) THEN <<Head(s)>> ELSE <<>>) \o Only(o, Tail(s))
RECURSIVE Join(_)
Join(ws) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o " " \o Join(Tail(ws))
Words(d, s) == [x \in DOMAIN s |-> d.toks[s[x]].word]

Span(sp) == [x \in 1..(sp[2] - sp[1] + 1) |-> sp[1] + x - 1]
Root(d, sp) == LET rs == {i \in sp[1]..sp[2] : d.toks[i].dep = "ROOT"} IN IF rs = {} THEN 0 ELSE Least(rs)

Bad(o) ==
  IF o.raised # "" THEN {"raised"} ELSE
  LET d == o.text IN
  IF o.sents # [x \in DOMAIN d.spans |-> Span(d.spans[x])] THEN {"sentences"} ELSE
  LET listed == [i \in Toks(d) |-> Listed(d, i)]
      only == [i \in Toks(d) |-> Only(o, listed[i])]
      under == [i \in Toks(d) |-> Under(d, i)]
      straight == \A i \in Toks(d) : Stretch(under[i])
  IN   (IF o.toks # d.toks THEN {"attributes"} ELSE {})
  \cup (IF \E i \in Toks(d) : o.lefts[i] # Lefts(d, i) \/ o.rights[i] # Rights(d, i) THEN {"dependents"} ELSE {})
  \cup (IF \E i \in Toks(d) : o.parent[i] # Parent(d, i) THEN {"parent"} ELSE {})
  \cup (IF \E x \in DOMAIN d.spans : o.roots[x] # Root(d, d.spans[x]) THEN {"root"} ELSE {})
  \cup (IF \E i \in Toks(d) : o.list[i] # listed[i] THEN {"list"} ELSE {})
  \cup (IF \E i \in Toks(d) : o.wlist[i] # only[i] THEN {"words"} ELSE {})
  \cup (IF \E i \in Toks(d) : o.chunk[i] # Join(Words(d, only[i])) THEN {"chunk"} ELSE {})
  \cup (IF \E x \in DOMAIN d.spans : o.shown[x] # Join(Words(d, Span(d.spans[x]))) THEN {"shown"} ELSE {})
  \* the listing is all below the token, once, and in order where no dependencies cross
  \cup (IF \E i \in Toks(d) : \/ Rng(listed[i]) # under[i] \/ Len(listed[i]) # Cardinality(under[i])
                              \/ straight /\ listed[i] # Ascending(under[i]) THEN {"law"} ELSE {})

Init == g \in 1..Len(Groups) /\ l = 0
Next == /\ l < Len(Groups[g])
        /\ l' = l + 1 /\ g' = g
        /\ \A c \in Bad(Groups[g][l + 1]) : PrintT(<<"MM", g, l + 1, c>>)
Spec == Init /\ [][Next]_vars
=============================================================================
