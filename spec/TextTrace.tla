----------------------------- MODULE TextTrace ------------------------------
(* Decides recorded conversions between values and texts, and of symbols.    *)
EXTENDS Text, TLC, Json, IOUtils

Groups == JsonDeserialize(IOEnv.DATA).groups
VARIABLES g, l
vars == <<g, l>>
Has(o, f) == f \in DOMAIN o
Rng(f) == {f[x] : x \in DOMAIN f}

\* a value, its text, and the text read back and split
Bad(o) ==
  IF Has(o, "raised") THEN {"raised"} ELSE
  CASE o.kind = "val" ->
         (IF o.back # o.v THEN {"round"} ELSE {})
    \cup (IF ~Alike(Read(o.text), o.v) THEN {"denotes"} ELSE {})
    \cup (IF Has(o, "split") /\ (o.split # o.etexts \/ o.split # Split(o.text)) THEN {"split"} ELSE {})
    \cup (IF Has(o, "inner") /\ o.inner # o.etexts THEN {"split"} ELSE {})
    \cup (IF Has(o, "loose") /\ (o.looseback # o.v \/ ~Alike(Read(o.loose), o.v)) THEN {"loose"} ELSE {})
    \cup (IF Has(o, "ltext") /\ o.ltext # o.text THEN {"list"} ELSE {})
    \cup (IF ~Alike(Read(Write(o.v)), o.v) THEN {"law"} ELSE {})
    \* texts of different values
    [] o.kind = "texts" -> IF Cardinality(Rng(o.texts)) # Len(o.texts) THEN {"injective"} ELSE {}
    [] o.kind = "neg" ->
         (IF o.twice # o.v THEN {"negneg"} ELSE {})
    \cup (IF \/ o.once.k # "e" \/ Len(o.once.c) # Len(o.v.c)
             \/ Tail(o.once.c) # Tail(o.v.c)
             \/ o.once.c[1] # [o.v.c[1] EXCEPT !.t = Negative(@)] THEN {"negonce"} ELSE {})
    \cup (IF o.isneg # IsNegative(o.v.c[1].t) \/ o.isnegonce = o.isneg THEN {"isneg"} ELSE {})
    [] o.kind = "sym" ->
         (IF o.parts # Parts(o.t) THEN {"parts"} ELSE {})
    \cup (IF o.root # Root(o.t) THEN {"root"} ELSE {})
    \cup (IF (o.ns # <<>>) # HasSpace(o.t) THEN {"nspace"}
          ELSE IF HasSpace(o.t) /\ o.ns[1] # Space(o.t) THEN {"nspace"} ELSE {})
    \cup (IF o.isroot # (Root(o.t) = o.t) THEN {"isroot"} ELSE {})
    \cup (IF o.built # o.t THEN {"build"} ELSE {})
    \cup (IF o.shown # Readable(o.t) THEN {"shown"} ELSE {})
    \cup (IF Has(o, "neg") /\ (o.neg # Negative(o.t) \/ o.negneg # o.t \/ o.isneg # IsNegative(o.t))
          THEN {"symneg"} ELSE {})
    \cup (IF o.types # (IF IsUrl(o.t) THEN <<"URL">> ELSE <<"CONCEPT">>) THEN {"type"} ELSE {})
    \cup (IF Build(Parts(o.t)) # o.t THEN {"law"} ELSE {})
    \* numbers (values, not texts)
    [] o.kind = "num" ->
         (IF o.parts # <<o.v>> THEN {"parts"} ELSE {})
    \cup (IF o.root # o.v THEN {"root"} ELSE {})
    \cup (IF o.ns # <<>> THEN {"nspace"} ELSE {})
    \cup (IF ~o.isroot THEN {"isroot"} ELSE {})
    \cup (IF o.shown # o.v.t THEN {"shown"} ELSE {})
    \cup (IF o.types # (IF o.v.k = "i" THEN <<"INTEGER">> ELSE <<"FLOAT">>) THEN {"type"} ELSE {})
    [] o.kind = "edge" -> IF o.types # <<"EDGE">> \/ o.ltypes # o.types THEN {"type"} ELSE {}
    \* a text becomes a symbol; low is the text in lower case
    [] o.kind = "conv" ->
         (IF \E i \in 1..Len(o.sym) : o.sym[i] \in Separators THEN {"separators"} ELSE {})
    \cup (IF o.again # o.sym THEN {"twice"} ELSE {})
    \cup (IF o.read # Shown(o.low) THEN {"reads"} ELSE {})
    [] o.kind = "mean" ->
         IF HasSpace(o.t) THEN (IF o.one # o.t \/ o.two # o.t THEN {"meaning"} ELSE {})
         ELSE (IF o.one = o.two THEN {"fresh"} ELSE {})
         \cup UNION {IF \/ Len(Parts(m)) # 2 \/ Root(m) # o.t
                        \/ ~Starts(Space(m), o.prefix) \/ Space(m) = o.prefix
                     THEN {"meaning"} ELSE {} : m \in {o.one, o.two}}
    [] o.kind = "many" -> IF Cardinality({o.ids[i] : i \in 1..Len(o.ids)}) # Len(o.ids) THEN {"fresh"} ELSE {}
    [] o.kind = "build" -> IF o.sym # Build(o.parts) \/ (Parts(Build(o.parts)) # o.parts) THEN {"build"} ELSE {}
    [] o.kind = "hash" -> IF o.hash # Hash(o.t) THEN {"hash"} ELSE {}

Init == g \in 1..Len(Groups) /\ l = 0
Next == /\ l < Len(Groups[g])
        /\ l' = l + 1 /\ g' = g
        /\ \A c \in Bad(Groups[g][l + 1]) : PrintT(<<"MM", g, l + 1, c>>)
Spec == Init /\ [][Next]_vars
=============================================================================
