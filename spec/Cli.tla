--------------------------------- MODULE Cli --------------------------------
(* The command line. The state is all the stores there are: a function from  *)
(* their names to [edges |-> set of edge texts, all |-> its contents in one  *)
(* text]. A command acts on the store that its options, or their defaults,   *)
(* name. Recorded sessions are replayed: after each command the stores that  *)
(* are there must be what the command makes of those before.                 *)
EXTENDS LexiconDef, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
Groups == Data.groups
VARIABLES g, tr, l
vars == <<g, tr, l>>
Has(o, f) == f \in DOMAIN o

Defaults == [backend |-> "sqlite", db |-> "gb.db", dbhost |-> "localhost", dbuser |-> "gb", dbpass |-> "gb"]
Opt(c, n) == IF Has(c.opts, n) THEN c.opts[n] ELSE Defaults[n]
Backends == {"sqlite", "mysql", "null"}
Target(c) == CASE Opt(c, "backend") = "sqlite" -> "sqlite:" \o Opt(c, "db")
               [] Opt(c, "backend") = "mysql" -> "mysql:" \o Opt(c, "dbhost") \o "," \o Opt(c, "dbuser") \o "," \o Opt(c, "db")
               [] OTHER -> ""
Account(c) == [host |-> Opt(c, "dbhost"), user |-> Opt(c, "dbuser"), passwd |-> Opt(c, "dbpass"), db |-> Opt(c, "db")]

EdgeText(f) == "(" \o f[1] \o " " \o f[2] \o " " \o f[3] \o ")"
BeliefText(src, f) == "(" \o src \o " " \o EdgeText(f) \o " " \o Wordnet \o ")"
LexEdges(t) == UNION {{EdgeText(f), BeliefText(t.src, f)} : f \in Facts(t.lex)}

\* stores as recorded: a sequence of [name, edges, all]
Names(ss) == {s.name : s \in Rng(ss)}
Named(ss, n) == CHOOSE s \in Rng(ss) : s.name = n
Edges(ss, n) == IF n \in Names(ss) THEN Rng(Named(ss, n).edges) ELSE {}

Bad(t, i) ==
  LET c == t.lines[i]
      before == IF i = 1 THEN t.start ELSE t.lines[i - 1].stores
      after == c.stores
      valid == Opt(c, "backend") \in Backends /\ c.known
      n == IF valid THEN Target(c) ELSE ""
      changed == IF n = "" THEN {} ELSE {n}
  IN   (IF valid /\ c.exit # 0 THEN {"failed"} ELSE {})
  \cup (IF ~valid /\ c.exit = 0 THEN {"accepted"} ELSE {})
       \* no other store is there or gone, or changed
  \cup (IF \E m \in (Names(before) \cup Names(after)) \ changed : \/ m \notin Names(before) \/ m \notin Names(after)
                                                              \/ Named(before, m) # Named(after, m) THEN {"others"} ELSE {})
  \cup (IF n = "" THEN {} ELSE
          (IF n \notin Names(after) /\ (c.cmd # "shell" \/ n \in Names(before)) THEN {"created"} ELSE {})
     \cup (IF c.cmd \in {"create", "shell"} /\ Edges(after, n) # Edges(before, n) THEN {"contents"} ELSE {})
     \cup (IF c.cmd \in {"create", "shell"} /\ n \in Names(before) /\ n \in Names(after)
              /\ Named(after, n).all # Named(before, n).all THEN {"contents"} ELSE {})
     \cup (IF c.cmd = "wordnet" /\ Edges(after, n) # Edges(before, n) \cup LexEdges(t) THEN {"contents"} ELSE {}))
  \cup (IF Opt(c, "backend") = "mysql" /\ valid
        THEN (IF c.calls = <<>> \/ \E x \in Rng(c.calls) : x # Account(c) THEN {"account"} ELSE {})
        ELSE IF c.calls # <<>> THEN {"account"} ELSE {})

Init == g \in 1..Len(Groups) /\ tr = 1 /\ l = 0
Next == /\ tr <= Len(Groups[g])
        /\ g' = g
        /\ LET t == Groups[g][tr] IN
           IF l < Len(t.lines)
           THEN /\ l' = l + 1 /\ tr' = tr
                /\ IF t.lines[l + 1].cmd = "raised" THEN PrintT(<<"MM", g, tr, "raised">>)
                   ELSE \A x \in Bad(t, l + 1) : PrintT(<<"MM", g, tr, x>>)
           ELSE tr' = tr + 1 /\ l' = 0
Spec == Init /\ [][Next]_vars
=============================================================================
