-------------------------------- MODULE Text --------------------------------
(* Texts are sequences of code points. The text form of vertices and edges,  *)
(* and the makeup of symbols.                                                *)
(*                                                                           *)
(* A value is a record: k is "s" (symbol or URL), "i" (integer), "f" (float) *)
(* with its text t, or "e" (edge) with its elements c.                       *)
EXTENDS Integers, Sequences, FiniteSets

Slash == 47   Tilde == 126   Under == 95   Open == 40   Close == 41   Blank == 32   Dash == 45
White == (9..13) \cup (28..32) \cup {133, 160, 5760} \cup (8192..8202) \cup {8232, 8233, 8239, 8287, 12288}
Separators == White \cup {Slash, Open, Close}
Digits == 48..57

Starts(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
http == <<104, 116, 116, 112, 58, 47, 47>>
https == <<104, 116, 116, 112, 115, 58, 47, 47>>
IsUrl(t) == Starts(t, http) \/ Starts(t, https)

\* the pieces of t between the occurrences of code points in seps (at least one)
RECURSIVE Cut(_, _, _)
Cut(t, seps, cur) ==
  IF t = <<>> THEN <<cur>>
  ELSE IF Head(t) \in seps THEN <<cur>> \o Cut(Tail(t), seps, <<>>)
  ELSE Cut(Tail(t), seps, Append(cur, Head(t)))
RECURSIVE Glue(_, _)
Glue(ts, sep) == IF Len(ts) = 0 THEN <<>>
                 ELSE IF Len(ts) = 1 THEN ts[1]
                 ELSE ts[1] \o sep \o Glue(Tail(ts), sep)

(****************************** the text form *******************************)
\* (element by element: TLC evaluates a function anew at every use of it)
RECURSIVE Write(_), WriteAll(_)
Write(v) == IF v.k = "e" THEN <<Open>> \o Glue(WriteAll(v.c), <<Blank>>) \o <<Close>> ELSE v.t
WriteAll(vs) == IF vs = <<>> THEN <<>> ELSE <<Write(Head(vs))>> \o WriteAll(Tail(vs))

Balance(t) == Cardinality({i \in 1..Len(t) : t[i] = Open}) - Cardinality({i \in 1..Len(t) : t[i] = Close})

\* a text without its outer parentheses, if it has them
Inner(t) == IF t # <<>> /\ Head(t) = Open THEN SubSeq(t, 2, Len(t) - 1) ELSE t

\* the tokens of the words ws: words are joined while parentheses are open
RECURSIVE Tokens(_, _, _)
Tokens(ws, cur, depth) ==
  IF ws = <<>> THEN <<>>
  ELSE LET d == depth + Balance(Head(ws))
           c == IF cur = <<>> THEN Head(ws) ELSE cur \o <<Blank>> \o Head(ws)
       IN IF d = 0 THEN <<c>> \o Tokens(Tail(ws), <<>>, 0) ELSE Tokens(Tail(ws), c, d)
Words(t) == SelectSeq(Cut(t, White, <<>>), LAMBDA w : w # <<>>)
Split(t) == Tokens(Words(Inner(t)), <<>>, 0)

\* what a token that is not an edge is: digits with at most one point are a number,
\* and so is the form with an exponent
AllDigits(t) == t # <<>> /\ \A i \in 1..Len(t) : t[i] \in Digits
Unsigned(t) == IF t # <<>> /\ Head(t) = Dash THEN Tail(t) ELSE t
IsInt(t) == AllDigits(Unsigned(t))
IsPointed(t) == LET p == Cut(Unsigned(t), {46}, <<>>)
                IN Len(p) = 2 /\ AllDigits(p[1] \o p[2])
IsExponent(t) ==
  LET p == Cut(Unsigned(t), {101}, <<>>) IN
  /\ Len(p) = 2 /\ p[2] # <<>>
  /\ p[2][1] \in {43, 45} /\ AllDigits(Tail(p[2]))
  /\ LET m == Cut(p[1], {46}, <<>>) IN \/ Len(m) = 1 /\ AllDigits(m[1])
                                       \/ Len(m) = 2 /\ AllDigits(m[1]) /\ AllDigits(m[2])
KindOf(t) == IF IsInt(t) THEN "i" ELSE IF IsPointed(t) \/ IsExponent(t) THEN "f" ELSE "s"

RECURSIVE Read(_), ReadAll(_)
Read(t) == IF t[1] # Open THEN [k |-> KindOf(t), t |-> t] ELSE [k |-> "e", c |-> ReadAll(Split(t))]
ReadAll(ts) == IF ts = <<>> THEN <<>> ELSE <<Read(Head(ts))>> \o ReadAll(Tail(ts))

\* the same value; floats have many texts
RECURSIVE Alike(_, _)
Alike(v, w) == /\ v.k = w.k
               /\ IF v.k = "e" THEN Len(v.c) = Len(w.c) /\ \A i \in 1..Len(v.c) : Alike(v.c[i], w.c[i])
                  ELSE v.k = "f" \/ v.t = w.t

(********************************* symbols **********************************)
Parts(t) == IF IsUrl(t) THEN <<t>> ELSE Cut(t, {Slash}, <<>>)
Root(t) == Parts(t)[1]
HasSpace(t) == Len(Parts(t)) > 1
Space(t) == Parts(t)[2]
Build(ps) == Glue(ps, <<Slash>>)
IsNegative(t) == t[1] = Tilde
Negative(t) == IF IsNegative(t) THEN Tail(t) ELSE <<Tilde>> \o t
Shown(t) == [i \in 1..Len(t) |-> IF t[i] \in Separators \cup {Under} THEN Blank ELSE t[i]]
Readable(t) == IF IsUrl(t) THEN t ELSE [i \in 1..Len(Root(t)) |-> IF Root(t)[i] = Under THEN Blank ELSE Root(t)[i]]

(* The hash: h := 31 * (h + c) modulo 2^64, from a prime, in four limbs of   *)
(* 16 bits, the least first.                                                 *)
B == 65536
RECURSIVE Carry(_, _)
Carry(ls, c) == IF ls = <<>> THEN <<>>
                ELSE <<(Head(ls) + c) % B>> \o Carry(Tail(ls), (Head(ls) + c) \div B)
HashStep(h, c) == LET a == Carry(h, c) IN Carry([i \in 1..4 |-> 31 * a[i]], 0)
\* 1125899906842597
HashSeed == <<\hFFE5, \hFFFF, \hFFFF, 3>>
RECURSIVE HashFrom(_, _)
HashFrom(h, t) == IF t = <<>> THEN h ELSE HashFrom(HashStep(h, Head(t)), Tail(t))
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Nibbles(n) == <<n \div 4096, (n \div 256) % 16, (n \div 16) % 16, n % 16>>
RECURSIVE NoZeros(_)
NoZeros(t) == IF Len(t) > 1 /\ t[1] = 48 THEN NoZeros(Tail(t)) ELSE t
Hex(h) == LET ns == Nibbles(h[4]) \o Nibbles(h[3]) \o Nibbles(h[2]) \o Nibbles(h[1])
          IN NoZeros([i \in 1..16 |-> HexDigit(ns[i])])
Hash(t) == Hex(HashFrom(HashSeed, t))
=============================================================================
