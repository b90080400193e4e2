------------------------------ MODULE SqlImpl -------------------------------
(* The SQLite implementation statement by statement: two tables, one write   *)
(* lock, transactions, savepoints; several handles at work on one store, any *)
(* of which may be killed, and statements that fail, with or without the     *)
(* database undoing the transaction on its own. Checked to refine Hyper: the *)
(* tables always stand for the state that the operations committed so far    *)
(* make of the empty hypergraph, one after the other, in commit order.       *)
(*                                                                           *)
(* The constants switch off one protection each; without it TLC finds the    *)
(* history that breaks the refinement (the harness makes sure that it does). *)
EXTENDS Hyper, TLC, Json, IOUtils, SequencesExt

CONSTANTS Immediate,   \* transactions take the write lock before they read
          Atomic,      \* operations are transactions
          Savepoints,  \* operations inside a batch are savepoints
          Check        \* batches notice that their transaction is gone
ASSUME {Immediate, Atomic, Savepoints, Check} \subseteq BOOLEAN

Data == JsonDeserialize(IOEnv.DATA)
U == Data.universe
Ops == Data.ops
Handles == 1..Data.handles
MaxCalls == Data.calls       \* of each handle
MaxBatch == Data.batch       \* operations in one batch
MaxFaults == Data.faults
MaxCrashes == Data.crashes

VARIABLES
  db,       \* the tables as committed: V vertices -> [d degree, t timestamp], P permutations <<edge, number>>
  pc,       \* what each handle still has to do, a sequence of instructions
  calls,    \* the calls it may still make
  fr,       \* where it is: a record of
            \*   intx    it has a transaction, and with it the write lock
            \*   img     what the transaction made of the tables
            \*   level   how many blocks it is in: operations, batches
            \*   saves   for each but the outermost, what to go back to
            \*   undone  it noticed that its transaction is gone
            \*   done    the operations that took effect in the transaction
  abs,      \* the hypergraph
  faults, crashes
vars == <<db, pc, calls, fr, abs, faults, crashes>>

None == [op |-> "none"]
NoImg == [V |-> <<>>, P |-> {}]
Idle == [intx |-> FALSE, img |-> NoImg, level |-> 0, saves |-> <<>>, undone |-> FALSE, done |-> <<>>]

Init == /\ db = NoImg /\ abs = Empty
        /\ pc = [h \in Handles |-> <<>>]
        /\ calls = [h \in Handles |-> MaxCalls]
        /\ fr = [h \in Handles |-> Idle]
        /\ faults = MaxFaults /\ crashes = MaxCrashes

(*************************** operations, as programs ************************)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
I(name, v, x, y) == [i |-> name, v |-> v, x |-> x, y |-> y]
Tx == I("tx", 0, 0, 0)
End(o) == [i |-> "end", o |-> o]
Catch == I("catch", 0, 0, 0)

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
AddBody(es, ts) == [k \in 1..Len(es) |-> I("qadd", es[k], ts, 0)]
RemBody(es) == [k \in 1..Len(es) |-> I("qrem", es[k], 0, 0)]
\* belief links are added in one call with their fact, retraction is a batch of one function
Body(o) ==
  CASE o.op = "add" -> AddBody(o.es, o.ts)
    [] o.op = "rem" -> RemBody(o.es)
    [] o.op = "bel" -> Flatten([k \in 1..Len(o.es) |-> AddBody(<<o.es[k], Link(U, o.es[k], o.a)>>, o.ts)])
    [] o.op = "unbel" -> <<Tx>> \o RemBody(<<Link(U, o.es[1], o.a)>>) \o <<End(None), I("srcs", o.es[1], 0, 0)>>
    [] o.op = "destroy" -> <<I("wipev", 0, 0, 0), I("wipep", 0, 0, 0)>>
Single(o) == <<Tx>> \o Body(o) \o <<End(o)>>
\* the function of a batch that catches the errors of its operations, or not
RECURSIVE Funs(_, _)
Funs(os, catching) == IF os = <<>> THEN <<>>
                      ELSE <<Tx>> \o Body(Head(os)) \o <<End(Head(os))>> \o (IF catching THEN <<Catch>> ELSE <<>>)
                           \o Funs(Tail(os), catching)
Batch(os, catching) == <<Tx>> \o Funs(os, catching) \o <<End(None)>>

Call(h) ==
  /\ pc[h] = <<>> /\ calls[h] > 0
  /\ calls' = [calls EXCEPT ![h] = @ - 1]
  /\ \/ \E k \in 1..Len(Ops) : pc' = [pc EXCEPT ![h] = Single(Ops[k])]
     \/ \E n \in 2..MaxBatch, c \in BOOLEAN : \E ks \in [1..n -> 1..Len(Ops)] :
          pc' = [pc EXCEPT ![h] = Batch([j \in 1..n |-> Ops[ks[j]]], c)]
  /\ UNCHANGED <<db, fr, abs, faults, crashes>>

(******************************** statements ********************************)
Cur(h) == IF fr[h].intx THEN fr[h].img ELSE db
Now(h) == Head(pc[h])
Rest(h) == Tail(pc[h])
Reads == {"qadd", "qrem", "sel", "deg", "selp", "srcs"}
Writes == {"inc", "dec", "upd", "ins", "setts", "del", "insp", "delp", "wipev", "wipep"}
Put(V, v, r) == [w \in (DOMAIN V) \cup {v} |-> IF w = v THEN r ELSE V[w]]
Perms(e) == [k \in 1..Fact(Len(U.el[e])) |-> I("selp", e, k, 0)]
Dels(e) == [k \in 1..Fact(Len(U.el[e])) |-> I("delp", e, k, 0)]
ForElements(e, name, ts) == [k \in 1..Len(U.el[e]) |-> I(name, U.el[e][k], ts, 0)]

\* a read adds to what is left to do
AfterRead(c, i, rest) ==
  CASE i.i = "qadd" -> IF <<i.v, 1>> \in c.P THEN rest
                       ELSE ForElements(i.v, "inc", i.x) \o <<I("deg", i.v, 1, i.x)>> \o Perms(i.v) \o rest
    [] i.i = "qrem" -> IF <<i.v, 1>> \notin c.P THEN rest
                       ELSE ForElements(i.v, "dec", 0) \o Dels(i.v) \o <<I("deg", i.v, 0, 0)>> \o rest
    [] i.i = "sel" -> <<I(IF i.v \in DOMAIN c.V THEN "upd" ELSE "ins", i.v, i.x, i.y)>> \o rest
    [] i.i = "deg" -> (IF i.v \in DOMAIN c.V /\ c.V[i.v].d > 0 THEN <<I("setts", i.v, IF i.x = 1 THEN i.y ELSE -1, 0)>>
                       ELSE IF i.x = 1 THEN <<I("sel", i.v, 0, i.y)>>
                       ELSE <<I("del", i.v, 0, 0)>>) \o rest
    [] i.i = "selp" -> (IF <<i.v, i.x>> \in c.P THEN <<>> ELSE <<I("insp", i.v, i.x, 0)>>) \o rest
    [] i.i = "srcs" -> (IF \E x \in Ids(U) : /\ IsEdge(U, x) /\ Len(U.el[x]) = 3 /\ U.el[x][1] = U.src /\ U.el[x][2] = i.v
                                             /\ <<x, 1>> \in c.P
                        THEN <<>> ELSE <<Tx>> \o RemBody(<<i.v>>) \o <<End(None)>>) \o rest
\* a row that is there already can not be inserted
Refused(c, i) == \/ i.i = "ins" /\ i.v \in DOMAIN c.V
                 \/ i.i = "insp" /\ <<i.v, i.x>> \in c.P
AfterWrite(c, i) ==
  CASE i.i \in {"inc", "dec"} -> IF i.v \in DOMAIN c.V
                       THEN [c EXCEPT !.V = Put(c.V, i.v, [d |-> c.V[i.v].d + (IF i.i = "inc" THEN 1 ELSE -1), t |-> c.V[i.v].t])]
                       ELSE c
    [] i.i \in {"upd", "ins"} -> [c EXCEPT !.V = Put(c.V, i.v, [d |-> i.x, t |-> i.y])]
    [] i.i = "setts" -> IF i.v \in DOMAIN c.V THEN [c EXCEPT !.V = Put(c.V, i.v, [d |-> c.V[i.v].d, t |-> i.x])] ELSE c
    [] i.i = "del" -> [c EXCEPT !.V = [w \in (DOMAIN c.V) \ {i.v} |-> c.V[w]]]
    [] i.i = "insp" -> [c EXCEPT !.P = @ \cup {<<i.v, i.x>>}]
    [] i.i = "delp" -> [c EXCEPT !.P = @ \ {<<i.v, i.x>>}]
    [] i.i = "wipev" -> [c EXCEPT !.V = <<>>]
    [] i.i = "wipep" -> [c EXCEPT !.P = {}]
\* counting a vertex that has no row makes one
More(c, i) == IF i.i = "inc" /\ i.v \notin DOMAIN c.V THEN <<I("sel", i.v, 1, i.x)>> ELSE <<>>

(****************************** errors **************************************)
\* An error leaves block after block, until a function catches it. Drop skips what is
\* left of the block; d counts blocks in it that were not entered.
RECURSIVE Drop(_, _)
Drop(p, d) == IF p = <<>> THEN <<>>
              ELSE IF Head(p).i = "tx" THEN Drop(Tail(p), d + 1)
              ELSE IF Head(p).i = "end" /\ d > 0 THEN Drop(Tail(p), d - 1)
              ELSE IF d = 0 /\ Head(p).i \in {"end", "catch"} THEN p
              ELSE Drop(Tail(p), d)
Init1(q) == SubSeq(q, 1, Len(q) - 1)
RECURSIVE Unwind(_, _, _)
Unwind(p, f, d) ==
  LET q == Drop(p, d) IN
  IF q = <<>> \/ (f.level <= 1 /\ Head(q).i = "end") THEN [p |-> <<>>, f |-> Idle]   \* ROLLBACK
  ELSE IF Head(q).i = "catch" THEN [p |-> Tail(q), f |-> f]
  ELSE LET top == Last(f.saves) IN                                                   \* ROLLBACK TO SAVEPOINT
       Unwind(Tail(q), [f EXCEPT !.level = @ - 1, !.saves = Init1(@), !.done = top.done,
                                 !.undone = @ \/ ~f.intx,
                                 !.img = IF f.intx /\ top.real THEN top.img ELSE @], 0)

Become(h, p, f) == pc' = [pc EXCEPT ![h] = p] /\ fr' = [fr EXCEPT ![h] = f]
Raise(h, p, f, d) == LET u == Unwind(p, f, d) IN Become(h, u.p, u.f)

Gone(f) == Check /\ Atomic /\ (f.undone \/ (Immediate /\ ~f.intx))
Free(h) == \A g \in Handles \ {h} : ~fr[g].intx

(********************************* steps ************************************)
At(h, names) == pc[h] # <<>> /\ Now(h).i \in names
Begin(h) ==
  /\ At(h, {"tx"}) /\ fr[h].level = 0
  /\ IF Atomic /\ Immediate
     THEN Free(h) /\ Become(h, Rest(h), [Idle EXCEPT !.level = 1, !.intx = TRUE, !.img = db])
     ELSE Become(h, Rest(h), [Idle EXCEPT !.level = 1])
  /\ UNCHANGED <<db, calls, abs, faults, crashes>>
Savepoint(h) ==
  /\ At(h, {"tx"}) /\ fr[h].level > 0
  /\ LET f == fr[h] IN
     IF Gone(f) THEN Raise(h, Rest(h), f, 1)
     ELSE Become(h, Rest(h), [f EXCEPT !.level = @ + 1,
                                       !.saves = Append(@, [img |-> f.img, done |-> f.done, real |-> Savepoints /\ f.intx])])
  /\ UNCHANGED <<db, calls, abs, faults, crashes>>
\* what the block did took effect for whoever is around it
Did(h) == IF Now(h).o.op = "none" THEN fr[h].done ELSE Append(fr[h].done, Now(h).o)
Release(h) ==
  /\ At(h, {"end"}) /\ fr[h].level > 1
  /\ LET f == fr[h] IN
     IF Last(f.saves).real /\ ~f.intx THEN Raise(h, pc[h], f, 0)       \* no such savepoint
     ELSE Become(h, Rest(h), [f EXCEPT !.level = @ - 1, !.saves = Init1(@), !.done = Did(h)])
  /\ UNCHANGED <<db, calls, abs, faults, crashes>>
Commit(h) ==
  /\ At(h, {"end"}) /\ fr[h].level = 1
  /\ IF Gone(fr[h])
     THEN Raise(h, pc[h], fr[h], 0) /\ UNCHANGED <<db, abs>>
     ELSE db' = Cur(h) /\ abs' = ApplyAll(U, abs, Did(h)) /\ Become(h, <<>>, Idle)
  /\ UNCHANGED <<calls, faults, crashes>>
Caught(h) ==
  /\ At(h, {"catch"}) /\ Become(h, Rest(h), fr[h])
  /\ UNCHANGED <<db, calls, abs, faults, crashes>>
Read(h) ==
  /\ At(h, Reads) /\ Become(h, AfterRead(Cur(h), Now(h), Rest(h)), fr[h])
  /\ UNCHANGED <<db, calls, abs, faults, crashes>>
Write(h) ==
  /\ At(h, Writes) /\ Free(h)
  /\ LET c == Cur(h)  i == Now(h)  n == AfterWrite(c, i) IN
     IF Refused(c, i) THEN Raise(h, Rest(h), fr[h], 0) /\ UNCHANGED db
     \* where there is no transaction, the driver begins one
     ELSE IF Atomic THEN Become(h, More(c, i) \o Rest(h), [fr[h] EXCEPT !.intx = TRUE, !.img = n]) /\ UNCHANGED db
     ELSE db' = n /\ Become(h, More(c, i) \o Rest(h), fr[h])
  /\ UNCHANGED <<calls, abs, faults, crashes>>

\* a statement fails: it alone, or the database undoes the transaction as well
Fail(h) ==
  /\ faults > 0 /\ At(h, Reads \cup Writes \cup {"tx", "end"})
  /\ faults' = faults - 1
  /\ \E auto \in IF fr[h].intx THEN BOOLEAN ELSE {FALSE} :
       LET f == IF auto THEN [fr[h] EXCEPT !.intx = FALSE, !.img = NoImg] ELSE fr[h] IN
       IF Now(h).i = "end" THEN Raise(h, pc[h], f, 0)
       ELSE Raise(h, Rest(h), f, IF Now(h).i = "tx" THEN 1 ELSE 0)
  /\ UNCHANGED <<db, calls, abs, crashes>>
\* the process that has the handle is killed
Crash(h) ==
  /\ crashes > 0 /\ pc[h] # <<>>
  /\ crashes' = crashes - 1
  /\ Become(h, <<>>, Idle)
  /\ calls' = [calls EXCEPT ![h] = 0]
  /\ UNCHANGED <<db, abs, faults>>

Step(h) == Begin(h) \/ Savepoint(h) \/ Release(h) \/ Commit(h) \/ Caught(h) \/ Read(h) \/ Write(h)
Next == \E h \in Handles : Call(h) \/ Step(h) \/ Fail(h) \/ Crash(h)
Spec == Init /\ [][Next]_vars /\ \A h \in Handles : WF_vars(Step(h))

\* One handle that runs Data.script, one operation after the other: every statement is printed.
\* The harness compares them with the statements that the code executes.
Scripted == /\ pc[1] = <<>> /\ calls[1] > 0
            /\ pc' = [pc EXCEPT ![1] = LET o == Data.script[MaxCalls - calls[1] + 1] IN
                                      IF o.op = "batch" THEN Batch(o.ops, FALSE) ELSE Single(o)]
            /\ calls' = [calls EXCEPT ![1] = @ - 1]
            /\ UNCHANGED <<db, fr, abs, faults, crashes>>
ShownStep == /\ pc[1] # <<>>
             /\ PrintT(<<"ST", MaxCalls - calls[1], IF Now(1).i = "tx" THEN (IF fr[1].level = 0 THEN "begin" ELSE "savepoint")
                                        ELSE IF Now(1).i = "end" THEN (IF fr[1].level = 1 THEN "commit" ELSE "release")
                                        ELSE Now(1).i>>)
             /\ Step(1)
ScriptSpec == Init /\ [][Scripted \/ ShownStep]_vars

(**************************** what must hold ********************************)
\* the tables stand for the hypergraph
Stands(c, s) ==
  /\ c.P = UNION {{<<e, k>> : k \in 1..Fact(Len(U.el[e]))} : e \in s.E}
  /\ s.E \cup UNION {Verts(U, e) : e \in s.E} \subseteq DOMAIN c.V
  /\ DOMAIN c.V \subseteq DOMAIN s.T
  /\ \A v \in Ids(U) :
       /\ (IF v \in DOMAIN c.V THEN c.V[v].d ELSE 0) = Degree(U, s, v)
       /\ TimestampSettled(s, v) => (IF v \in DOMAIN c.V THEN c.V[v].t ELSE -1) = Timestamp(s, v)
\* whatever happened: what is committed is whole operations, in the order of their commits,
\* which is what any other handle sees, and what is found after a crash
Refines == Stands(db, abs)
\* a batch sees what it has done so far, between its operations
Inside == \A h \in Handles :
  (fr[h].intx /\ fr[h].level = 1 /\ At(h, {"tx", "end", "catch"}) /\ Last(pc[h]).o.op = "none")
     => Stands(fr[h].img, ApplyAll(U, abs, fr[h].done))
OneWriter == Cardinality({h \in Handles : fr[h].intx}) <= 1
Blocks == \A h \in Handles : /\ (pc[h] = <<>> => fr[h] = Idle)
                              /\ Len(fr[h].saves) = (IF fr[h].level > 0 THEN fr[h].level - 1 ELSE 0)
\* every call comes to an end, nobody waits for ever
Ends == \A h \in Handles : pc[h] # <<>> ~> pc[h] = <<>>
=============================================================================
