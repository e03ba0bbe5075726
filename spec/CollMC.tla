------------------------------- MODULE CollMC -------------------------------
(* All short histories of maps, sets and queues over a few keys: the laws   *)
(* of C16, checked on Coll.tla itself.                                      *)
EXTENDS Coll
CONSTANTS Keys, Most
VARIABLES kind, d, vs, ops
vars == <<kind, d, vs, ops>>
Op(o, a, k, v) == [o |-> o, d |-> d, a |-> a, k |-> k, v |-> v, n |-> 0]
Init == /\ kind \in {"map", "set", "fifo"} /\ d \in {Up, Down}
        /\ ops = <<Op(IF kind = "map" THEN "mEmpty" ELSE IF kind = "set" THEN "sEmpty" ELSE "fEmpty", <<>>, 0, <<>>)>>
        /\ vs = <<Make(<<>>, ops[1])>>
V == 1..Len(vs)
MapOps == UNION {{Op("mInsert", <<a>>, k, <<v>>) : k \in Keys, v \in {1, 2}} \cup {Op("mWith", <<a>>, k, <<3>>) : k \in Keys}
                 \cup {Op("mDelete", <<a>>, k, <<>>) : k \in Keys} \cup {Op("mUnion", <<a, b>>, 0, <<>>) : b \in V} : a \in V}
SetOps == UNION {{Op(o, <<a>>, k, <<>>) : o \in {"sInsert", "sDelete"}, k \in Keys} : a \in V}
FifoOps == UNION {{Op("fPut", <<a>>, k, <<>>) : k \in Keys} \cup {Op("fNext", <<a>>, 0, <<>>)} : a \in V}
Next == /\ Len(vs) < Most
        /\ \E op \in (IF kind = "map" THEN MapOps ELSE IF kind = "set" THEN SetOps ELSE FifoOps) :
             /\ vs' = Append(vs, Make(vs, op)) /\ ops' = Append(ops, op) /\ UNCHANGED <<kind, d>>
Spec == Init /\ [][Next]_vars

n == Len(vs)
op == ops[n]
Is(o, a, k, got) == Answers(vs, [o |-> o, d |-> d, a |-> a, k |-> k, v |-> <<>>, n |-> 0], got)
\* Lookups see the latest insert, deletes remove exactly one key.
Latest == n > 1 =>
  CASE op.o = "mInsert" -> Is("mLookup", <<n>>, op.k, <<op.v>>) /\ \A k \in Keys \ {op.k} : Found(vs[n].m, k) = Found(vs[op.a[1]].m, k)
    [] op.o = "mDelete" -> Is("mLookup", <<n>>, op.k, <<>>) /\ \A k \in Keys \ {op.k} : Found(vs[n].m, k) = Found(vs[op.a[1]].m, k)
    [] op.o = "sInsert" -> Is("sContains", <<n>>, op.k, 0) /\ \A k \in Keys \ {op.k} : (k \in vs[n].s) = (k \in vs[op.a[1]].s)
    [] op.o = "sDelete" -> Is("sContains", <<n>>, op.k, 1) /\ \A k \in Keys \ {op.k} : (k \in vs[n].s) = (k \in vs[op.a[1]].s)
    [] op.o = "mUnion" -> \A k \in Keys : Found(vs[n].m, k) = (IF Has(vs[op.a[2]].m, k) THEN Found(vs[op.a[2]].m, k) ELSE Found(vs[op.a[1]].m, k))
    [] OTHER -> TRUE
\* Iteration is in key order and meets every key once.
Ordered == kind # "map" \/
  LET es == Entries(d, vs[n].m) IN
  /\ \A j \in 1..Len(es) - 1 : IF d = Up THEN es[j][1] < es[j + 1][1] ELSE es[j][1] > es[j + 1][1]
  /\ {es[j][1] : j \in 1..Len(es)} = DOMAIN vs[n].m
\* What went into a queue and has not come out, in order.
RECURSIVE Ins(_)
Ins(j) == IF j = 1 THEN <<>> ELSE IF ops[j].o = "fPut" THEN Append(Ins(ops[j].a[1]), ops[j].k) ELSE Ins(ops[j].a[1])
RECURSIVE Outs(_)
Outs(j) == IF j = 1 THEN 0 ELSE LET b == ops[j].a[1] IN IF ops[j].o = "fNext" /\ vs[b] # <<>> THEN Outs(b) + 1 ELSE Outs(b)
Fifo == kind = "fifo" => vs[n] = SubSeq(Ins(n), Outs(n) + 1, Len(Ins(n)))
\* Two maps are equal exactly if every lookup agrees.
Extensional == kind = "map" => \A a, b \in V : (vs[a].m = vs[b].m) = (\A k \in Keys : Found(vs[a].m, k) = Found(vs[b].m, k))
Persistent == [][\A j \in V : vs'[j] = vs[j]]_vars
=============================================================================
