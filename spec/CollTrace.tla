------------------------------ MODULE CollTrace ------------------------------
(* Histories of the real collections (harness/valcalc.c), checked against   *)
(* Coll.tla.  Versions are counted by the operations that make them.        *)
EXTENDS Coll, Json, IOUtils
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
Init == i \in 1..Len(Rec) /\ st = "start"
Next == st = "start" /\ st' = "done" /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, st>>

\* a: [vs, bad]; bad: the first operation that went wrong.
Do(a, op) ==
  IF a.bad # 0 THEN a
  ELSE IF op.t = "A" THEN [a EXCEPT !.bad = op.j]
  ELSE IF op.o \in Looks THEN (IF Answers(a.vs, op, op.r) THEN a ELSE [a EXCEPT !.bad = op.j])
  ELSE [a EXCEPT !.vs = Append(a.vs, TLCEval(Make(a.vs, op)))]
Verdict == st = "done" =>
  LET e == FoldLeft(Do, [vs |-> <<>>, bad |-> 0], Rec[i].ops)
  IN /\ IF e.bad = 0 /\ Rec[i].end = "ok" THEN TRUE ELSE PrintT(<<"BAD", ToJson([id |-> Rec[i].id, at |-> e.bad])>>)
     /\ PrintT(<<"OUT", ToJson([id |-> Rec[i].id])>>)
=============================================================================
