------------------------------ MODULE IntsTrace ------------------------------
(* Results of the real library (harness/valcalc.c), checked against Ints.   *)
EXTENDS Ints, Json, IOUtils
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
Init == i \in 1..Len(Rec) /\ st = "start"
Next == st = "start" /\ st' = "done" /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, st>>
Wrong(rec) == {x \in Range(rec.ops) : x.t = "A" \/ ~Right(x)}
Verdict == st = "done" =>
  LET w == Wrong(Rec[i])
  IN /\ IF w = {} /\ Rec[i].end = "ok" THEN TRUE ELSE PrintT(<<"BAD", ToJson([id |-> Rec[i].id, at |-> IF w = {} THEN 0 ELSE CHOOSE j \in {x.j : x \in w} : \A x \in w : j <= x.j])>>)
     /\ PrintT(<<"OUT", ToJson([id |-> Rec[i].id])>>)
=============================================================================
