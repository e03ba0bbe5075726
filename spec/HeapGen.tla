------------------------------ MODULE HeapGen ------------------------------
(* Behaviours of Heap chosen by genes, written out as scripts that drive    *)
(* the real heap and say what it must answer.                               *)
EXTENDS Heap, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.GENES)     \* [id, g: sequence of 5-tuples]
VARIABLES i, st
Init == i \in 1..Len(Hist) /\ st = "start"
Next == /\ st = "start" /\ st' = "done" /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, st>>
Emit == st = "done" =>
  LET h == History(Hist[i].g) IN
  /\ PrintT(<<"SCRIPT", ToJson([id |-> Hist[i].id, s |-> h.out])>>)
=============================================================================
