--------------------------- MODULE FbldEvalTrace ---------------------------
(* Conformance: every recorded run of an fbld implementation is the run the *)
(* specification FbldEval prescribes.  One behaviour per document.          *)
EXTENDS FbldEval, Json, IOUtils, SequencesExt

Docs == ndJsonDeserialize(IOEnv.DOCS)       \* [id, doc, impl, rc, out, errs]
VARIABLES i, st
Init == i \in 1..Len(Docs) /\ st = "start"
Next == st = "start" /\ st' = "done" /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, st>>

(* Does diagnostic d explain the printed line p = [l, s]? *)
Explains(d, p) ==
  /\ d.l = p.l \/ d.l = NoLoc
  /\ d.k # "error" \/ d.s = p.s

Allowed(rec) ==
  LET o == Process(rec.doc) IN
  IF o.deep THEN PrintT(<<"DEEP", ToJson([id |-> rec.id])>>)
  ELSE IF o.ok THEN rec.rc = 0 /\ rec.out = o.out /\ rec.errs = <<>>
  ELSE /\ rec.rc = 1
       /\ rec.errs # <<>>
       /\ \/ rec.impl # "C"   \* the one written in fble goes on after an error and words what follows its own way
          \/ \A j \in DOMAIN rec.errs : \E d \in o.e : Explains(d, rec.errs[j])

Conforms ==
  st = "done" =>
    \/ Allowed(Docs[i])
    \/ PrintT(<<"MISMATCH", ToJson([id |-> Docs[i].id, exp |-> Process(Docs[i].doc)])>>) /\ FALSE
=============================================================================
