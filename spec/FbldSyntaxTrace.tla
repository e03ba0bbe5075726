-------------------------- MODULE FbldSyntaxTrace --------------------------
(* Conformance: the structure the real parser returns for each recorded text *)
(* is the one FbldSyntax assigns.                                            *)
EXTENDS FbldSyntax, Json, IOUtils

Docs == ndJsonDeserialize(IOEnv.DOCS)       \* [id, lines, rc, m, errs]
VARIABLES i, st
Init == i \in 1..Len(Docs) /\ st = "start"
Next == st = "start" /\ st' = "done" /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, st>>

Exp(rec) == ParseDoc(rec.lines)

Located(rec, r, e) ==
  IF r.l = <<0, 0, 0>> THEN e[2] >= 1 /\ e[2] <= rec.nl + 1 ELSE e = r.l

Allowed(rec) ==
  LET r == Exp(rec) IN
  IF rec.gone THEN rec.rc = 1 /\ rec.said       \* an input file that cannot be read
  ELSE IF r.ok THEN rec.rc = 0 /\ rec.m = r.m
  ELSE IF r.k = "unspecified" THEN rec.rc \in {0, 1}
  ELSE rec.rc = 1 /\ Len(rec.errs) = 1 /\ Located(rec, r, rec.errs[1])

Conforms ==
  st = "done" =>
    \/ Allowed(Docs[i])
    \/ PrintT(<<"MISMATCH", ToJson([id |-> Docs[i].id, exp |-> Exp(Docs[i])])>>) /\ FALSE
=============================================================================
