------------------------------ MODULE SatTrace ------------------------------
(* Answers of the real sat package (harness/valcalc.c, and the program),    *)
(* checked against Sat.tla.                                                 *)
EXTENDS Sat, Json, IOUtils
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
Init == i \in 1..Len(Rec) /\ st = "start"
Next == st = "start" /\ st' = "done" /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, st>>

\* recorded: a literal is <<id, 0 or 1>> (0: true), a result <<tag, argument>>
L2(x) == Lit(x[1], x[2] = 0)
C2(c) == [k \in DOMAIN c |-> L2(c[k])]
F2(f) == [k \in DOMAIN f |-> C2(f[k])]
A2(r) == [sat |-> r[1] = 0, model |-> IF r[1] = 0 THEN C2(r[2]) ELSE <<>>]
Parsed(r, p) == IF p.ok THEN r[1] = 1 /\ F2(r[2]) = p.f ELSE r[1] = 0

Right(op) ==
  CASE op.o = "solve" -> Correct(A2(op.r), Clauses(F2(op.f)))
    [] op.o = "claim" -> LET a == A2(op.r) IN a.sat = op.sat /\ (a.sat => Model(a.model, Clauses(F2(op.f))))
    [] op.o = "parse" -> Parsed(op.r, Parse(op.s))
    [] op.o = "lines" -> Parsed(op.r, ParseLines(op.l))
    [] op.o = "show" -> op.r = ShowAnswer([sat |-> op.sat, model |-> C2(op.m)])
    [] op.o = "showf" -> op.r = ShowFormula(F2(op.f))
    [] op.o = "program" -> ProgramDid(op.s, op.out, op.r)
    [] OTHER -> Assert(FALSE, <<"operation", op.o>>)
Wrong(rec) == {x \in Range(rec.ops) : x.t = "A" \/ ~Right(x)}
Verdict == st = "done" =>
  LET w == Wrong(Rec[i])
  IN /\ IF w = {} /\ Rec[i].end = "ok" THEN TRUE
        ELSE PrintT(<<"BAD", ToJson([id |-> Rec[i].id, at |-> IF w = {} THEN 0 ELSE CHOOSE j \in {x.j : x \in w} : \A x \in w : j <= x.j])>>)
     /\ PrintT(<<"OUT", ToJson([id |-> Rec[i].id, sat |-> Cardinality({k \in DOMAIN Rec[i].ops :
            LET x == Rec[i].ops[k] IN x.o = "solve" /\ x.t = "V" /\ x.r[1] = 0})])>>)
=============================================================================
