--------------------------- MODULE SamplesTrace ---------------------------
(* Runs of the real sample programs, checked against Samples.tla.           *)
EXTENDS Samples, Json, IOUtils
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
Init == i \in 1..Len(Rec) /\ st = "start"
Next == st = "start" /\ st' = "done" /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, st>>

Cells(l) == {<<l[k][1], l[k][2]>> : k \in DOMAIN l}
Right(r) ==
  CASE r.o = "md5" -> LET x == Md5Run(r.args, r.in) IN r.out = x.out /\ r.err = x.err /\ r.status = x.status
    [] r.o = "life" -> Cells(r.out) = Generation(Cells(r.cells), r.n) /\ Cardinality(Cells(r.out)) = Len(r.out)
    [] r.o = "sudoku" -> SudokuAnswer(r.p, r.a)
    [] r.o = "tictactoe" -> r.status = 0 /\ Session(Empty, r.lines, r.out)
    [] r.o = "revcomp" -> r.status = 0 /\ r.out = RevCompRun(r.seqs)
    [] OTHER -> Assert(FALSE, <<"record", r.o>>)
Verdict == st = "done" => PrintT(<<"OUT", ToJson([id |-> Rec[i].id, ok |-> Rec[i].end = "ok" /\ Right(Rec[i])])>>)
=============================================================================
