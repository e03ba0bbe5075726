----------------------------- MODULE StdioTrace -----------------------------
(* Runs of the real driver, interpreted, compiled and pure, checked against *)
(* Stdio.tla.                                                               *)
EXTENDS Stdio, Json, IOUtils
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
Init == i \in 1..Len(Rec) /\ st = "start"
Next == st = "start" /\ st' = "done" /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, st>>

\* recorded: functions are sequences of pairs
Fn(ps) == [x \in {ps[k][1] : k \in DOMAIN ps} |-> (CHOOSE k \in DOMAIN ps : ps[k][1] = x)]
Map(ps) == LET f == TLCEval(Fn(ps)) IN [x \in DOMAIN f |-> ps[f[x]][2]]
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* what differs, or ""
Process(r) ==
  LET files == Map(r.files)
      c == [compiled |-> r.compiled, pkgs |-> Map(r.pkgs), dirs |-> Range(r.dirs), modules |-> Range(r.modules),
            missing |-> Range(r.missing), profs |-> Range(r.profs)]
      o == TLCEval(Options(r.argv, c))
      end == Map(r.after)
      w == World(r.in, files, Range(r.creatable))
      e == TLCEval(IF r.cat THEN Cat(o.args, w) ELSE Program(o.args, Map(r.env), w))
  IN IF o.k # "run"
     THEN IF r.status # Status(o.k) THEN "status"
          ELSE IF o.k \in {"help", "version"} /\ r.out = <<>> THEN "nothing printed"
          ELSE IF o.k \in {"usage", "failure"} /\ (r.out # <<>> \/ r.err = <<>>) THEN "printed"
          ELSE IF end # files THEN "files" ELSE ""
     ELSE IF r.status # Status(e.res) THEN "status"
          ELSE IF r.out # e.w.out THEN "output"
          ELSE IF (IF e.res = "abort" THEN ~(Prefix(e.w.err, r.err) /\ r.err # e.w.err) ELSE r.err # e.w.err) THEN "error output"
          ELSE IF end # e.w.files THEN "files"
          ELSE IF o.profile # NoFile /\ ~r.profiled THEN "profile" ELSE ""
Without(r) ==
  LET e == TLCEval(Program(r.argv, <<>>, World(r.in, <<>>, {})))
  IN IF (e.res = "abort") # (r.status = 3) THEN "status"
     ELSE IF e.res = "abort" THEN ""
     ELSE IF r.status # Status(e.res) THEN "status"
     ELSE IF r.out # e.w.out THEN "output" ELSE IF r.err # e.w.err THEN "error output"
     ELSE IF r.left # Left(e.w, 1) THEN "input" ELSE ""
Verdict == st = "done" =>
  LET d == TLCEval(IF Rec[i].pure THEN Without(Rec[i]) ELSE Process(Rec[i]))
  IN /\ IF d = "" THEN TRUE ELSE PrintT(<<"BAD", ToJson([id |-> Rec[i].id, what |-> d])>>)
     /\ PrintT(<<"OUT", ToJson([id |-> Rec[i].id, k |-> IF Rec[i].pure THEN "pure" ELSE
           LET c == [compiled |-> Rec[i].compiled, pkgs |-> Map(Rec[i].pkgs), dirs |-> Range(Rec[i].dirs), modules |-> Range(Rec[i].modules),
                     missing |-> Range(Rec[i].missing), profs |-> Range(Rec[i].profs)]
           IN Options(Rec[i].argv, c).k, s |-> Rec[i].status])>>)
=============================================================================
