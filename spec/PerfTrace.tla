------------------------------ MODULE PerfTrace ------------------------------
(* Recorded runs of fble-perf-profile checked against PerfText.tla.          *)
EXTENDS PerfText, Json, IOUtils
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
Init == i \in 1..Len(Rec) /\ st = "start"
Next == st = "start" /\ st' = "done" /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, st>>

\* The last line may lack its newline: then it may count as a line or not.
Allowed(r, text) ==
  LET m == Meaning(text, {r.squash[k] : k \in 1..Len(r.squash)}, r.max) IN
  CASE m.status = "open" -> r.rc \in {0, 1}
    [] m.status = "fail" -> r.rc = 1 /\ r.said /\ r.report = [none |-> TRUE]
    [] m.status = "ok" ->
         /\ r.rc = 0 /\ ~r.said /\ "overall" \in DOMAIN r.report
         /\ Report(m.s, r.report, m.seen, [k \in 1..Len(m.seen) |-> IF k = 1 THEN Loc0 ELSE "???" \o Loc0])
Judge(r) ==
  IF Allowed(r, r.text) \/ (~Terminated(r.text) /\ Allowed(r, Append(r.text, NL))) THEN "ok" ELSE "report"
Verdict == st = "done" =>
  LET r == Rec[i] 
      v == Judge(r)
      m == Meaning(r.text, {r.squash[k] : k \in 1..Len(r.squash)}, r.max) IN
  /\ PrintT(<<"OUT", ToJson([id |-> r.id, status |-> m.status, blocks |-> Len(m.seen), time |-> m.s.time[0]])>>)
  /\ IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", ToJson([id |-> r.id, why |-> v])>>)
=============================================================================
