---------------------------- MODULE ProfileTrace ----------------------------
(* Recorded runs of the profiler (harness/profrun.c, bin/fble-perf-profile) *)
(* checked against Profile.tla.                                             *)
EXTENDS Profile, Json, IOUtils, SequencesExt
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
Init == i \in 1..Len(Rec) /\ st = "start"
Next == st = "start" /\ st' = "done" /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, st>>

\* Lines of collapsed stacks, as fble-perf-profile reads them: blocks are numbered in order of first appearance.
RECURSIVE PerfLine(_, _, _)
PerfLine(a, names, squash) ==        \* a: [s, seen]
  IF names = <<>> THEN a ELSE
  LET x == Head(names) IN
  IF x \in Range(squash) THEN PerfLine(a, Tail(names), squash) ELSE
  LET known == \E k \in 1..Len(a.seen) : a.seen[k] = x
      seen == IF known THEN a.seen ELSE Append(a.seen, x)
      id == (CHOOSE k \in 1..Len(seen) : seen[k] = x) - 1
      s == IF known THEN a.s ELSE AddBlock(a.s)
  IN PerfLine([s |-> TLCEval(Enter(s, 1, id)), seen |-> seen], Tail(names), squash)
RECURSIVE Leave(_)
Leave(s) == IF Len(s.threads[1]) = 1 THEN s ELSE Leave(Exit(s, 1))
Perf(lines, squash, max) ==
  LET F(a, l) == LET b == PerfLine(a, l.names, squash) IN
                 [s |-> TLCEval(Leave(Sample(b.s, 1, l.count))), seen |-> b.seen]
  IN FoldLeft(F, [s |-> AddThread(New(max, TRUE)), seen |-> <<"<root>">>], lines)

Judge(r) ==
  IF r.kind = "perf" THEN
    LET p == Perf(r.lines, r.squash, r.max) IN
    IF r.rc = 0 /\ Report(p.s, r.report, p.seen, [k \in 1..Len(p.seen) |-> IF k = 1 THEN ":0:0" ELSE "???:0:0"])
    THEN "ok" ELSE "report"
  ELSE
    LET s == FoldLeft(Step, New(r.max, r.on), r.events) IN
    IF ~Table(s, r.table) THEN "numbers"
    ELSE IF ~Report(s, r.report, r.names, r.locs) THEN "report"
    ELSE IF \E k \in 1..Len(r.random) : 20 * Abs(r.random[k].taken - r.random[k].expected) > r.random[k].expected THEN "sampling rate"
    ELSE "ok"
Verdict == st = "done" => LET v == Judge(Rec[i]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", ToJson([id |-> Rec[i].id, why |-> v])>>)
=============================================================================
