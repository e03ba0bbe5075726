----------------------------- MODULE ToolsTrace -----------------------------
(* Recorded runs of the tools checked against Tools.tla.                    *)
EXTENDS Tools, Json, IOUtils
Rec == ndJsonDeserialize(IOEnv.TRACE)
Worlds == ndJsonDeserialize(IOEnv.WORLDS)
VARIABLES i, st
Init == i \in 1..Len(Rec) /\ st = "start"
Next == st = "start" /\ st' = "done" /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, st>>

Pairs(ps) == [x \in {ps[k][1] : k \in DOMAIN ps} |-> ps[CHOOSE k \in DOMAIN ps : ps[k][1] = x][2]]
\* what differs, or ""
Judge(r, o, p) ==
  LET ok(status) == IF r.status # status THEN "status" ELSE ""
      failed(status) == IF r.status # status THEN "status" ELSE IF r.err = 0 THEN "no message" ELSE ""
      quiet(s) == IF s # "" THEN s ELSE IF r.out # 0 THEN "output of a failed run" ELSE ""
      then(s, d) == IF s # "" THEN s ELSE d
  IN CASE o.k \in {"help", "version"} -> then(ok(0), IF r.out = 0 \/ r.err # 0 THEN "output" ELSE IF o.k = "version" /\ ~r.named THEN "name" ELSE "")
       [] o.k = "usage" -> quiet(failed(ToolOf(r.tool).usage))
       [] r.tool = "fble-perf-profile" -> then(ok(0), IF r.out = 0 THEN "output" ELSE "")
       [] r.tool = "fble-deps" -> then(ok(0), IF r.deps # <<o.v["target"], p.read>> THEN "dependencies"
                                              ELSE IF (r.err = 0) # (p.how # "unloadable") THEN "messages" ELSE "")
       [] r.tool = "fble-disassemble" -> IF p.how \in {"unloadable", "rejected"} THEN quiet(failed(1))
                                         ELSE then(ok(0), IF r.out = 0 THEN "output" ELSE "")
       [] r.tool = "fble-compile" ->
            IF o.set # {} /\ p.how \in {"unloadable", "rejected"} THEN failed(1)
            ELSE then(ok(0), CASE r.names # <<>> /\ ((o.v["export"] # Unset) # (o.v["export"] \in Range(r.names))) -> "export"
                               [] (o.v["export"] # Unset \/ o.v["main"] # Unset) /\ r.names = <<>> -> "output"
                               [] (o.v["main"] # Unset) # ("main" \in Range(r.names)) -> "main"
                               [] o.v["main"] # Unset /\ o.v["main"] \notin Range(r.uses) -> "wrapper"
                               [] r.full # (o.set # {}) -> "code"
                               [] OTHER -> "")
       [] r.tool = "fble-test" ->
            IF o.v["profile"] # Unset /\ ~r.writable THEN failed(4)
            ELSE LET how == IF r.compiled THEN "value" ELSE p.how IN
                 IF how \in {"unloadable", "rejected"} THEN failed(1)
                 ELSE then(IF how = "abort" THEN failed(2) ELSE ok(0),
                           IF (o.v["profile"] # Unset) # r.profiled THEN "profile" ELSE "")
Opts(r) == LET w == Worlds[r.world] IN
  Options(r.tool, r.compiled, r.argv, [dirs |-> r.pkgpath, has |-> Range(w.has)])
Verdict == st = "done" =>
  LET r == Rec[i]
      w == Worlds[r.world]
      o == TLCEval(Opts(r))
      p == IF o.k = "run" /\ o.mod # <<>> THEN Program(o, w.fs, Pairs(w.where)) ELSE [read |-> <<>>, how |-> "none"]
      d == TLCEval(Judge(r, o, p))
  IN /\ IF d = "" THEN TRUE ELSE PrintT(<<"BAD", ToJson([id |-> r.id, what |-> d, k |-> o.k, how |-> p.how, read |-> p.read])>>)
     /\ PrintT(<<"OUT", ToJson([id |-> r.id, k |-> o.k, how |-> p.how])>>)
=============================================================================
