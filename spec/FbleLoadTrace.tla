--------------------------- MODULE FbleLoadTrace ---------------------------
(* For each tree of files in TREES, what loading a module must do.           *)
(* [id, main, sp: search path, a sequence of directories by number,          *)
(*  fs: <<[d: directory, p: module path, src: text as characters]>>]          *)
EXTENDS FbleLoad, FbleSyntax, FbleTree, Json, IOUtils

Trees == ndJsonDeserialize(IOEnv.TREES)
VARIABLES i, st
Init == i \in 1..Len(Trees) /\ st = "start"
Next == st = "start" /\ st' = "done" /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, st>>

(* the file of module p: in the first directory of the search path that has it; 0 if there is none *)
RECURSIVE Find(_, _, _)
Find(t, p, j) ==
  IF j > Len(t.sp) THEN 0
  ELSE LET h == {q \in DOMAIN t.fs : t.fs[q].d = t.sp[j] /\ t.fs[q].p = p} IN
       IF h = {} THEN Find(t, p, j + 1) ELSE CHOOSE q \in h : TRUE
World(t) ==
  [p \in {t.fs[j].p : j \in DOMAIN t.fs} |->
     LET f == Find(t, p, 1) IN
     IF f = 0 THEN [k |-> "none"]
     ELSE LET r == Parse(t.fs[f].src, f * 10000000) IN
          IF r.ok THEN [k |-> "ok", f |-> f, deps |-> InOrder(Refs(r.e))]
          ELSE [k |-> "bad", f |-> f, er |-> r.er]]
Outcome(t) ==
  LET w == TLCEval(World(t))
      s == LoadAll(w, LoadInit(w, t.main))
  IN [id |-> t.id, ok |-> s.err = <<>>, done |-> s.done, read |-> s.read, err |-> s.err,
      good |-> Correct(w, t.main, s)]
Written == st = "done" => PrintT(<<"OUT", ToJson(Outcome(Trees[i]))>>)
=============================================================================
