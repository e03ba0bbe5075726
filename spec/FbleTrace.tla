----------------------------- MODULE FbleTrace -----------------------------
(* For each program of the file PROGS, what loading, compiling and running   *)
(* it must show.  A program is a set of files and the path of the module to  *)
(* run: [id, fuel, main: path, fs: <<[p: path, src: text as characters]>>].  *)
EXTENDS FbleEval, FbleSyntax, FbleLoad, Json, IOUtils

Progs == ndJsonDeserialize(IOEnv.PROGS)
VARIABLES i, st
Init == i \in 1..Len(Progs) /\ st = "start"
Next == st = "start" /\ st' = "done" /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, st>>

RECURSIVE PathText(_, _)
PathText(p, j) == IF j > Len(p) THEN "%" ELSE "/" \o p[j] \o PathText(p, j + 1)

---------------------------------------------------------------- \* loading
(* P: what each file parses to *)
World(P) == [p \in DOMAIN P |-> IF P[p].ok THEN [k |-> "ok", f |-> 0, deps |-> InOrder(Refs(P[p].e))]
                               ELSE [k |-> "bad", f |-> 0, er |-> P[p].er]]
LoadProg(P, main) ==
  LET W == TLCEval(World(P))
      s == LoadAll(W, LoadInit(W, main))
  IN [ord |-> s.done, er |-> UNION {x.l : x \in Range(s.err)}]

---------------------------------------------------------------- \* checking and running
RECURSIVE Static(_, _, _, _, _, _)
(* checks the modules ord[j..]; M: the types of the modules that checked *)
Static(P, ord, j, M, S, acc) ==
  IF j > Len(ord) THEN acc
  ELSE LET e == P[ord[j]].e IN
       IF \E r \in Refs(e) : r[1] \notin DOMAIN M
       THEN Static(P, ord, j + 1, M, S, acc)
       ELSE LET r == Elab(e, NoFun, S, [M |-> M, path |-> ord[j]])
                a == [er |-> acc.er \cup r.er, cs |-> Append(acc.cs, r.c),
                      w |-> acc.w \cup (IF r.ok THEN Unused(e) ELSE {})]
            IN Static(P, ord, j + 1, IF r.ok THEN (ord[j] :> r.t) @@ M ELSE M, r.S, a)

RECURSIVE Run(_, _, _, _, _)
Run(ord, cs, j, M, s) ==
  LET b == PathText(ord[j], 1)
      r == Eval(cs[j], NoFun, M, Enter(s, b, 0), b, TRUE) IN
  IF ~r.ok \/ j = Len(ord) THEN r
  ELSE Run(ord, cs, j + 1, (ord[j] :> r.v) @@ M, r.st)

Outcome(p) ==
  LET P == [f \in {p.fs[j].p : j \in DOMAIN p.fs} |->
              LET j == CHOOSE h \in DOMAIN p.fs : p.fs[h].p = f IN Parse(p.fs[j].src, j * 10000000)]
      ld == LoadProg(TLCEval(P), p.main)
      s == Static(P, ld.ord, 1, NoFun, NoFun, [er |-> {}, cs |-> <<>>, w |-> {}])
  IN
  IF ld.er # {} THEN [id |-> p.id, o |-> "unloadable", er |-> ld.er]
  ELSE IF s.er # {} THEN [id |-> p.id, o |-> "rejected", er |-> s.er, w |-> s.w, ord |-> ld.ord]
  ELSE IF p.fuel = 0 THEN [id |-> p.id, o |-> "accepted", w |-> s.w, ord |-> ld.ord]
  ELSE LET r == Run(ld.ord, s.cs, 1, NoFun, [h |-> [a \in {} |-> Nil], p |-> NoFun, n |-> p.fuel, d |-> 0, md |-> 0,
                                               ms |-> "space" \in DOMAIN p, mw |-> 0]) IN
       IF r.ok THEN [id |-> p.id, o |-> "value", v |-> Show(r.v, r.st.h, {}), w |-> s.w, n |-> r.st.n, md |-> r.st.md, mw |-> r.st.mw, ord |-> ld.ord,
                     p |-> {[b |-> x[1], l |-> x[2], n |-> r.st.p[x]] : x \in DOMAIN r.st.p}]
       ELSE IF r.st.n <= 0 \/ r.ab = {} THEN [id |-> p.id, o |-> "fuel", w |-> s.w]
       ELSE [id |-> p.id, o |-> "abort", ab |-> r.ab, w |-> s.w, ord |-> ld.ord]

Written == st = "done" => PrintT(<<"OUT", ToJson(Outcome(Progs[i]))>>)
=============================================================================
