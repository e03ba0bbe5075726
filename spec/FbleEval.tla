------------------------------ MODULE FbleEval ------------------------------
(***************************************************************************)
(* Dynamic semantics of fble: evaluation of the core expressions produced  *)
(* by FbleStatic, strictly and with lexical scope.  An evaluation yields a  *)
(* value, or the set of aborts it may report (the order of evaluation of    *)
(* the parts of an expression is open), and counts how often each profile   *)
(* block is entered.  Fuel bounds the number of steps.                      *)
(***************************************************************************)
EXTENDS FbleStatic

VType          == [k |-> "t"]
VStruct(xs)    == [k |-> "s", xs |-> xs]
VUnion(t,n,v)  == [k |-> "u", t |-> t, nt |-> n, v |-> v]
VRef(a)        == [k |-> "r", a |-> a]
VFun(c, env, as, blk) == [k |-> "f", c |-> c, env |-> env, as |-> as, blk |-> blk]
VUnit          == VStruct(<<>>)

(* st: [h: addresses -> value or Nil, p: block -> count, n: fuel,            *)
(* d: active non-tail calls, md: the most there were,                        *)
(* ms: whether to measure what calls hold on to, mw: the most that was]      *)
RECURSIVE Deref(_, _)
Deref(v, h) == IF v.k = "r" THEN IF h[v.a].k = "nil" THEN v ELSE Deref(h[v.a], h) ELSE v

(* An abort: the location l of the failing expression, what happened, and    *)
(* the locations of the active non-tail calls, innermost first.              *)
Abort(l, what) == [l |-> l, what |-> what, cs |-> <<>>]
Val(v, st)  == [ok |-> TRUE, v |-> v, ab |-> {}, st |-> st]
Err(ab, st) == [ok |-> FALSE, v |-> Nil, ab |-> ab, st |-> st]
Through(ab, l) == {[a EXCEPT !.cs = Append(@, l)] : a \in ab}

---------------------------------------------------------------- \* space
(* The variables a core expression needs from outside. *)
RECURSIVE Needs(_), NeedsAll(_, _)
NeedsAll(cs, j) == IF j > Len(cs) THEN {} ELSE Needs(cs[j]) \cup NeedsAll(cs, j + 1)
Needs(c) ==
  CASE c.k = "var"    -> {c.n}
    [] c.k = "let"    -> (NeedsAll([j \in DOMAIN c.bs |-> c.bs[j].c], 1) \cup Needs(c.b)) \ {c.bs[j].n : j \in DOMAIN c.bs}
    [] c.k = "struct" -> NeedsAll(c.as, 1)
    [] c.k = "copy"   -> Needs(c.e) \cup NeedsAll(c.fs, 1)
    [] c.k \in {"union", "acc"} -> Needs(c.e)
    [] c.k = "sel"    -> Needs(c.e) \cup NeedsAll([j \in DOMAIN c.br |-> c.br[j].c], 1)
    [] c.k = "fn"     -> Needs(c.b) \ {c.as[j] : j \in DOMAIN c.as}
    [] c.k = "app"    -> Needs(c.f) \cup NeedsAll(c.as, 1)
    [] c.k = "list"   -> NeedsAll(c.as, 1)
    [] OTHER          -> {}

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
(* How many values the values vs hold on to; seen: the addresses counted so far. *)
RECURSIVE Hold(_, _, _, _)
Hold(vs, j, h, r) ==                  \* r: [w: count, seen: addresses]
  IF j > Len(vs) THEN r
  ELSE LET v == vs[j] IN
       Hold(vs, j + 1, h,
            CASE v.k = "s" -> Hold(v.xs, 1, h, [r EXCEPT !.w = @ + 1])
              [] v.k = "u" -> Hold(<<v.v>>, 1, h, [r EXCEPT !.w = @ + 1])
              [] v.k = "r" -> IF v.a \in r.seen \/ h[v.a].k = "nil" THEN r
                              ELSE Hold(<<h[v.a]>>, 1, h, [r EXCEPT !.seen = @ \cup {v.a}])
              [] v.k = "f" -> LET need == SeqOf(Needs(v.c) \cap DOMAIN v.env) IN
                              Hold([i \in DOMAIN need |-> v.env[need[i]]] \o v.as, 1, h, [r EXCEPT !.w = @ + 1])
              [] OTHER     -> r)
Held(vs, h) == Hold(vs, 1, h, [w |-> 0, seen |-> {}]).w
Max2(a, b) == IF a > b THEN a ELSE b
(* st at a call of f with as from where a call is active only if not tail *)
Called(st, f, as, tail) ==
  LET d == IF tail THEN st.d ELSE st.d + 1 IN
  [st EXCEPT !.d = d, !.md = Max2(@, d), !.mw = IF st.ms THEN Max2(@, Held(<<f>> \o as, st.h)) ELSE @]
Returned(x, st) == [x EXCEPT !.st.d = st.d]

---------------------------------------------------------------- \* evaluation
Enter(st, blk, l) ==
  LET key == <<blk, l>> IN
  [st EXCEPT !.p = (key :> (IF key \in DOMAIN @ THEN @[key] + 1 ELSE 1)) @@ @]

RECURSIVE Eval(_, _, _, _, _, _), EvalAll(_, _, _, _, _, _), Apply(_, _, _, _, _, _),
          EvalDefs(_, _, _, _, _, _), Assign(_, _, _, _), ListOf(_, _), LitOf(_, _, _)

ListOf(xs, j) == IF j > Len(xs) THEN VUnion(2, 2, VUnit)
                 ELSE VUnion(1, 2, VStruct(<<xs[j], ListOf(xs, j + 1)>>))
LitOf(ix, nt, j) == IF j > Len(ix) THEN VUnion(2, 2, VUnit)
                    ELSE VUnion(1, 2, VStruct(<<VUnion(ix[j], nt, VUnit), LitOf(ix, nt, j + 1)>>))

(* all of cs[j..]; every one that aborts contributes its aborts *)
EvalAll(cs, j, env, M, st, blk) ==
  IF j > Len(cs) THEN [ok |-> TRUE, vs |-> <<>>, ab |-> {}, st |-> st]
  ELSE LET r == Eval(cs[j], env, M, st, blk, FALSE)
           q == EvalAll(cs, j + 1, env, M, r.st, blk)
       IN [ok |-> r.ok /\ q.ok, vs |-> <<r.v>> \o q.vs, ab |-> r.ab \cup q.ab, st |-> q.st]

(* the definitions of a let, each in its own profile block *)
EvalDefs(bs, j, env, M, st, blk) ==
  IF j > Len(bs) THEN [ok |-> TRUE, vs |-> <<>>, ab |-> {}, st |-> st]
  ELSE LET b == blk \o "." \o bs[j].n
           r == Eval(bs[j].c, env, M, Enter(st, b, bs[j].bl), b, FALSE)
           q == EvalDefs(bs, j + 1, env, M, r.st, blk)
       IN [ok |-> r.ok /\ q.ok, vs |-> <<r.v>> \o q.vs, ab |-> r.ab \cup q.ab, st |-> q.st]

(* h with addresses base+j defined as vs[j], or the binding whose value is only itself *)
Assign(vs, base, j, h) ==
  IF j > Len(vs) THEN [bad |-> 0, h |-> h]
  ELSE IF Deref(vs[j], h) = VRef(base + j) THEN [bad |-> j, h |-> h]
  ELSE Assign(vs, base, j + 1, [h EXCEPT ![base + j] = vs[j]])

(* applies f to vs; l: the application; tail: it is in tail position *)
Apply(f, vs, M, st, l, tail) ==
  IF st.n <= 0 THEN Err({}, st) ELSE
  LET fd == Deref(f, st.h)
      Up(ab) == IF tail THEN ab ELSE Through(ab, l)
  IN IF fd.k = "r" THEN Err(Up({Abort(l, "undefined function")}), st)
  ELSE LET as == fd.as \o vs
           n == Len(fd.c.as)
       IN IF Len(as) < n THEN Val([fd EXCEPT !.as = as], st)
  ELSE LET env == [s \in {fd.c.as[j] : j \in 1..n} |->
                     LET j == CHOOSE i \in 1..n : fd.c.as[i] = s /\ \A h \in (i + 1)..n : fd.c.as[h] # s
                     IN as[j]] @@ fd.env
           st1 == [Enter(Called(st, fd, as, tail), fd.blk, fd.c.bl) EXCEPT !.n = @ - 1]
           r == Returned(Eval(fd.c.b, env, M, st1, fd.blk, TRUE), st)
       IN IF ~r.ok THEN Err(Up(r.ab), r.st)
          ELSE IF Len(as) = n THEN Val(r.v, r.st)
          ELSE Apply(r.v, SubSeq(as, n + 1, Len(as)), M, r.st, l, tail)

Eval(c, env, M, st, blk, tail) ==
  IF st.n <= 0 THEN Err({}, st) ELSE
  CASE c.k = "type" -> Val(VType, st)
    [] c.k = "var"  -> Val(env[c.n], st)
    [] c.k = "mod"  -> Val(M[c.p], st)
    [] c.k = "let"  ->
         LET base == Cardinality(DOMAIN st.h)
             n == Len(c.bs)
             h1 == [a \in 1..(base + n) |-> IF a <= base THEN st.h[a] ELSE Nil]
             env1 == [s \in {c.bs[j].n : j \in 1..n} |->
                        LET j == CHOOSE i \in 1..n : c.bs[i].n = s IN VRef(base + j)] @@ env
             d == EvalDefs(c.bs, 1, env1, M, [st EXCEPT !.h = h1, !.n = @ - 1], blk)
         IN IF ~d.ok THEN Err(d.ab, d.st) ELSE
         LET a == Assign(d.vs, base, 1, d.st.h) IN
         IF a.bad # 0 THEN Err({Abort(c.bs[a.bad].l, "vacuous value")}, d.st)
         ELSE Eval(c.b, env1, M, [d.st EXCEPT !.h = a.h], blk, tail)
    [] c.k = "struct" ->
         LET r == EvalAll(c.as, 1, env, M, st, blk) IN
         IF r.ok THEN Val(VStruct(r.vs), r.st) ELSE Err(r.ab, r.st)
    [] c.k = "copy" ->
         LET e == Eval(c.e, env, M, st, blk, FALSE)
             given == SelectSeq([i \in DOMAIN c.fs |-> i], LAMBDA i : c.fs[i].k # "nil")
             r == EvalAll([j \in DOMAIN given |-> c.fs[given[j]]], 1, env, M, e.st, blk)
         IN IF ~e.ok \/ ~r.ok THEN Err(e.ab \cup r.ab, r.st) ELSE
         LET v == Deref(e.v, r.st.h) IN
         IF v.k = "r" /\ Len(given) < Len(c.fs) THEN Err({Abort(c.l, "undefined struct")}, r.st)
         ELSE Val(VStruct([i \in DOMAIN c.fs |->
                     IF c.fs[i].k = "nil" THEN v.xs[i]
                     ELSE r.vs[CHOOSE j \in DOMAIN given : given[j] = i]]), r.st)
    [] c.k = "union" ->
         LET r == Eval(c.e, env, M, st, blk, FALSE) IN
         IF r.ok THEN Val(VUnion(c.t, c.nt, r.v), r.st) ELSE r
    [] c.k = "sel" ->
         LET r == Eval(c.e, env, M, st, blk, FALSE) IN
         IF ~r.ok THEN r ELSE
         LET v == Deref(r.v, r.st.h) IN
         IF v.k = "r" THEN Err({Abort(c.l, "undefined union")}, r.st)
         ELSE LET b == c.br[v.t]
                  nb == blk \o "." \o b.n
              IN Eval(b.c, env, M, [Enter(r.st, nb, b.bl) EXCEPT !.n = @ - 1], nb, tail)
    [] c.k = "acc" ->
         LET r == Eval(c.e, env, M, st, blk, FALSE) IN
         IF ~r.ok THEN r ELSE
         LET v == Deref(r.v, r.st.h) IN
         IF v.k = "r" THEN Err({Abort(c.l, "undefined " \o c.d)}, r.st)
         ELSE IF c.d = "struct" THEN Val(v.xs[c.t], r.st)
         ELSE IF v.t # c.t THEN Err({Abort(c.l, "wrong field")}, r.st) ELSE Val(v.v, r.st)
    [] c.k = "fn"   -> Val(VFun(c, env, <<>>, blk \o "!"), st)
    [] c.k = "app"  ->
         LET f == Eval(c.f, env, M, st, blk, FALSE)
             r == EvalAll(c.as, 1, env, M, f.st, blk)
         IN IF ~f.ok \/ ~r.ok THEN Err(f.ab \cup r.ab, r.st)
            ELSE Apply(f.v, r.vs, M, r.st, c.l, tail)
    [] c.k = "list" ->
         LET r == EvalAll(c.as, 1, env, M, st, blk) IN
         IF r.ok THEN Val(ListOf(r.vs, 1), r.st) ELSE Err(r.ab, r.st)
    [] c.k = "lit"  -> Val(LitOf(c.ix, c.nt, 1), st)

(* The value as text: S(..) struct, Ut/n(..) union, F function, T type, and   *)
(* the character * for a value inside itself (open: the references on the path)*)
RECURSIVE Chain(_, _), Show(_, _, _), ShowAll(_, _, _, _)
Chain(v, h) == IF v.k = "r" THEN {v.a} \cup (IF h[v.a].k = "nil" THEN {} ELSE Chain(h[v.a], h)) ELSE {}
ShowAll(xs, j, h, open) ==
  IF j > Len(xs) THEN ""
  ELSE (IF j > 1 THEN "," ELSE "") \o Show(xs[j], h, open) \o ShowAll(xs, j + 1, h, open)
Show(v, h, open) ==
  LET d == Deref(v, h)
      as == Chain(v, h)
      in == open \cup as
  IN IF as \cap open # {} THEN "*" ELSE
  CASE d.k = "s" -> "S" \o ToString(Len(d.xs)) \o "(" \o ShowAll(d.xs, 1, h, in) \o ")"
    [] d.k = "u" -> "U" \o ToString(d.t - 1) \o "/" \o ToString(d.nt) \o "(" \o Show(d.v, h, in) \o ")"
    [] d.k = "f" -> "F"
    [] d.k = "t" -> "T"
    [] d.k = "r" -> "R"
=============================================================================
