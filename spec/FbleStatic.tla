----------------------------- MODULE FbleStatic -----------------------------
(***************************************************************************)
(* Static semantics of the fble language: kinds, types, type equality,     *)
(* type inference and the typing rules, as a function from syntax trees    *)
(* either to the set of locations at which an error may be reported, or to *)
(* a type and a core expression whose evaluation FbleEval defines.         *)
(*                                                                         *)
(* Types are finite trees over variables.  A variable bound by a let has a *)
(* definition in the store S, so types are regular infinite trees; TVar    *)
(* carries the substitution that is pending for that definition.           *)
(***************************************************************************)
EXTENDS FbleTree

Nil   == [k |-> "nil"]
NoFun == [x \in {} |-> Nil]
Restrict(f, D) == [x \in (DOMAIN f) \cap D |-> f[x]]

---------------------------------------------------------------- \* kinds
KB(n)    == [k |-> "b", lv |-> n]
KP(a, r) == [k |-> "p", a |-> a, r |-> r]

RECURSIVE KLevel(_), KAdj(_, _), KOf(_)
KLevel(x)  == IF x.k = "b" THEN x.lv ELSE KLevel(x.r)
KAdj(x, d) == IF x.k = "b" THEN KB(x.lv + d) ELSE KP(x.a, KAdj(x.r, d))
(* the kind written in the syntax tree *)
KOf(x) == IF x.k = "b" THEN KB(x.lv) ELSE KP(KOf(x.a), KOf(x.r))

---------------------------------------------------------------- \* types
TData(d, fs)  == [k |-> "data", d |-> d, fs |-> fs]       \* fs: <<[n, ty]>>
TFunc(a, r)   == [k |-> "func", a |-> a, r |-> r]
TPkg(p)       == [k |-> "pkg", p |-> p]
TAbs(pk, t)   == [k |-> "abs", pk |-> pk, t |-> t]
TVar(id, sub) == [k |-> "var", id |-> id, sub |-> sub]
TType(t)      == [k |-> "type", t |-> t]
RECURSIVE TPoly(_, _), TApp(_, _)
(* the type of a poly (application) of a type is the type of the poly (application) *)
TPoly(v, b) == IF b.k = "type" THEN TType(TPoly(v, b.t)) ELSE [k |-> "poly", v |-> v, b |-> b]
TApp(p, a)  == IF p.k = "type" THEN TType(TApp(p.t, a)) ELSE [k |-> "app", p |-> p, a |-> a]
TUnit == TData("struct", <<>>)

ValueOf(t) == IF t.k = "type" THEN t.t ELSE Nil
Defined(id, S) == S[id].v.k # "nil"

RECURSIVE Kind(_, _)
Kind(t, S) ==
  CASE t.k \in {"data", "func", "pkg", "abs"} -> KB(0)
    [] t.k = "poly" -> KP(KAdj(S[t.v].kd, 1), Kind(t.b, S))
    [] t.k = "app"  -> Kind(t.p, S).r
    [] t.k = "var"  -> S[t.id].kd
    [] t.k = "type" -> KAdj(Kind(t.t, S), 1)

(* the variables without definition that occur free in the unfolding of t *)
RECURSIVE FV(_, _, _)
FV(t, S, seen) ==
  CASE t.k = "data" -> UNION {FV(t.fs[j].ty, S, seen) : j \in DOMAIN t.fs}
    [] t.k = "func" -> FV(t.a, S, seen) \cup FV(t.r, S, seen)
    [] t.k = "poly" -> FV(t.b, S, seen) \ {t.v}
    [] t.k = "app"  -> FV(t.p, S, seen) \cup FV(t.a, S, seen)
    [] t.k = "pkg"  -> {}
    [] t.k = "abs"  -> FV(t.t, S, seen)
    [] t.k = "type" -> FV(t.t, S, seen)
    [] t.k = "var"  ->
         IF ~Defined(t.id, S) THEN {t.id}
         ELSE UNION {FV(t.sub[x], S, seen) : x \in DOMAIN t.sub}
              \cup (IF t.id \in seen THEN {}
                    ELSE FV(S[t.id].v, S, seen \cup {t.id}) \ DOMAIN t.sub)

(* simultaneous substitution g of types for undefined variables *)
RECURSIVE Subst(_, _, _)
Subst(t, g, S) ==
  IF DOMAIN g = {} THEN t ELSE
  CASE t.k = "data" -> TData(t.d, [j \in DOMAIN t.fs |-> [n |-> t.fs[j].n, ty |-> Subst(t.fs[j].ty, g, S)]])
    [] t.k = "func" -> TFunc(Subst(t.a, g, S), Subst(t.r, g, S))
    [] t.k = "poly" -> TPoly(t.v, Subst(t.b, Restrict(g, DOMAIN g \ {t.v}), S))
    [] t.k = "app"  -> TApp(Subst(t.p, g, S), Subst(t.a, g, S))
    [] t.k = "pkg"  -> t
    [] t.k = "abs"  -> TAbs(t.pk, Subst(t.t, g, S))
    [] t.k = "type" -> TType(Subst(t.t, g, S))
    [] t.k = "var"  ->
         IF ~Defined(t.id, S) THEN IF t.id \in DOMAIN g THEN g[t.id] ELSE t
         ELSE LET own == [x \in DOMAIN t.sub |-> Subst(t.sub[x], g, S)]
                  new == Restrict(g, FV(S[t.id].v, S, {t.id}) \ DOMAIN t.sub)
              IN TVar(t.id, own @@ new)

Unfold(t, S) == Subst(S[t.id].v, t.sub, S)

(* Head normal form; Nil if unfolding never produces a head (vacuous type). *)
RECURSIVE Norm_(_, _, _)
Norm_(t, S, seen) ==
  IF t \in seen THEN Nil
  ELSE LET sn == seen \cup {t} IN
  CASE t.k = "var" /\ Defined(t.id, S) -> Norm_(Unfold(t, S), S, sn)
    [] t.k = "app" ->
         LET p == Norm_(t.p, S, sn) IN
         IF p.k = "nil" THEN Nil
         ELSE IF p.k = "poly" THEN Norm_(Subst(p.b, p.v :> t.a, S), S, sn)
         ELSE TApp(p, t.a)
    [] t.k = "poly" ->                                  \* \x -> f x  is  f
         LET b == Norm_(t.b, S, sn) IN
         IF b.k = "nil" THEN Nil
         ELSE IF b.k = "app" /\ t.v \notin FV(b.p, S, {})
                  /\ Norm_(b.a, S, sn) = TVar(t.v, NoFun)
              THEN b.p ELSE t
    [] OTHER -> t
Norm(t, S) == Norm_(t, S, {})

RECURSIVE Vacuous(_, _)
Vacuous(t, S) ==
  LET n == Norm(t, S) IN
  CASE n.k = "nil"  -> TRUE
    [] n.k = "type" -> Vacuous(n.t, S)
    [] n.k = "poly" -> Vacuous(n.b, S)
    [] OTHER -> FALSE

(* Equality of unfoldings, coinductively: A holds the pairs assumed equal.    *)
(* iv are variables of a whose value is inferred; inf their values so far.    *)
(* bb are the variables bound on the b side around the types compared.       *)
(* tr, if not Nil, is the package whose abstract types are transparent.      *)
RECURSIVE TEq_(_, _, _, _, _, _, _, _), TEqFields(_, _, _, _, _, _, _, _, _)
TEq_(a, b, iv, inf, A, bb, tr, S) ==
  LET No == [ok |-> FALSE, inf |-> inf]
      Yes == [ok |-> TRUE, inf |-> inf]
      na0 == Norm(a, S)
      isv == na0.k = "var" /\ na0.id \in iv
  IN
  IF isv /\ na0.id \notin DOMAIN inf
  THEN IF FV(b, S, {}) \cap bb # {} THEN No               \* would escape its scope
       ELSE [ok |-> TRUE, inf |-> (na0.id :> b) @@ inf]
  ELSE
  LET na == IF isv THEN Norm(inf[na0.id], S) ELSE na0
      nb == Norm(b, S)
      B  == A \cup {<<na, nb>>}
      Both(a1, b1, a2, b2) ==
        LET r == TEq_(a1, b1, iv, inf, B, bb, tr, S) IN
        IF r.ok THEN TEq_(a2, b2, iv, r.inf, B, bb, tr, S) ELSE r
  IN
  CASE <<na, nb>> \in A -> Yes
    [] na.k = "abs" /\ tr.k = "pkg" /\ na.pk = tr -> TEq_(na.t, nb, iv, inf, B, bb, tr, S)
    [] ~(na.k = "abs" /\ tr.k = "pkg" /\ na.pk = tr) /\ nb.k = "abs" /\ tr.k = "pkg" /\ nb.pk = tr
       -> TEq_(na, nb.t, iv, inf, B, bb, tr, S)
    [] OTHER ->
       IF na.k # nb.k THEN No
       ELSE CASE na.k = "data" ->
                   IF na.d # nb.d \/ Len(na.fs) # Len(nb.fs) THEN No
                   ELSE TEqFields(na.fs, nb.fs, 1, iv, inf, B, bb, tr, S)
              [] na.k = "func" -> Both(na.a, nb.a, na.r, nb.r)
              [] na.k = "app"  -> Both(na.p, nb.p, na.a, nb.a)
              [] na.k = "poly" ->
                   IF S[na.v].kd # S[nb.v].kd THEN No
                   ELSE TEq_(na.b, nb.b, iv, inf, B \cup {<<TVar(na.v, NoFun), TVar(nb.v, NoFun)>>},
                             bb \cup {nb.v}, tr, S)
              [] na.k = "pkg"  -> [ok |-> na.p = nb.p, inf |-> inf]
              [] na.k = "abs"  -> IF na.pk # nb.pk THEN No ELSE TEq_(na.t, nb.t, iv, inf, B, bb, tr, S)
              [] na.k = "var"  -> [ok |-> na.id = nb.id, inf |-> inf]
              [] na.k = "type" -> TEq_(na.t, nb.t, iv, inf, B, bb, tr, S)
TEqFields(x, y, j, iv, inf, A, bb, tr, S) ==
  IF j > Len(x) THEN [ok |-> TRUE, inf |-> inf]
  ELSE IF x[j].n # y[j].n THEN [ok |-> FALSE, inf |-> inf]
  ELSE LET r == TEq_(x[j].ty, y[j].ty, iv, inf, A, bb, tr, S) IN
       IF ~r.ok THEN r ELSE TEqFields(x, y, j + 1, iv, r.inf, A, bb, tr, S)

TEq(a, b, S) == TEq_(a, b, {}, NoFun, {}, {}, Nil, S).ok
TEqIn(pk, a, b, S) == TEq_(a, b, {}, NoFun, {}, {}, pk, S).ok

(* the element type if t is a list type, else Nil *)
ListElem(t, S) ==
  LET u == Norm(t, S) IN
  IF u.k # "data" \/ u.d # "union" \/ Len(u.fs) # 2 THEN Nil
  ELSE LET n == Norm(u.fs[2].ty, S)
           c == Norm(u.fs[1].ty, S) IN
       IF n # TUnit \/ c.k # "data" \/ c.d # "struct" \/ Len(c.fs) # 2 THEN Nil
       ELSE IF TEq(t, c.fs[2].ty, S) THEN c.fs[1].ty ELSE Nil

---------------------------------------------------------------- \* polys
RECURSIVE Depoly(_, _)
Depoly(t, S) ==
  LET n == Norm(t, S) IN
  IF n.k # "poly" THEN [vs |-> <<>>, b |-> n]
  ELSE LET r == Depoly(n.b, S) IN [vs |-> <<n.v>> \o r.vs, b |-> r.b]

(* typeof(poly<arg>) given typeof(poly) and typeof(arg) *)
PolyApply(pt, at, S) ==
  LET pk == Kind(pt, S) IN
  IF pk.k = "p"
  THEN IF Kind(at, S) # pk.a THEN [ok |-> FALSE, arg |-> TRUE, t |-> Nil]
       ELSE [ok |-> TRUE, arg |-> FALSE, t |-> TApp(pt, ValueOf(at))]
  ELSE LET v == ValueOf(pt)
           p == IF v.k = "nil" THEN Nil ELSE Norm(v, S) IN
       IF p.k = "pkg"
       THEN IF at.k # "type" THEN [ok |-> FALSE, arg |-> TRUE, t |-> Nil]
            ELSE [ok |-> TRUE, arg |-> FALSE, t |-> TType(TAbs(p, at.t))]
       ELSE [ok |-> FALSE, arg |-> FALSE, t |-> Nil]

RECURSIVE InferFrom(_, _, _, _, _, _), ApplyVars(_, _, _, _, _)
(* infers from expected[j..] against actual[j..]; bad: the arguments from the first mismatch on *)
InferFrom(ex, ac, j, iv, inf, S) ==
  IF j > Len(ex) THEN [bad |-> {}, inf |-> inf]
  ELSE LET r == TEq_(ex[j], ac[j].t, iv, inf, {}, {}, Nil, S) IN
       IF ~r.ok THEN [bad |-> j..Len(ex), inf |-> inf]
       ELSE InferFrom(ex, ac, j + 1, iv, r.inf, S)
ApplyVars(t, vs, j, inf, S) ==
  IF j > Len(vs) THEN [ok |-> TRUE, t |-> t]
  ELSE IF vs[j] \notin DOMAIN inf THEN [ok |-> FALSE, t |-> Nil]
  ELSE LET r == PolyApply(t, TType(inf[vs[j]]), S) IN
       IF ~r.ok THEN [ok |-> FALSE, t |-> Nil] ELSE ApplyVars(r.t, vs, j + 1, inf, S)
(* the type pt with its parameters vs inferred from actual arguments; ls: where to blame the whole *)
InferArgs(pt, vs, ex, ac, ls, S) ==
  IF Len(ex) # Len(ac) THEN [ok |-> FALSE, er |-> ls, t |-> Nil]
  ELSE LET r == InferFrom(ex, ac, 1, {vs[j] : j \in DOMAIN vs}, NoFun, S) IN
       IF r.bad # {} THEN [ok |-> FALSE, er |-> UNION {{ac[j].l, ac[j].tl} : j \in r.bad}, t |-> Nil]
       ELSE LET q == ApplyVars(pt, vs, 1, r.inf, S) IN
            [ok |-> q.ok, er |-> IF q.ok THEN {} ELSE ls, t |-> q.t]

---------------------------------------------------------------- \* typing rules
(* Result of checking an expression: ok, the error locations er, its type t,  *)
(* its core form c, the extended store S, its location l and the location tl  *)
(* of the expression that computes its value once types are erased.           *)
Good(e, t, c, S)     == [ok |-> TRUE, er |-> {}, t |-> t, c |-> c, S |-> S, l |-> e.l, tl |-> e.l]
GoodAt(e, t, c, S, tl) == [ok |-> TRUE, er |-> {}, t |-> t, c |-> c, S |-> S, l |-> e.l, tl |-> tl]
Fail(e, er, S)       == [ok |-> FALSE, er |-> er, t |-> Nil, c |-> Nil, S |-> S, l |-> e.l, tl |-> e.l]
CType == [k |-> "type"]

(* a name may be given to something of type t *)
NameFits(n, t, S) == KLevel(Kind(t, S)) = IF n.t THEN 1 ELSE 0
DupNames(xs) == {xs[j].n.l : j \in {i \in DOMAIN xs : \E h \in 1..(i - 1) : xs[h].n.s = xs[i].n.s}}
OkAll(rs) == \A j \in DOMAIN rs : rs[j].ok
ErAll(rs) == UNION {rs[j].er : j \in DOMAIN rs}
IsPrefix_(p, m) == Len(p) <= Len(m) /\ \A j \in DOMAIN p : p[j] = m[j]

(* the location of the character of w after its first n, which start at l *)
RECURSIVE LocAfter(_, _, _)
LocAfter(w, n, l) ==
  IF n = 0 THEN l
  ELSE LET m == LocAfter(w, n - 1, l) IN
       IF SubSeq(w, n, n) = "\n" THEN (m \div 1000 + 1) * 1000 + 1 ELSE m + 1

(* the word a name is written with: see PName of FbleSyntax *)
Word(s) ==
  LET n == Len(s)
  IN IF n > 0 /\ SubSeq(s, n, n) = "@" THEN SubSeq(s, 1, n - 1)
     ELSE IF n > 2 /\ SubSeq(s, n - 1, n) = "@'" /\ SubSeq(s, 1, 1) = "'" THEN SubSeq(s, 2, n - 1)
     ELSE s

(* letters of word w from position p under the longest-match rule *)
RECURSIVE Letters(_, _, _, _)
Letters(w, p, fs, S) ==
  IF p > Len(w) THEN [ok |-> TRUE, ix |-> <<>>, at |-> 0]
  ELSE LET left == Len(w) - p + 1
           fit == {j \in DOMAIN fs : LET n == Word(fs[j].n) q == Len(n) IN
                     q > 0 /\ q <= left /\ SubSeq(w, p, p + q - 1) = n}
       IN IF fit = {} THEN [ok |-> FALSE, ix |-> <<>>, at |-> p - 1]
          ELSE LET b == CHOOSE j \in fit : \A h \in fit : Len(Word(fs[h].n)) <= Len(Word(fs[j].n)) IN
               IF ~TEq(TUnit, fs[b].ty, S) THEN [ok |-> FALSE, ix |-> <<>>, at |-> p - 1]
               ELSE LET r == Letters(w, p + Len(Word(fs[b].n)), fs, S) IN
                    [ok |-> r.ok, ix |-> <<b>> \o r.ix, at |-> r.at]

MkFn(as, b, l) == IF b.k = "fn" THEN [k |-> "fn", as |-> as \o b.as, b |-> b.b, bl |-> b.bl]
                  ELSE [k |-> "fn", as |-> as, b |-> b, bl |-> l]
MkApp(f, a, l) == IF f.k = "app" THEN [k |-> "app", f |-> f.f, as |-> f.as \o <<a>>, l |-> l]
                  ELSE [k |-> "app", f |-> f, as |-> <<a>>, l |-> l]

RECURSIVE Elab(_, _, _, _), ElabT(_, _, _, _), ElabAll(_, _, _, _, _), ElabTAll(_, _, _, _, _),
          LetTypes(_, _, _, _, _), Func(_, _, _, _, _), Poly(_, _, _, _, _), PolyArgs(_, _, _, _, _, _),
          Choices(_, _, _, _, _, _, _, _), ApplyArgs(_, _, _, _, _, _, _)

(* G: names in scope, key -> [t, tv];  X: [M: module types, path: the module being checked] *)
ElabAll(es, j, G, S, X) ==
  IF j > Len(es) THEN [rs |-> <<>>, S |-> S]
  ELSE LET r == Elab(es[j], G, S, X)
           q == ElabAll(es, j + 1, G, r.S, X)
       IN [rs |-> <<r>> \o q.rs, S |-> q.S]
ElabTAll(es, j, G, S, X) ==
  IF j > Len(es) THEN [rs |-> <<>>, S |-> S]
  ELSE LET r == ElabT(es[j], G, S, X)
           q == ElabTAll(es, j + 1, G, r.S, X)
       IN [rs |-> <<r>> \o q.rs, S |-> q.S]

RECURSIVE FuncT(_, _, _)
FuncT(as, j, r) == IF j > Len(as) THEN r ELSE TFunc(as[j].t, FuncT(as, j + 1, r))

(* the type that type expression e denotes *)
ElabT(e, G, S, X) ==
  CASE e.k = "typeof" ->
         LET r == Elab(e.e, G, S, X) IN
         IF r.ok THEN Good(e, r.t, CType, r.S) ELSE Fail(e, r.er, r.S)
    [] e.k = "data" ->
         LET q == ElabTAll([j \in DOMAIN e.fs |-> e.fs[j].e], 1, G, S, X)
             bad == {j \in DOMAIN e.fs : q.rs[j].ok /\ ~NameFits(e.fs[j].n, q.rs[j].t, q.S)}
             er == ErAll(q.rs) \cup {e.fs[j].n.l : j \in bad} \cup DupNames(e.fs)
         IN IF er # {} THEN Fail(e, er, q.S)
            ELSE Good(e, TData(e.d, [j \in DOMAIN e.fs |-> [n |-> e.fs[j].n.s, ty |-> q.rs[j].t]]), CType, q.S)
    [] e.k = "ftype" ->
         LET q == ElabTAll(e.as, 1, G, S, X)
             r == ElabT(e.r, G, q.S, X)
             er == ErAll(q.rs) \cup r.er
         IN IF er # {} THEN Fail(e, er, r.S) ELSE Good(e, FuncT(q.rs, 1, r.t), CType, r.S)
    [] e.k = "pkg" -> Good(e, TPkg(e.p), CType, S)
    [] OTHER ->
         LET r == Elab(e, G, S, X) IN
         IF ~r.ok THEN Fail(e, r.er, r.S)
         ELSE IF r.t.k # "type" THEN Fail(e, {e.l}, r.S)
         ELSE Good(e, r.t.t, CType, r.S)

(* the types of the bindings of a let: declared, or a fresh variable of the basic kind *)
LetTypes(bs, j, G, S, X) ==
  IF j > Len(bs) THEN [rs |-> <<>>, S |-> S]
  ELSE LET b == bs[j]
           lv == IF b.ty.k = "nil" THEN KLevel(KOf(b.kd)) ELSE 0
           v == TVar(b.n.l, NoFun)
           r == IF b.ty.k = "nil"
                THEN [ok |-> TRUE, er |-> {}, t |-> IF lv = 0 THEN v ELSE TType(v),
                      S |-> (b.n.l :> [kd |-> KB(0), v |-> Nil]) @@ S]
                ELSE LET x == ElabT(b.ty, G, S, X) IN [ok |-> x.ok, er |-> x.er, t |-> x.t, S |-> x.S]
           f == ~r.ok \/ NameFits(b.n, r.t, r.S)
           q == LetTypes(bs, j + 1, G, r.S, X)
       IN [rs |-> <<[ok |-> r.ok /\ f, er |-> r.er \cup (IF f THEN {} ELSE {b.n.l}), t |-> r.t]>> \o q.rs, S |-> q.S]

ElabLet(e, G, S, X) ==
  LET bs == e.bs
      ts == LetTypes(bs, 1, G, S, X)
      er0 == ErAll(ts.rs) \cup DupNames(bs)
  IN IF er0 # {} THEN Fail(e, er0, ts.S) ELSE
  LET G1 == [s \in {bs[j].n.s : j \in DOMAIN bs} |->
               LET j == CHOOSE h \in DOMAIN bs : bs[h].n.s = s IN [t |-> ts.rs[j].t, tv |-> FALSE]] @@ G
      ds == ElabAll([j \in DOMAIN bs |-> bs[j].e], 1, G1, ts.S, X)
      bad == {j \in DOMAIN bs : ds.rs[j].ok /\
                IF bs[j].ty.k = "nil" THEN Kind(ds.rs[j].t, ds.S) # KOf(bs[j].kd)
                ELSE ~TEq(ts.rs[j].t, ds.rs[j].t, ds.S)}
      er1 == ErAll(ds.rs) \cup {bs[j].e.l : j \in bad}
  IN IF er1 # {} THEN Fail(e, er1, ds.S) ELSE
  LET un == {j \in DOMAIN bs : bs[j].ty.k = "nil"}
      lev0 == {j \in un : KLevel(KOf(bs[j].kd)) = 0}
      Def(j) == IF j \in lev0 THEN ds.rs[j].t ELSE ds.rs[j].t.t
      S2 == [id \in {bs[j].n.l : j \in un} |->
               LET j == CHOOSE h \in un : bs[h].n.l = id IN
               [kd |-> Kind(Def(j), ds.S), v |-> Def(j)]] @@ ds.S
      G2 == [s \in {bs[j].n.s : j \in DOMAIN bs} |->
               LET j == CHOOSE h \in DOMAIN bs : bs[h].n.s = s IN
               [t |-> IF j \in lev0 THEN ds.rs[j].t ELSE ts.rs[j].t, tv |-> FALSE]] @@ G
      vac == {bs[j].n.l : j \in {h \in DOMAIN bs : Vacuous(G2[bs[h].n.s].t, S2)}}
  IN IF vac # {} THEN Fail(e, vac, S2) ELSE
  LET b == Elab(e.b, G2, S2, X) IN
  IF ~b.ok THEN Fail(e, b.er, b.S)
  ELSE Good(e, b.t, [k |-> "let", b |-> b.c, l |-> e.l,
                     bs |-> [j \in DOMAIN bs |-> [n |-> bs[j].n.s, l |-> bs[j].n.l, bl |-> bs[j].e.l, c |-> ds.rs[j].c]]],
            b.S)

(* arguments as[j..] of a function value *)
Func(e, j, G, S, X) ==
  IF j > Len(e.as) THEN Elab(e.b, G, S, X)
  ELSE LET a == e.as[j]
           t == ElabT(a.e, G, S, X) IN
       IF ~t.ok THEN Fail(e, t.er, t.S)
       ELSE LET r == Func(e, j + 1, (a.n.s :> [t |-> t.t, tv |-> FALSE]) @@ G, t.S, X) IN
            IF ~r.ok THEN Fail(e, r.er, r.S)
            ELSE Good(e, TFunc(t.t, r.t), MkFn(<<a.n.s>>, r.c, IF j = Len(e.as) THEN e.b.l ELSE e.l), r.S)

Poly(e, j, G, S, X) ==
  IF j > Len(e.as) THEN Elab(e.b, G, S, X)
  ELSE LET a == e.as[j]
           kd == KOf(a.kd) IN
       IF KLevel(kd) # 1 THEN Fail(e, {a.kd.l}, S)
       ELSE IF ~a.n.t THEN Fail(e, {a.n.l}, S)
       ELSE LET v == TVar(a.n.l, NoFun)
                r == Poly(e, j + 1, (a.n.s :> [t |-> TType(v), tv |-> TRUE]) @@ G,
                          (a.n.l :> [kd |-> KAdj(kd, -1), v |-> Nil]) @@ S, X) IN
            IF ~r.ok THEN Fail(e, r.er, r.S)
            ELSE GoodAt(e, TPoly(a.n.l, r.t), r.c, r.S, r.tl)

PolyArgs(e, p, pt, rs, j, S) ==
  IF j > Len(rs) THEN GoodAt(e, pt, p.c, S, p.tl)
  ELSE LET r == PolyApply(pt, rs[j].t, S) IN
       IF ~r.ok THEN Fail(e, IF r.arg THEN {rs[j].l} ELSE {e.l}, S)
       ELSE IF r.t.k = "type" /\ r.t.t.k = "abs"
            THEN PolyArgs(e, [p EXCEPT !.c = CType], r.t, rs, j + 1, S)
            ELSE PolyArgs(e, p, r.t, rs, j + 1, S)

(* the branches of a select over fields fs from field j and choice h on; rt: the type of the result so far *)
Choices(e, fs, j, h, rt, G, S, X) ==
  IF j > Len(fs)
  THEN [er |-> IF h <= Len(e.cs) THEN {e.cs[h].n.l} ELSE {}, br |-> <<>>, rt |-> rt, S |-> S]
  ELSE IF h <= Len(e.cs) /\ e.cs[h].n.s = fs[j].n
  THEN LET r == Elab(e.cs[h].e, G, S, X)
           bad == r.ok /\ rt.k # "nil" /\ ~TEq(rt, r.t, r.S)
           q == Choices(e, fs, j + 1, h + 1, IF rt.k = "nil" THEN r.t ELSE rt, G, r.S, X)
       IN [er |-> r.er \cup (IF bad THEN {e.cs[h].e.l} ELSE {}) \cup q.er,
           br |-> <<[c |-> r.c, n |-> e.cs[h].n.s, bl |-> e.cs[h].e.l]>> \o q.br, rt |-> q.rt, S |-> q.S]
  ELSE LET q == Choices(e, fs, j + 1, h, rt, G, S, X) IN
       IF e.d.k = "nil"
       THEN [q EXCEPT !.er = @ \cup {IF h <= Len(e.cs) THEN e.cs[h].n.l ELSE e.l}]
       ELSE [q EXCEPT !.br = <<[c |-> Nil, n |-> ":", bl |-> e.d.l]>> \o @]

(* applies something of type t with core c to the checked arguments as[j..] *)
ApplyArgs(e, t, c, as, j, ls, S) ==
  IF j > Len(as) THEN Good(e, t, c, S)
  ELSE LET d == Depoly(t, S) IN
       IF d.b.k # "func" THEN Fail(e, IF e.bind THEN {e.e.l} ELSE {e.l}, S)
       ELSE LET q == InferArgs(t, d.vs, <<d.b.a>>, <<as[j]>>, ls, S) IN
            IF ~q.ok THEN Fail(e, q.er, S)
            ELSE ApplyArgs(e, Norm(q.t, S).r, MkApp(c, as[j].c, e.l), as, j + 1, ls, S)

Elab(e, G, S, X) ==
  CASE e.k \in {"data", "ftype", "pkg", "typeof"} ->
         LET r == ElabT(e, G, S, X) IN
         IF r.ok THEN Good(e, TType(r.t), CType, r.S) ELSE r
    [] e.k = "var" ->
         IF e.n.s \notin DOMAIN G THEN Fail(e, {e.l}, S)
         ELSE LET v == G[e.n.s] IN
              Good(e, v.t, IF v.tv THEN CType ELSE [k |-> "var", n |-> e.n.s], S)
    [] e.k = "mod" -> Good(e, X.M[e.p], [k |-> "mod", p |-> e.p], S)
    [] e.k = "let" -> ElabLet(e, G, S, X)
    [] e.k = "simp" ->
         LET q == ElabAll([j \in DOMAIN e.as |-> e.as[j].e], 1, G, S, X)
             er == ErAll(q.rs) \cup DupNames(e.as)
                   \cup {e.as[j].n.l : j \in {h \in DOMAIN e.as : q.rs[h].ok /\ ~NameFits(e.as[h].n, q.rs[h].t, q.S)}}
         IN IF er # {} THEN Fail(e, er, q.S)
            ELSE Good(e, TData("struct", [j \in DOMAIN e.as |-> [n |-> e.as[j].n.s, ty |-> q.rs[j].t]]),
                      [k |-> "struct", as |-> [j \in DOMAIN e.as |-> q.rs[j].c]], q.S)
    [] e.k = "copy" ->
         LET r == Elab(e.e, G, S, X) IN
         IF ~r.ok THEN Fail(e, r.er, r.S) ELSE
         LET st == Norm(r.t, r.S) IN
         IF st.k # "data" \/ st.d # "struct" THEN Fail(e, {e.e.l}, r.S) ELSE
         LET q == ElabAll([j \in DOMAIN e.as |-> e.as[j].e], 1, G, r.S, X)
             \* M[i]: the argument used for field i, or 0
             Take[i \in 0..Len(st.fs)] ==
               IF i = 0 THEN [n |-> 0, m |-> <<>>]
               ELSE LET p == Take[i - 1] IN
                    IF p.n < Len(e.as) /\ e.as[p.n + 1].n.s = st.fs[i].n
                    THEN [n |-> p.n + 1, m |-> Append(p.m, p.n + 1)]
                    ELSE [n |-> p.n, m |-> Append(p.m, 0)]
             tk == Take[Len(st.fs)]
             bad == {i \in DOMAIN st.fs : tk.m[i] # 0 /\ q.rs[tk.m[i]].ok
                                          /\ ~TEq(st.fs[i].ty, q.rs[tk.m[i]].t, q.S)}
             er == ErAll(q.rs) \cup UNION {{q.rs[tk.m[i]].l, q.rs[tk.m[i]].tl} : i \in bad}
                   \cup (IF tk.n < Len(e.as) THEN {e.as[tk.n + 1].n.l} ELSE {})
         IN IF er # {} THEN Fail(e, er, q.S)
            ELSE Good(e, st, [k |-> "copy", l |-> e.l, e |-> r.c,
                              fs |-> [i \in DOMAIN st.fs |-> IF tk.m[i] = 0 THEN Nil ELSE q.rs[tk.m[i]].c]], q.S)
    [] e.k = "uval" ->
         LET t == ElabT(e.ty, G, S, X) IN
         IF ~t.ok THEN Fail(e, t.er, t.S) ELSE
         LET d == Depoly(t.t, t.S) IN
         IF d.b.k # "data" \/ d.b.d # "union" THEN Fail(e, {e.ty.l}, t.S) ELSE
         LET hit == {j \in DOMAIN d.b.fs : d.b.fs[j].n = e.n.s} IN
         IF hit = {} THEN Fail(e, {e.n.l}, t.S) ELSE
         LET j == CHOOSE h \in hit : TRUE
             a == Elab(e.e, G, t.S, X) IN
         IF ~a.ok THEN Fail(e, a.er, a.S) ELSE
         LET q == InferArgs(t.t, d.vs, <<d.b.fs[j].ty>>, <<a>>, {e.l}, a.S) IN
         IF ~q.ok THEN Fail(e, q.er, a.S)
         ELSE Good(e, q.t, [k |-> "union", t |-> j, nt |-> Len(d.b.fs), e |-> a.c], a.S)
    [] e.k = "sel" ->
         LET r == Elab(e.e, G, S, X) IN
         IF ~r.ok THEN Fail(e, r.er, r.S) ELSE
         LET ut == Norm(r.t, r.S) IN
         IF ut.k # "data" \/ ut.d # "union" THEN Fail(e, {e.e.l}, r.S) ELSE
         LET d == IF e.d.k = "nil" THEN Fail(e, {}, r.S) ELSE Elab(e.d, G, r.S, X)
             q == Choices(e, ut.fs, 1, 1, d.t, G, d.S, X)
             er == d.er \cup q.er
         IN IF er # {} THEN Fail(e, er, q.S)
            ELSE Good(e, q.rt, [k |-> "sel", l |-> e.l, e |-> r.c,
                                br |-> [j \in DOMAIN q.br |-> IF q.br[j].c.k = "nil"
                                                              THEN [q.br[j] EXCEPT !.c = d.c] ELSE q.br[j]]], q.S)
    [] e.k = "fn"   -> Func(e, 1, G, S, X)
    [] e.k = "poly" -> Poly(e, 1, G, S, X)
    [] e.k = "papp" ->
         LET p == Elab(e.e, G, S, X)
             q == ElabAll(e.as, 1, G, p.S, X)
             er == p.er \cup ErAll(q.rs)
         IN IF er # {} THEN Fail(e, er, q.S) ELSE PolyArgs(e, p, p.t, q.rs, 1, q.S)
    [] e.k = "list" ->
         LET f == Elab(e.e, G, S, X) IN
         IF ~f.ok THEN Fail(e, f.er, f.S) ELSE
         LET d == Depoly(f.t, f.S) IN
         IF d.b.k # "func" THEN Fail(e, {e.e.l}, f.S) ELSE
         LET el == ListElem(d.b.a, f.S) IN
         IF el.k = "nil" THEN Fail(e, {e.e.l}, f.S) ELSE
         LET q == ElabAll(e.as, 1, G, f.S, X) IN
         IF ~OkAll(q.rs) THEN Fail(e, ErAll(q.rs), q.S) ELSE
         LET i == InferArgs(f.t, d.vs, [j \in DOMAIN e.as |-> el], q.rs, {e.l, f.tl}, q.S) IN
         IF ~i.ok THEN Fail(e, i.er, q.S)
         ELSE Good(e, Norm(i.t, q.S).r,
                   MkApp(f.c, [k |-> "list", as |-> [j \in DOMAIN e.as |-> q.rs[j].c]], e.l), q.S)
    [] e.k = "lit" ->
         LET f == Elab(e.e, G, S, X) IN
         IF ~f.ok THEN Fail(e, f.er, f.S) ELSE
         LET ft == Norm(f.t, f.S)
             el == IF ft.k # "func" THEN Nil ELSE ListElem(ft.a, f.S)
             u == IF el.k = "nil" THEN Nil ELSE Norm(el, f.S)
         IN IF u.k # "data" \/ u.d # "union" THEN Fail(e, {e.e.l}, f.S) ELSE
         LET w == Letters(e.w, 1, u.fs, f.S) IN
         IF ~w.ok THEN Fail(e, {LocAfter(e.w, w.at, e.wl)}, f.S)
         ELSE Good(e, ft.r, MkApp(f.c, [k |-> "lit", ix |-> w.ix, nt |-> Len(u.fs)], e.l), f.S)
    [] e.k = "cast" ->
         LET p == ElabT(e.pk, G, S, X) IN
         IF ~p.ok THEN Fail(e, p.er, p.S) ELSE
         LET pk == Norm(p.t, p.S) IN
         IF pk.k # "pkg" THEN Fail(e, {e.pk.l}, p.S) ELSE
         LET t == ElabT(e.ty, G, p.S, X) IN
         IF ~t.ok THEN Fail(e, t.er, t.S) ELSE
         LET v == Elab(e.e, G, t.S, X) IN
         IF ~v.ok THEN Fail(e, v.er, v.S)
         ELSE IF ~IsPrefix_(pk.p, X.path) \/ ~TEqIn(pk, t.t, v.t, v.S) THEN Fail(e, {e.l}, v.S)
         ELSE GoodAt(e, t.t, v.c, v.S, v.tl)
    [] e.k = "unabs" ->
         LET v == Elab(e.e, G, S, X) IN
         IF ~v.ok THEN Fail(e, v.er, v.S) ELSE
         LET t == Norm(v.t, v.S) IN
         IF t.k # "abs" THEN Fail(e, {e.l}, v.S)
         ELSE IF ~IsPrefix_(t.pk.p, X.path) THEN Fail(e, {e.l}, v.S)
         ELSE GoodAt(e, t.t, v.c, v.S, v.tl)
    [] e.k = "acc" ->
         LET r == Elab(e.e, G, S, X) IN
         IF ~r.ok THEN Fail(e, r.er, r.S) ELSE
         LET t == Norm(r.t, r.S) IN
         IF t.k # "data" THEN Fail(e, {e.e.l}, r.S) ELSE
         LET hit == {j \in DOMAIN t.fs : t.fs[j].n = e.n.s} IN
         IF hit = {} THEN Fail(e, {e.n.l}, r.S) ELSE
         LET j == CHOOSE h \in hit : TRUE IN
         Good(e, t.fs[j].ty, [k |-> "acc", d |-> t.d, e |-> r.c, t |-> j, l |-> e.n.l], r.S)
    [] e.k = "app" ->
         LET f == Elab(e.e, G, S, X)
             q == ElabAll(e.as, 1, G, f.S, X)
             er == f.er \cup ErAll(q.rs)
         IN IF er # {} THEN Fail(e, er, q.S) ELSE
         LET nf == Norm(f.t, q.S)
             vt == IF nf.k = "type" /\ ~e.bind THEN Norm(nf.t, q.S) ELSE Nil
             d == IF vt.k = "nil" THEN [vs |-> <<>>, b |-> Nil] ELSE Depoly(nf.t, q.S)
         IN IF vt.k = "pkg"
            THEN IF Len(e.as) # 1 \/ ~IsPrefix_(vt.p, X.path) THEN Fail(e, {e.l}, q.S)
                 ELSE GoodAt(e, TAbs(vt, q.rs[1].t), q.rs[1].c, q.S, q.rs[1].tl)
            ELSE IF d.b.k = "data" /\ d.b.d = "struct"
            THEN LET i == InferArgs(nf.t, d.vs, [j \in DOMAIN d.b.fs |-> d.b.fs[j].ty], q.rs, {e.l, f.tl}, q.S) IN
                 IF ~i.ok THEN Fail(e, i.er, q.S)
                 ELSE Good(e, i.t, [k |-> "struct", as |-> [j \in DOMAIN e.as |-> q.rs[j].c]], q.S)
            ELSE IF e.as = <<>> THEN Good(e, f.t, f.c, q.S)
            ELSE ApplyArgs(e, f.t, f.c, q.rs, 1, {e.l, f.tl}, q.S)

---------------------------------------------------------------- \* unused names
(* Live(e, N): the binders (by location) that evaluating e may need, where N   *)
(* maps the names in scope to binders; a binding of a let counts only if the   *)
(* body needs it.  Warn(e): the binders to be warned about, inside live code.  *)
RECURSIVE Live(_, _), LiveFrom(_, _, _)

(* result: [u: binders used, w: binders warned about] *)
Join(x, y) == [u |-> x.u \cup y.u, w |-> x.w \cup y.w]
None == [u |-> {}, w |-> {}]
LiveFrom(es, j, N) == IF j > Len(es) THEN None ELSE Join(Live(es[j], N), LiveFrom(es, j + 1, N))
RECURSIVE LiveFn(_, _, _), LiveLet(_, _, _, _)
LiveFn(e, j, N) ==
  IF j > Len(e.as) THEN Live(e.b, N)
  ELSE LET a == e.as[j]
           t == Live(a.e, N)
           r == LiveFn(e, j + 1, (a.n.s :> a.n.l) @@ N)
       IN Join(t, [u |-> r.u, w |-> r.w \cup (IF a.n.l \in r.u \/ a.n.u THEN {} ELSE {a.n.l})])
LiveLet(e, N, acc, done) ==
  LET todo == {j \in DOMAIN e.bs : j \notin done /\ (e.bs[j].n.l \in acc.u \/ e.bs[j].n.u)} IN
  IF todo = {} THEN [acc EXCEPT !.w = @ \cup {e.bs[j].n.l : j \in DOMAIN e.bs \ done}]
  ELSE LET j == CHOOSE h \in todo : TRUE IN
       LiveLet(e, N, Join(acc, Live(e.bs[j].e, N)), done \cup {j})
Live(e, N) ==
  CASE e.k = "var" -> [u |-> IF e.n.s \in DOMAIN N THEN {N[e.n.s]} ELSE {}, w |-> {}]
    [] e.k = "fn"  -> LiveFn(e, 1, N)
    [] e.k = "poly" -> Live(e.b, [s \in {e.as[j].n.s : j \in DOMAIN e.as} |-> 0] @@ N)
    [] e.k = "let" ->
         LET N1 == [s \in {e.bs[j].n.s : j \in DOMAIN e.bs} |->
                      LET j == CHOOSE h \in DOMAIN e.bs : e.bs[h].n.s = s IN e.bs[j].n.l] @@ N
             ty == [j \in DOMAIN e.bs |-> IF e.bs[j].ty.k = "nil" THEN None ELSE Live(e.bs[j].ty, N)]
             t0 == [u |-> UNION {ty[j].u : j \in DOMAIN ty}, w |-> UNION {ty[j].w : j \in DOMAIN ty}]
         IN LiveLet(e, N1, Join(t0, Live(e.b, N1)), {})
    [] OTHER -> LiveFrom(Kids(e), 1, N)
Unused(e) == Live(e, NoFun).w
=============================================================================
