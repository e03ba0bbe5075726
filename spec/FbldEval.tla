------------------------------ MODULE FbldEval ------------------------------
(***************************************************************************)
(* The meaning of an fbld document (property C14).                          *)
(*                                                                         *)
(* A markup is one of                                                      *)
(*   [t |-> "p", s |-> string, l |-> loc]            plain text             *)
(*   [t |-> "c", n |-> name, a |-> seq of markup, l |-> loc]   a command    *)
(*   [t |-> "s", m |-> seq of markup]                a sequence             *)
(*   [t |-> "bot"]            the (missing) result of a failed evaluation   *)
(* with loc = <<line, column>>; <<0,0>> stands for "not specified".        *)
(*                                                                         *)
(* An environment is a sequence of entries, innermost first,               *)
(*   [n |-> name, f |-> is it a command definition, ps |-> parameters,      *)
(*    b |-> body or value]                                                 *)
(*                                                                         *)
(* Eval gives [v |-> value, e |-> set of diagnostics].  Evaluation is       *)
(* strict: a diagnostic anywhere fails the document.  The specification     *)
(* leaves open in which order independent arguments are evaluated, so the   *)
(* implementation may print any non-empty subset of the diagnostics.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

NoLoc == <<0, 0>>
Bot == [t |-> "bot"]
Plain(s, l) == [t |-> "p", s |-> s, l |-> l]



(* Text of a markup: [ok, s, e].  A command in it is not text. *)
RECURSIVE TextOf(_)
TextOf(m) ==
  CASE m.t = "bot" -> [ok |-> FALSE, s |-> "", e |-> {}]
    [] m.t = "p"   -> [ok |-> TRUE, s |-> m.s, e |-> {}]
    [] m.t = "c"   -> [ok |-> FALSE, s |-> "", e |-> {[k |-> "notext", l |-> m.l]}]
    [] m.t = "s"   ->
       LET ts == TLCEval([i \in DOMAIN m.m |-> TextOf(m.m[i])])
           RECURSIVE Cat(_, _)
           Cat(i, acc) ==
             IF i > Len(ts) THEN acc
             ELSE IF ~ts[i].ok THEN [ok |-> FALSE, s |-> "", e |-> ts[i].e]
             ELSE Cat(i + 1, [ok |-> TRUE, s |-> acc.s \o ts[i].s, e |-> {}])
       IN Cat(1, [ok |-> TRUE, s |-> "", e |-> {}])

(* First character: [ok, s (one character or empty), e]. *)
RECURSIVE HeadOf(_)
HeadOf(m) ==
  CASE m.t = "bot" -> [ok |-> FALSE, s |-> "", e |-> {}]
    [] m.t = "p"   -> [ok |-> TRUE, s |-> IF Len(m.s) = 0 THEN "" ELSE SubSeq(m.s, 1, 1), e |-> {}]
    [] m.t = "c"   -> [ok |-> FALSE, s |-> "", e |-> {[k |-> "uneval", l |-> m.l]}]
    [] m.t = "s"   ->
       LET RECURSIVE Find(_)
           Find(i) == IF i > Len(m.m) THEN [ok |-> TRUE, s |-> "", e |-> {}]
                      ELSE LET h == HeadOf(m.m[i]) IN
                           IF h.ok /\ h.s = "" THEN Find(i + 1) ELSE h
       IN Find(1)

(* Markup without its first character, or m itself if it is empty text. *)
RECURSIVE TailOf(_)
TailOf(m) ==
  CASE m.t = "p" -> IF Len(m.s) = 0 THEN m ELSE Plain(SubSeq(m.s, 2, Len(m.s)), m.l)
    [] m.t = "s" ->
       LET RECURSIVE Find(_)
           Find(i) == IF i > Len(m.m) THEN m
                      ELSE IF HeadOf(m.m[i]).s = "" THEN Find(i + 1)
                      ELSE [t |-> "s", m |-> <<TailOf(m.m[i])>> \o SubSeq(m.m, i + 1, Len(m.m))]
       IN Find(1)
    [] OTHER -> Bot

(* Character-wise comparison; fails on a command only if it gets that far. *)
RECURSIVE Same(_, _)
Same(a, b) ==
  LET ha == HeadOf(a)
      hb == HeadOf(b)
  IN IF ~ha.ok \/ ~hb.ok THEN [ok |-> FALSE, eq |-> FALSE, e |-> ha.e \cup hb.e]
     ELSE IF ha.s # hb.s THEN [ok |-> TRUE, eq |-> FALSE, e |-> {}]
     ELSE IF ha.s = "" THEN [ok |-> TRUE, eq |-> TRUE, e |-> {}]
     ELSE Same(TailOf(a), TailOf(b))

(* Every maximal plain piece x of m becomes the command f with argument x. *)
RECURSIVE MapPlain(_, _)
MapPlain(f, m) ==
  CASE m.t = "p" -> [t |-> "c", n |-> f, a |-> <<m>>, l |-> NoLoc]
    [] m.t = "s" -> [t |-> "s", m |-> TLCEval([i \in DOMAIN m.m |-> MapPlain(f, m.m[i])])]
    [] OTHER -> m

(* Space separated words of a string. *)
IsSpace(c) == c \in {" ", "\n", "\t"}
Words(s) ==
  LET RECURSIVE W(_, _, _)
      W(i, cur, acc) ==
        IF i > Len(s) THEN IF cur = "" THEN acc ELSE Append(acc, cur)
        ELSE LET c == SubSeq(s, i, i) IN
             IF IsSpace(c) THEN W(i + 1, "", IF cur = "" THEN acc ELSE Append(acc, cur))
             ELSE W(i + 1, cur \o c, acc)
  IN W(1, "", <<>>)

Arity == [error |-> 1, define |-> 4, let |-> 3, head |-> 1, tail |-> 1, ifeq |-> 4, ifneq |-> 4, eval |-> 1, plain |-> 2]
Builtins == DOMAIN Arity

(* Documents that take more than this many evaluation steps are outside the *)
(* model: every Eval consumes one unit of fuel n and returns what is left.    *)
Fuel == 1500
Exhausted == [v |-> Bot, e |-> {[k |-> "fuel", l |-> NoLoc]}, n |-> 0]

R(v, e, n) == IF n = 0 THEN Exhausted ELSE [v |-> v, e |-> e, n |-> n]

RECURSIVE Eval(_, _, _)

(* Evaluates the markups ms[i..] in order: [v |-> values, e, n]. *)
RECURSIVE EvalAll(_, _, _, _)
EvalAll(ms, i, env, acc) ==
  IF i > Len(ms) \/ acc.n = 0 THEN acc
  ELSE LET r == Eval(ms[i], env, acc.n)
       IN EvalAll(ms, i + 1, env, [v |-> Append(acc.v, r.v), e |-> acc.e \cup r.e, n |-> r.n])
All(ms, env, n) == EvalAll(ms, 1, env, [v |-> <<>>, e |-> {}, n |-> n])

Eval(m, env, fuel) ==
  LET n == fuel - 1 IN
  CASE n <= 0 -> Exhausted
    [] m.t = "bot" -> R(Bot, {}, n)
    [] m.t = "p" -> R(m, {}, n)
    [] m.t = "s" ->
       LET rs == All(m.m, env, n)
       IN R([t |-> "s", m |-> rs.v], rs.e, rs.n)
    [] m.t = "c" ->
       LET hits == {i \in DOMAIN env : env[i].n = m.n} IN
       IF hits # {} THEN
         LET i == CHOOSE j \in hits : \A h \in hits : j <= h
             d == env[i]
         IN IF Len(m.a) # Len(d.ps) THEN R(Bot, {[k |-> "arity", l |-> m.l]}, n)
            ELSE IF ~d.f THEN R(d.b, {}, n)
            ELSE
              LET as == All(m.a, env, n)
                  np == Len(d.ps)
                  \* the last parameter is innermost
                  bind == TLCEval([j \in 1..np |-> [n |-> d.ps[np + 1 - j], f |-> FALSE, ps |-> <<>>, b |-> as.v[np + 1 - j]]])
                  r == Eval(d.b, bind \o SubSeq(env, i, Len(env)), as.n)
              IN IF as.n = 0 THEN Exhausted ELSE R(r.v, as.e \cup r.e, r.n)
       ELSE IF m.n \in Builtins THEN
         IF Len(m.a) # Arity[m.n] THEN R(Bot, {[k |-> "arity", l |-> m.l]}, n)
         ELSE
           CASE m.n = "error" ->
                  LET a == Eval(m.a[1], env, n)
                      x == TextOf(a.v)
                  IN R(Bot, a.e \cup (IF x.ok THEN {[k |-> "error", l |-> m.l, s |-> x.s]} ELSE x.e), a.n)
             [] m.n = "head" ->
                  LET a == Eval(m.a[1], env, n)
                      h == HeadOf(a.v)
                  IN R(IF h.ok THEN Plain(h.s, NoLoc) ELSE Bot, a.e \cup h.e, a.n)
             [] m.n = "tail" ->
                  LET a == Eval(m.a[1], env, n)
                      h == HeadOf(a.v)
                  IN R(IF h.ok THEN TailOf(a.v) ELSE Bot, a.e \cup h.e, a.n)
             [] m.n \in {"ifeq", "ifneq"} ->
                  LET ab == All(SubSeq(m.a, 1, 2), env, n)
                      c == Same(ab.v[1], ab.v[2])
                      r == IF c.eq = (m.n = "ifeq") THEN Eval(m.a[3], env, ab.n) ELSE Eval(m.a[4], env, ab.n)
                  IN IF ab.n = 0 THEN Exhausted
                     ELSE IF c.ok THEN R(r.v, ab.e \cup r.e, r.n) ELSE R(Bot, ab.e \cup c.e, ab.n)
             [] m.n = "let" ->
                  LET as == All(SubSeq(m.a, 1, 2), env, n)
                      x == TextOf(as.v[1])
                      r == Eval(m.a[3], <<[n |-> x.s, f |-> FALSE, ps |-> <<>>, b |-> as.v[2]]>> \o env, as.n)
                  IN IF as.n = 0 THEN Exhausted
                     ELSE IF x.ok THEN R(r.v, as.e \cup r.e, r.n) ELSE R(Bot, as.e \cup x.e, as.n)
             [] m.n = "define" ->
                  LET as == All(SubSeq(m.a, 1, 2), env, n)
                      x == TextOf(as.v[1])
                      y == TextOf(as.v[2])
                      r == Eval(m.a[4], <<[n |-> x.s, f |-> TRUE, ps |-> Words(y.s), b |-> m.a[3]]>> \o env, as.n)
                  IN IF as.n = 0 THEN Exhausted
                     ELSE IF x.ok /\ y.ok THEN R(r.v, as.e \cup r.e, r.n) ELSE R(Bot, as.e \cup x.e \cup y.e, as.n)
             [] m.n = "eval" ->
                  LET a == Eval(m.a[1], env, n)
                      r == Eval(a.v, env, a.n)
                  IN R(r.v, a.e \cup r.e, r.n)
             [] m.n = "plain" ->
                  LET as == All(m.a, env, n)
                      x == TextOf(as.v[1])
                      r == Eval(MapPlain(x.s, as.v[2]), env, as.n)
                  IN IF as.n = 0 THEN Exhausted
                     ELSE IF x.ok THEN R(r.v, as.e \cup r.e, r.n) ELSE R(Bot, as.e \cup x.e, as.n)
       ELSE R(m, {}, n)     \* unknown: left as it is, arguments untouched

(* The outcome of processing a whole document. *)
Process(doc) ==
  LET r == Eval(doc, <<>>, Fuel)
      x == TextOf(r.v)
  IN IF r.n = 0 THEN [ok |-> FALSE, out |-> "", e |-> {}, deep |-> TRUE]
     ELSE IF r.e # {} THEN [ok |-> FALSE, out |-> "", e |-> r.e, deep |-> FALSE]
     ELSE [ok |-> x.ok, out |-> x.s, e |-> x.e, deep |-> FALSE]
=============================================================================
