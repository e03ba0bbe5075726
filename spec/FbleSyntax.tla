----------------------------- MODULE FbleSyntax -----------------------------
(***************************************************************************)
(* Concrete syntax of the fble language: from the characters of a module   *)
(* to its syntax tree, or to the location of the first token that cannot    *)
(* continue a module.  A location is base + 1000 * line + column.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

LOCAL SNil == [k |-> "nil"]
Punctuation == {"(", ")", "{", "}", "[", "]", ";", ",", ":", "?", "=", ".", "<", ">", "+", "*", "-", "!",
                "$", "@", "~", "|", "%", "/", "^", "&"}
Space == {" ", "\t", "\n", "\r", "\f"}

---------------------------------------------------------------- \* tokens
(* lexer state: m: between tokens "n", in a comment "c", a word "w", quotes   *)
(* "q", or just after quotes closed "e"; w: the word so far, at its start     *)
Loc(s) == s.base + 1000 * s.ln + s.col
Tok(t, w, l) == [t |-> t, w |-> w, l |-> l]
Emit(s) == IF s.m \in {"w", "e"} THEN [s EXCEPT !.ts = Append(@, Tok("w", s.w, s.at)), !.m = "n", !.w = ""] ELSE s
Between(s, c) ==                       \* c outside words, comments and quotes
  CASE c = "#"            -> [s EXCEPT !.m = "c"]
    [] c \in Space        -> [s EXCEPT !.m = "n"]
    [] c = "NUL"          -> [s EXCEPT !.m = "n", !.ts = Append(@, Tok("bad", "", Loc(s)))]   \* the character 0
    [] c \in Punctuation  -> [s EXCEPT !.m = "n", !.ts = Append(@, Tok("p", c, Loc(s)))]
    [] c = "'"            -> [s EXCEPT !.m = "q", !.w = "", !.at = Loc(s)]
    [] OTHER              -> [s EXCEPT !.m = "w", !.w = c, !.at = Loc(s)]
Step(s, c) ==
  LET x == CASE s.m = "n" -> Between(s, c)
             [] s.m = "c" -> IF c = "\n" THEN [s EXCEPT !.m = "n"] ELSE s
             [] s.m = "w" -> IF c \in Space \cup Punctuation \cup {"#", "'", "NUL"} THEN Between(Emit(s), c)
                             ELSE [s EXCEPT !.w = @ \o c]
             [] s.m = "q" -> IF c = "'" THEN [s EXCEPT !.m = "e"] ELSE [s EXCEPT !.w = @ \o c]
             [] s.m = "e" -> IF c = "'" THEN [s EXCEPT !.m = "q", !.w = @ \o "'"] ELSE Between(Emit(s), c)
  IN IF c = "\n" THEN [x EXCEPT !.ln = @ + 1, !.col = 1] ELSE [x EXCEPT !.col = @ + 1]
RECURSIVE StepAll(_, _, _, _)
StepAll(src, lo, hi, s) ==
  IF lo > hi THEN s
  ELSE IF lo = hi THEN Step(s, src[lo])
  ELSE LET mid == (lo + hi) \div 2 IN StepAll(src, mid + 1, hi, StepAll(src, lo, mid, s))
(* the tokens of src, a sequence of characters; the last is the end, after a bad token for an unclosed quote *)
Tokens(src, base) ==
  LET s == Emit(StepAll(src, 1, Len(src),
                        [m |-> "n", w |-> "", at |-> 0, ln |-> 1, col |-> 1, base |-> base, ts |-> <<>>]))
  IN (IF s.m = "q" THEN Append(s.ts, Tok("bad", "", s.at)) ELSE s.ts) \o <<Tok("eof", "", Loc(s))>>

---------------------------------------------------------------- \* grammar
(* A parse of T from i: ok with tree v up to before token i, or failing at token i *)
Yes(v, i) == [ok |-> TRUE, v |-> v, i |-> i]
No(i)     == [ok |-> FALSE, v |-> SNil, i |-> i, x |-> {}]
Is(T, i, c) == T[i].t = "p" /\ T[i].w = c
IsWord(T, i) == T[i].t = "w"

(* name = word ['@'] *)
PName(T, i) ==
  IF ~IsWord(T, i) THEN No(i)
  ELSE LET u == T[i].w # "" /\ SubSeq(T[i].w, 1, 1) = "_" IN
       IF Is(T, i + 1, "@") THEN Yes([s |-> T[i].w \o "@", t |-> TRUE, l |-> T[i].l, u |-> u], i + 2)
       ELSE LET n == Len(T[i].w)                         \* keep the word 'x@' apart from the type name x@
            IN Yes([s |-> IF n > 0 /\ SubSeq(T[i].w, n, n) = "@" THEN "'" \o T[i].w \o "'" ELSE T[i].w,
                    t |-> FALSE, l |-> T[i].l, u |-> u], i + 1)

RECURSIVE PPath(_, _, _)
PPath(T, i, p) ==                     \* at the '/' or '%' after p
  IF Is(T, i, "%") /\ p # <<>> THEN Yes(p, i + 1)
  ELSE IF ~Is(T, i, "/") THEN No(i)
  ELSE IF ~IsWord(T, i + 1) THEN No(i + 1)
  ELSE PPath(T, i + 2, Append(p, T[i + 1].w))

RECURSIVE KindLevel(_)
KindLevel(x) == IF x.k = "b" THEN x.lv ELSE KindLevel(x.r)

RECURSIVE PKind(_, _, _), PKinds(_, _, _), PolyKind(_, _, _, _)
PolyKind(ks, r, l, j) == IF j > Len(ks) THEN r ELSE [k |-> "p", a |-> ks[j], r |-> PolyKind(ks, r, l, j + 1), l |-> l]
(* a kind, with a basic kind % allowed as its result if n *)
PKind(T, i, n) ==
  IF Is(T, i, "@") THEN Yes([k |-> "b", lv |-> 1, l |-> T[i].l], i + 1)
  ELSE IF n /\ Is(T, i, "%") THEN Yes([k |-> "b", lv |-> 0, l |-> T[i].l], i + 1)
  ELSE IF ~Is(T, i, "<") THEN No(i)
  ELSE LET a == PKinds(T, i + 1, <<>>) IN
       IF ~a.ok THEN a
       ELSE LET r == PKind(T, a.i, n) IN
            IF ~r.ok THEN r ELSE Yes(PolyKind(a.v, r.v, T[i].l, 1), r.i)
(* kinds up to and including '>' *)
PKinds(T, i, acc) ==
  LET a == PKind(T, i, FALSE) IN
  IF ~a.ok THEN a
  ELSE IF Is(T, a.i, ",") THEN PKinds(T, a.i + 1, Append(acc, a.v))
  ELSE IF Is(T, a.i, ">") THEN Yes(Append(acc, a.v), a.i + 1)
  ELSE No(a.i)

RECURSIVE PExpr(_, _), Post(_, _, _, _), Block(_, _), Stmt(_, _), Exprs(_, _, _, _), Fields(_, _, _, _),
          Tagged(_, _, _, _), Choice(_, _, _), PolyBlock(_, _, _, _), Lets(_, _, _), LetRest(_, _, _, _, _),
          Binds(_, _, _)

(* expressions separated by ',' up to and including the closing c *)
Exprs(T, i, c, acc) ==
  LET a == PExpr(T, i) IN
  IF ~a.ok THEN a
  ELSE IF Is(T, a.i, ",") THEN Exprs(T, a.i + 1, c, Append(acc, a.v))
  ELSE IF Is(T, a.i, c) THEN Yes(Append(acc, a.v), a.i + 1)
  ELSE No(a.i)
ExprsOrNone(T, i, c) == IF Is(T, i, c) THEN Yes(<<>>, i + 1) ELSE Exprs(T, i, c, <<>>)

(* "type name" items up to and including ')'; the type of the first may be given as first *)
Fields(T, i, first, acc) ==
  LET a == IF first.k # "nil" THEN Yes(first, i) ELSE PExpr(T, i) IN
  IF ~a.ok THEN a ELSE
  LET n == PName(T, a.i) IN
  IF ~n.ok THEN n ELSE
  LET x == Append(acc, [n |-> n.v, e |-> a.v]) IN
  IF Is(T, n.i, ",") THEN Fields(T, n.i + 1, SNil, x)
  ELSE IF Is(T, n.i, ")") THEN Yes(x, n.i + 1)
  ELSE No(n.i)

(* "name[: expr]" items up to and including ')' *)
Tagged(T, i, acc, implicit) ==
  LET n == PName(T, i) IN
  IF ~n.ok THEN n ELSE
  LET e == IF Is(T, n.i, ":") THEN PExpr(T, n.i + 1)
           ELSE IF implicit /\ (Is(T, n.i, ",") \/ Is(T, n.i, ")"))
                THEN Yes([k |-> "var", l |-> n.v.l, n |-> n.v], n.i) ELSE No(n.i) IN
  IF ~e.ok THEN e ELSE
  LET x == Append(acc, [n |-> n.v, e |-> e.v]) IN
  IF Is(T, e.i, ",") THEN Tagged(T, e.i + 1, x, implicit)
  ELSE IF Is(T, e.i, ")") THEN Yes(x, e.i + 1)
  ELSE No(e.i)

(* the choices of a select up to and including ')'; [cs, d] *)
Choice(T, i, acc) ==
  IF acc # <<>> /\ Is(T, i, ":")
  THEN LET e == PExpr(T, i + 1) IN
       IF ~e.ok THEN e ELSE IF Is(T, e.i, ")") THEN Yes([cs |-> acc, d |-> e.v], e.i + 1) ELSE No(e.i)
  ELSE
  LET n == PName(T, i) IN
  IF ~n.ok THEN n ELSE IF ~Is(T, n.i, ":") THEN No(n.i) ELSE
  LET e == PExpr(T, n.i + 1) IN
  IF ~e.ok THEN e ELSE
  LET x == Append(acc, [n |-> n.v, e |-> e.v]) IN
  IF Is(T, e.i, ",") THEN Choice(T, e.i + 1, x)
  ELSE IF Is(T, e.i, ")") THEN Yes([cs |-> x, d |-> SNil], e.i + 1)
  ELSE No(e.i)

(* i: after the '<' or ',' of "<kind name, ...> block" that starts at token b *)
PolyBlock(T, b, i, acc) ==
  LET kd == PKind(T, i, TRUE) IN
  IF ~kd.ok THEN kd ELSE
  LET n == PName(T, kd.i) IN
  IF ~n.ok THEN n ELSE
  LET x == Append(acc, [n |-> n.v, kd |-> kd.v]) IN
  IF Is(T, n.i, ",") THEN PolyBlock(T, b, n.i + 1, x)
  ELSE IF ~Is(T, n.i, ">") THEN No(n.i)
  ELSE LET r == Block(T, n.i + 1) IN
       IF ~r.ok THEN r ELSE Yes([k |-> "poly", l |-> T[b].l, as |-> x, b |-> r.v], r.i)

Block(T, i) ==
  IF Is(T, i, "{")
  THEN LET s == Stmt(T, i + 1) IN
       IF ~s.ok THEN s ELSE IF Is(T, s.i, "}") THEN Yes(s.v, s.i + 1) ELSE No(s.i)
  ELSE IF Is(T, i, "(")
  THEN LET a == PExpr(T, i + 1) IN
       IF ~a.ok THEN a
       ELSE IF IsWord(T, a.i)
       THEN LET f == Fields(T, a.i, a.v, <<>>) IN
            IF ~f.ok THEN f ELSE
            LET r == Block(T, f.i) IN
            IF ~r.ok THEN r ELSE Yes([k |-> "fn", l |-> T[i].l, as |-> f.v, b |-> r.v], r.i)
       ELSE LET f == IF Is(T, a.i, ")") THEN Yes(<<a.v>>, a.i + 1)
                     ELSE IF Is(T, a.i, ",") THEN Exprs(T, a.i + 1, ")", <<a.v>>) ELSE No(a.i) IN
            IF ~f.ok THEN f ELSE
            LET r == Block(T, f.i) IN
            IF ~r.ok THEN r ELSE Yes([k |-> "ftype", l |-> T[i].l, as |-> f.v, r |-> r.v], r.i)
  ELSE IF Is(T, i, "<") THEN PolyBlock(T, i, i + 1, <<>>)
  ELSE No(i)

PExpr(T, i) ==
  LET l == T[i].l
      Close(r, c, x) == IF ~r.ok THEN r ELSE IF Is(T, r.i, c) THEN Post(T, x, r.i + 1, l) ELSE No(r.i)
      Then(r, x) == IF ~r.ok THEN r ELSE Post(T, x, r.i, l)
  IN
  IF IsWord(T, i)
  THEN LET n == PName(T, i) IN Post(T, [k |-> "var", l |-> l, n |-> n.v], n.i, l)
  ELSE IF T[i].t # "p" THEN No(i) ELSE
  CASE T[i].w = "@" ->
         IF Is(T, i + 1, "<")
         THEN LET e == PExpr(T, i + 2) IN Close(e, ">", [k |-> "typeof", l |-> l, e |-> e.v])
         ELSE IF Is(T, i + 1, "(")
         THEN LET a == IF Is(T, i + 2, ")") THEN Yes(<<>>, i + 3) ELSE Tagged(T, i + 2, <<>>, TRUE) IN
              Then(a, [k |-> "simp", l |-> l, as |-> a.v])
         ELSE No(i + 1)
    [] T[i].w = "/" -> LET p == PPath(T, i, <<>>) IN Then(p, [k |-> "mod", l |-> l, p |-> p.v])
    [] T[i].w = "*" ->
         IF ~Is(T, i + 1, "(") THEN No(i + 1)
         ELSE LET f == IF Is(T, i + 2, ")") THEN Yes(<<>>, i + 3) ELSE Fields(T, i + 2, SNil, <<>>) IN
              Then(f, [k |-> "data", l |-> l, d |-> "struct", fs |-> f.v])
    [] T[i].w = "+" ->
         IF ~Is(T, i + 1, "(") THEN No(i + 1)
         ELSE LET f == Fields(T, i + 2, SNil, <<>>) IN
              Then(f, [k |-> "data", l |-> l, d |-> "union", fs |-> f.v])
    [] T[i].w = "%" ->
         IF ~Is(T, i + 1, "(") THEN No(i + 1)
         ELSE IF Is(T, i + 2, ")") THEN Post(T, [k |-> "pkg", l |-> l, p |-> <<>>], i + 3, l)
         ELSE LET p == PPath(T, i + 2, <<>>) IN Close(p, ")", [k |-> "pkg", l |-> l, p |-> p.v])
    [] T[i].w \in {"{", "(", "<"} -> LET b == Block(T, i) IN Then(b, b.v)
    [] OTHER -> No(i)

(* what follows the expression e, which starts at l *)
Post(T, e, i, l) ==
  IF T[i].t # "p" THEN Yes(e, i) ELSE
  CASE T[i].w = "(" ->
         LET n == PName(T, i + 1) IN
         IF n.ok /\ Is(T, n.i, ":")
         THEN LET a == PExpr(T, n.i + 1) IN
              IF ~a.ok THEN a ELSE IF ~Is(T, a.i, ")") THEN No(a.i)
              ELSE Post(T, [k |-> "uval", l |-> l, ty |-> e, n |-> n.v, e |-> a.v], a.i + 1, l)
         ELSE LET a == ExprsOrNone(T, i + 1, ")") IN
              IF ~a.ok THEN a ELSE Post(T, [k |-> "app", l |-> l, e |-> e, as |-> a.v, bind |-> FALSE], a.i, l)
    [] T[i].w = "<" ->
         LET a == Exprs(T, i + 1, ">", <<>>) IN
         IF ~a.ok THEN a ELSE Post(T, [k |-> "papp", l |-> l, e |-> e, as |-> a.v], a.i, l)
    [] T[i].w = "[" ->
         LET a == ExprsOrNone(T, i + 1, "]") IN
         IF ~a.ok THEN a ELSE Post(T, [k |-> "list", l |-> l, e |-> e, as |-> a.v], a.i, l)
    [] T[i].w = "|" ->
         IF ~IsWord(T, i + 1) THEN No(i + 1)
         ELSE Post(T, [k |-> "lit", l |-> l, e |-> e, w |-> T[i + 1].w, wl |-> T[i + 1].l], i + 2, l)
    [] T[i].w = "." ->
         IF IsWord(T, i + 1)
         THEN LET n == PName(T, i + 1) IN Post(T, [k |-> "acc", l |-> l, e |-> e, n |-> n.v], n.i, l)
         ELSE IF Is(T, i + 1, "%") THEN Post(T, [k |-> "unabs", l |-> l, e |-> e], i + 2, l)
         ELSE IF Is(T, i + 1, "@")
         THEN IF ~Is(T, i + 2, "(") THEN No(i + 2)
              ELSE LET a == Tagged(T, i + 3, <<>>, TRUE) IN
                   IF ~a.ok THEN a ELSE Post(T, [k |-> "copy", l |-> l, e |-> e, as |-> a.v], a.i, l)
         ELSE IF Is(T, i + 1, "?")
         THEN IF ~Is(T, i + 2, "(") THEN No(i + 2)
              ELSE LET a == Choice(T, i + 3, <<>>) IN
                   IF ~a.ok THEN a ELSE Post(T, [k |-> "sel", l |-> l, e |-> e, cs |-> a.v.cs, d |-> a.v.d], a.i, l)
         ELSE IF Is(T, i + 1, "<")
         THEN LET t == PExpr(T, i + 2) IN
              IF ~t.ok THEN t ELSE IF ~Is(T, t.i, ">") THEN No(t.i)
              ELSE IF ~Is(T, t.i + 1, "(") THEN No(t.i + 1)
              ELSE LET v == PExpr(T, t.i + 2) IN
                   IF ~v.ok THEN v ELSE IF ~Is(T, v.i, ")") THEN No(v.i)
                   ELSE Post(T, [k |-> "cast", l |-> l, pk |-> e, ty |-> t.v, e |-> v.v], v.i + 1, l)
         ELSE No(i + 1)
    [] OTHER -> Yes(e, i)

(* a kind, where a statement or binding may also start with an expression:     *)
(* ok with the kind, or Nil if an expression starts here                       *)
SpecKind(T, i) ==
  IF Is(T, i, "@") THEN IF Is(T, i + 1, "<") \/ Is(T, i + 1, "(") THEN Yes(SNil, i) ELSE PKind(T, i, TRUE)
  ELSE IF Is(T, i, "%") THEN IF Is(T, i + 1, "(") THEN Yes(SNil, i) ELSE PKind(T, i, TRUE)
  ELSE IF Is(T, i, "<")
  THEN LET a == PKind(T, i + 1, TRUE) IN
       IF ~a.ok THEN a
       ELSE IF IsWord(T, a.i) THEN Yes(SNil, i)
       ELSE IF KindLevel(a.v) = 1 THEN PKind(T, i, TRUE) ELSE No(a.i)
  ELSE Yes(SNil, i)

(* bindings up to and including ';', then the body; i: a binding *)
Lets(T, i, acc) ==
  LET kd == SpecKind(T, i) IN
  IF ~kd.ok THEN kd ELSE
  LET ty == IF kd.v.k = "nil" THEN PExpr(T, i) ELSE Yes(SNil, kd.i) IN
  IF ~ty.ok THEN ty ELSE
  LET n == PName(T, ty.i) IN
  IF ~n.ok THEN n ELSE IF ~Is(T, n.i, "=") THEN No(n.i)
  ELSE LetRest(T, n, ty.v, kd.v, acc)
(* after the name n of a binding with type ty or kind kd *)
LetRest(T, n, ty, kd, acc) ==
  LET e == PExpr(T, n.i + 1) IN
  IF ~e.ok THEN e ELSE
  LET x == Append(acc, [n |-> n.v, ty |-> ty, kd |-> kd, e |-> e.v]) IN
  IF Is(T, e.i, ",") THEN Lets(T, e.i + 1, x)
  ELSE IF ~Is(T, e.i, ";") THEN No(e.i)
  ELSE LET s == Stmt(T, e.i + 1) IN
       IF ~s.ok THEN s
       ELSE Yes([k |-> "let", l |-> LET b == x[1] IN IF b.ty.k = "nil" THEN b.kd.l ELSE b.ty.l, bs |-> x, b |-> s.v], s.i)
(* arguments of a bind; i: after "type name" *)
Binds(T, i, acc) ==
  IF Is(T, i, ",")
  THEN LET a == PExpr(T, i + 1) IN
       IF ~a.ok THEN a ELSE
       LET n == PName(T, a.i) IN
       IF ~n.ok THEN n ELSE Binds(T, n.i, Append(acc, [n |-> n.v, e |-> a.v]))
  ELSE IF ~Is(T, i, "<") THEN No(i)
  ELSE IF ~Is(T, i + 1, "-") THEN No(i + 1)
  ELSE LET f == PExpr(T, i + 2) IN
       IF ~f.ok THEN f ELSE IF ~Is(T, f.i, ";") THEN No(f.i)
       ELSE LET s == Stmt(T, f.i + 1)
                l == acc[1].e.l IN
            IF ~s.ok THEN s
            ELSE Yes([k |-> "app", l |-> l, e |-> f.v, bind |-> TRUE,
                      as |-> <<[k |-> "fn", l |-> l, as |-> acc, b |-> s.v]>>], s.i)
Stmt(T, i) ==
  LET kd == SpecKind(T, i) IN
  IF ~kd.ok THEN kd
  ELSE IF kd.v.k # "nil"
  THEN LET n == PName(T, kd.i) IN
       IF ~n.ok THEN n ELSE IF ~Is(T, n.i, "=") THEN No(n.i) ELSE LetRest(T, n, SNil, kd.v, <<>>)
  ELSE LET e == PExpr(T, i) IN
  IF ~e.ok THEN e
  ELSE IF IsWord(T, e.i)
  THEN LET n == PName(T, e.i) IN
       IF Is(T, n.i, "=") THEN LetRest(T, n, e.v, SNil, <<>>)
       ELSE Binds(T, n.i, <<[n |-> n.v, e |-> e.v]>>)
  ELSE IF ~Is(T, e.i, ";") THEN No(e.i)
  ELSE IF Is(T, e.i + 1, "}") \/ T[e.i + 1].t = "eof" THEN Yes(e.v, e.i + 1)
  ELSE LET s == Stmt(T, e.i + 1) IN
       IF e.v.k = "sel" /\ e.v.d.k = "nil" THEN IF s.ok THEN Yes([e.v EXCEPT !.d = s.v], s.i) ELSE s
       ELSE IF s.ok THEN No(e.i + 1)
       \* two things are wrong where statements that must not follow e are
       \* followed by something that cannot follow them: either may be said
       ELSE IF Is(T, s.i - 1, ";") THEN [s EXCEPT !.x = @ \cup {T[e.i + 1].l}] ELSE s

(* The module with text src: ok with its tree and the modules it names, or    *)
(* the locations where the text stops being a module.                         *)
Parse(src, base) ==
  LET T == Tokens(src, base)
      s == Stmt(T, 1)
      er == {T[s.i].l} \cup (IF s.ok THEN {} ELSE s.x) \cup (IF T[s.i].t = "bad" THEN {T[Len(T)].l} ELSE {})
  IN IF ~s.ok \/ T[s.i].t # "eof" THEN [ok |-> FALSE, er |-> er, e |-> SNil]
     ELSE [ok |-> TRUE, er |-> {}, e |-> s.v]
=============================================================================
