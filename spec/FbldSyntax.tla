----------------------------- MODULE FbldSyntax -----------------------------
(***************************************************************************)
(* The structure an fbld text denotes (property C15).                       *)
(*                                                                         *)
(* A block B is a sequence of lines [s |-> text including its newline,      *)
(* f |-> file, l |-> line, c |-> column of the first character of s].       *)
(* A document is one block; the argument on the lines after a command is    *)
(* the block of the following lines with one leading space removed.         *)
(*                                                                         *)
(* A markup is a sequence of items: [t |-> "p", s |-> string] and           *)
(* [t |-> "c", n |-> name, l |-> <<file, line, column>>, a |-> markups].    *)
(*                                                                         *)
(* Parsers give [ok |-> TRUE, ..., p |-> next position] or                  *)
(* [ok |-> FALSE, k |-> kind of error, l |-> location].                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

NameChars == {SubSeq(cs, i, i) : cs \in {"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"}, i \in 1..63}

(* ---- positions within a block ---- *)
Start == [i |-> 1, j |-> 1]
AtEnd(B, p) == p.i > Len(B)
Ch(B, p) == SubSeq(B[p.i].s, p.j, p.j)
Adv(B, p) == IF p.j < Len(B[p.i].s) THEN [i |-> p.i, j |-> p.j + 1] ELSE [i |-> p.i + 1, j |-> 1]
AdvN(B, p, n) == IF p.j + n <= Len(B[p.i].s) THEN [i |-> p.i, j |-> p.j + n] ELSE [i |-> p.i + 1, j |-> 1]
\* str contains a newline at most as its last character
Starts(B, p, str) ==
  /\ ~AtEnd(B, p)
  /\ p.j + Len(str) - 1 <= Len(B[p.i].s)
  /\ SubSeq(B[p.i].s, p.j, p.j + Len(str) - 1) = str
BlankLine(B, p) == ~AtEnd(B, p) /\ p.j = 1 /\ B[p.i].s = "\n"
LocOf(B, p) ==
  IF AtEnd(B, p) THEN <<0, 0, 0>> ELSE <<B[p.i].f, B[p.i].l, B[p.i].c + p.j - 1>>

Bad(k, l) == [ok |-> FALSE, k |-> k, l |-> l]

Flush(items, cur) == IF cur = "" THEN items ELSE Append(items, [t |-> "p", s |-> cur])

RECURSIVE Name(_, _, _)
Name(B, p, acc) ==
  IF ~AtEnd(B, p) /\ Ch(B, p) \in NameChars THEN Name(B, Adv(B, p), acc \o Ch(B, p)) ELSE [n |-> acc, p |-> p]

(* Text of a {...} argument from just after the opening brace; d = nesting. *)
RECURSIVE Braced(_, _, _, _)
Braced(B, p, d, acc) ==
  IF AtEnd(B, p) THEN Bad("eof", <<0, 0, 0>>)
  ELSE LET c == Ch(B, p) IN
       IF c = "}" /\ d = 0 THEN [ok |-> TRUE, s |-> acc, p |-> Adv(B, p)]
       ELSE Braced(B, Adv(B, p), IF c = "{" THEN d + 1 ELSE IF c = "}" THEN d - 1 ELSE d, acc \o c)

RECURSIVE Inline(_, _, _, _, _)

(* [...] and {...} arguments, appended to args. *)
RECURSIVE InlineArgs(_, _, _)
InlineArgs(B, p, args) ==
  IF Starts(B, p, "{") THEN
    LET r == Braced(B, Adv(B, p), 0, "") IN
    IF r.ok THEN InlineArgs(B, r.p, Append(args, Flush(<<>>, r.s))) ELSE r
  ELSE IF Starts(B, p, "[") THEN
    LET r == Inline(B, Adv(B, p), "arg", "", <<>>) IN
    IF r.ok THEN InlineArgs(B, Adv(B, r.p), Append(args, r.m)) ELSE r
  ELSE [ok |-> TRUE, a |-> args, p |-> p]

(* Inline structured text, from position p up to the end its context sets. *)
Inline(B, p, ctx, cur, items) ==
  LET done == [ok |-> TRUE, m |-> Flush(items, cur), p |-> p] IN
  CASE ctx = "arg" /\ AtEnd(B, p) -> Bad("eof", <<0, 0, 0>>)
    [] ctx = "arg" /\ Starts(B, p, "]") -> done
    [] ctx = "line" /\ (AtEnd(B, p) \/ \E e \in {"\n", " @\n", " @@\n"} : Starts(B, p, e)) -> done
    [] ctx = "para" /\ (AtEnd(B, p) \/ BlankLine(B, p)) -> done
    [] OTHER ->
       LET c == Ch(B, p) IN
       IF c = "@" THEN
         LET n == Name(B, Adv(B, p), "")
             r == InlineArgs(B, n.p, <<>>)
         IN IF n.n = "" THEN Bad("unspecified", <<0, 0, 0>>)
            ELSE IF ~r.ok THEN r
            ELSE Inline(B, r.p, ctx, "",
                        Append(Flush(items, cur), [t |-> "c", n |-> n.n, l |-> LocOf(B, Adv(B, p)), a |-> r.a]))
       ELSE IF c = "\\" THEN
         LET q == Adv(B, p)
             e == IF AtEnd(B, q) THEN "" ELSE Ch(B, q)
         IN IF e \in {"@", "[", "]", "\\"} THEN Inline(B, Adv(B, q), ctx, cur \o e, items)
            ELSE IF e = "n" THEN Inline(B, Adv(B, q), ctx, cur \o "\n", items)
            ELSE Bad("escape", LocOf(B, q))
       ELSE Inline(B, Adv(B, p), ctx, cur \o c, items)

(* The indented lines from line i on, one column further in: [b, i]. *)
RECURSIVE Sub(_, _, _)
Sub(B, i, acc) ==
  IF i > Len(B) THEN [b |-> acc, i |-> i]
  ELSE IF B[i].s = "\n" THEN Sub(B, i + 1, Append(acc, B[i]))
  ELSE IF SubSeq(B[i].s, 1, 1) = " " THEN
    Sub(B, i + 1, IF Len(B[i].s) = 1 THEN acc
                  ELSE Append(acc, [B[i] EXCEPT !.s = SubSeq(@, 2, Len(@)), !.c = @ + 1]))
  ELSE [b |-> acc, i |-> i]

RECURSIVE Join(_, _)
Join(b, i) == IF i > Len(b) THEN "" ELSE b[i].s \o Join(b, i + 1)

(* A literal block without the blank lines at its end. *)
RECURSIVE Trim(_)
Trim(b) == IF Len(b) > 1 /\ b[Len(b)].s = "\n" /\ Len(b[Len(b) - 1].s) > 0 THEN Trim(SubSeq(b, 1, Len(b) - 1)) ELSE b

RECURSIVE Block(_, _, _)
RECURSIVE Args(_, _, _)

(* Arguments of a block command from position p (after its name, or after  *)
(* the @ of a continuation).                                                *)
Args(B, p, args) ==
  LET in == InlineArgs(B, p, args) IN
  IF ~in.ok THEN in
  ELSE
    LET sameline == Starts(B, in.p, " ") /\ ~Starts(B, in.p, " @\n") /\ ~Starts(B, in.p, " @@\n")
        sl == IF sameline THEN Inline(B, Adv(B, in.p), "line", "", <<>>) ELSE [ok |-> TRUE, p |-> in.p]
    IN IF ~sl.ok THEN sl
       ELSE
         LET a1 == IF sameline THEN Append(in.a, sl.m) ELSE in.a
             q == sl.p
         IN IF Starts(B, q, " @@\n") THEN
              LET r == Block(B, AdvN(B, q, 4), <<>>) IN
              IF r.ok THEN [ok |-> TRUE, a |-> Append(a1, r.m), p |-> r.p] ELSE r
            ELSE IF ~Starts(B, q, " @\n") /\ ~Starts(B, q, "\n") THEN Bad("newline", LocOf(B, q))
            ELSE
              LET lit == Starts(B, q, " @\n")
                  i0 == q.i + 1
                  sb == Sub(B, i0, <<>>)
                  a2 == IF lit THEN Append(a1, Flush(<<>>, Join(Trim(sb.b), 1))) ELSE a1
                  i1 == IF lit THEN sb.i ELSE i0
                  next == i1 <= Len(B) /\ SubSeq(B[i1].s, 1, 1) = " "
                  nb == Sub(B, i1, <<>>)
                  nl == IF next THEN Block(nb.b, Start, <<>>) ELSE [ok |-> TRUE]
              IN IF ~nl.ok THEN nl
                 ELSE
                   LET a3 == IF next THEN Append(a2, nl.m) ELSE a2
                       r == [i |-> IF next THEN nb.i ELSE i1, j |-> 1]
                   IN IF Starts(B, r, "@@\n") THEN
                        LET f == Block(B, AdvN(B, r, 3), <<>>) IN
                        IF f.ok THEN [ok |-> TRUE, a |-> Append(a3, f.m), p |-> f.p] ELSE f
                      ELSE IF \E s \in {"@\n", "@ ", "@[", "@{"} : Starts(B, r, s) THEN Args(B, Adv(B, r), a3)
                      ELSE [ok |-> TRUE, a |-> a3, p |-> r]

(* Block structured text from position p to the end of B. *)
Block(B, p, items) ==
  IF AtEnd(B, p) THEN [ok |-> TRUE, m |-> items, p |-> p]
  ELSE IF BlankLine(B, p) THEN Block(B, Adv(B, p), items)
  ELSE IF Starts(B, p, "@") /\ ~Starts(B, p, "@@") THEN
    LET n == Name(B, Adv(B, p), "")
        r == Args(B, n.p, <<>>)
    IN IF n.n = "" THEN Bad("unspecified", <<0, 0, 0>>)
       ELSE IF ~r.ok THEN r
       ELSE Block(B, r.p, Append(items, [t |-> "c", n |-> n.n, l |-> LocOf(B, Adv(B, p)), a |-> r.a]))
  ELSE
    LET r == Inline(B, IF Starts(B, p, "@@") THEN Adv(B, p) ELSE p, "para", "", <<>>) IN
    IF ~r.ok THEN r
    ELSE Block(B, r.p, Append(items, [t |-> "c", n |-> ".block", l |-> <<0, 0, 0>>, a |-> <<r.m>>]))

(* Left open: a first line of nothing but one space, and spaces after the    *)
(* last newline.                                                             *)
RECURSIVE AllSpaces(_)
AllSpaces(s) == s = "" \/ (SubSeq(s, 1, 1) = " " /\ AllSpaces(SubSeq(s, 2, Len(s))))
ParseDoc(B) ==
  IF Len(B) > 0 /\ (B[1].s = " \n" \/ AllSpaces(B[Len(B)].s)) THEN Bad("unspecified", <<0, 0, 0>>)
  ELSE Block(B, Start, <<>>)
=============================================================================
