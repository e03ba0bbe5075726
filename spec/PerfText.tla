------------------------------ MODULE PerfText ------------------------------
(* What fble-perf-profile makes of the text on its standard input: a        *)
(* heading line, then lines "COUNT NAME;NAME;...", outermost call first,    *)
(* up to the next heading (a line that starts with a space or has none) or  *)
(* the end of the input.  Text is a sequence of byte values without NUL.    *)
EXTENDS Profile, SequencesExt
NL == 10
Blank == 32
Semi == 59
Digits == 48..57

\* Pieces of t between the separators c (Len = occurrences of c + 1).
Split(t, c) ==
  LET F(a, x) == IF x = c THEN [done |-> Append(a.done, a.cur), cur |-> <<>>] ELSE [a EXCEPT !.cur = Append(@, x)]
      r == FoldLeft(F, [done |-> <<>>, cur |-> <<>>], t)
  IN Append(r.done, r.cur)
\* Only terminated lines are lines.
Lines(t) == LET p == Split(t, NL) IN SubSeq(p, 1, Len(p) - 1)
Terminated(t) == t = <<>> \/ t[Len(t)] = NL

IndexOf(l, c) == IF \E k \in 1..Len(l) : l[k] = c THEN CHOOSE k \in 1..Len(l) : l[k] = c /\ \A j \in 1..k-1 : l[j] # c ELSE 0
Heading(l) == IndexOf(l, Blank) \in {0, 1}
CountText(l) == SubSeq(l, 1, IndexOf(l, Blank) - 1)
GoodCount(l) ==
  LET w == CountText(l) IN
  /\ Len(w) \in 1..7 /\ \A k \in 1..Len(w) : w[k] \in Digits
  /\ Len(w) > 1 => w[1] # 48
\* A word that starts like no number at all.
BadCount(l) == LET w == CountText(l) IN w[1] \notin Digits \cup {43, 45} \cup 9..13
Number(w) == LET F(a, x) == a * 10 + (x - 48) IN FoldLeft(F, 0, w)
Path(l) == Split(SubSeq(l, IndexOf(l, Blank) + 1, Len(l)), Semi)

RootName == <<60, 114, 111, 111, 116, 62>>
Loc0 == ":0:0"
\* Blocks are numbered in order of first appearance; squashed names enter no block.
EnterPath(a, names, squash) ==        \* a: [s, seen]
  LET F(b, x) ==
        IF x \in squash THEN b ELSE
        LET known == \E k \in 1..Len(b.seen) : b.seen[k] = x
            seen == IF known THEN b.seen ELSE Append(b.seen, x)
            id == (CHOOSE k \in 1..Len(seen) : seen[k] = x) - 1
            s == IF known THEN b.s ELSE TLCEval(AddBlock(b.s))
        IN [s |-> TLCEval(Enter(s, 1, id)), seen |-> seen]
  IN FoldLeft(F, a, names)
RECURSIVE LeaveAll(_)
LeaveAll(s) == IF Len(s.threads[1]) = 1 THEN s ELSE LeaveAll(Exit(s, 1))

\* [status: "ok" with the profile s and the names seen, "fail", or "open" where nothing is said]
RECURSIVE Samples(_, _, _)
Samples(a, ls, squash) ==
  IF ls = <<>> \/ Heading(Head(ls)) THEN [status |-> "ok", s |-> a.s, seen |-> a.seen]
  ELSE LET l == Head(ls) IN
    IF GoodCount(l) THEN
      LET b == EnterPath(a, Path(l), squash)
          s == TLCEval(LeaveAll(Sample(b.s, 1, Number(CountText(l)))))
      IN Samples([s |-> s, seen |-> b.seen], Tail(ls), squash)
    ELSE [status |-> IF BadCount(l) THEN "fail" ELSE "open", s |-> a.s, seen |-> a.seen]
Meaning(text, squash, max) ==
  LET ls == Lines(text)
      start == [s |-> AddThread(New(max, TRUE)), seen |-> <<RootName>>]
  IN Samples(start, IF ls = <<>> THEN <<>> ELSE Tail(ls), squash)
=============================================================================
