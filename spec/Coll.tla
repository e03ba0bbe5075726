-------------------------------- MODULE Coll --------------------------------
(* The core collections (pkgs/core: Map, Set, List, Sort, Fifo) as the      *)
(* mathematical objects they stand for, and their histories: every          *)
(* operation takes earlier versions and makes a new one; versions never     *)
(* change.  Elements are numbers below 64.                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

Up == 0
Down == 1
\* The elements of a set in the order a collection made with that order keeps.
InOrder(d, S) == IF d = Up THEN SetToSortSeq(S, LAMBDA x, y : x < y) ELSE SetToSortSeq(S, LAMBDA x, y : x > y)

------------------------------------------------------------------------------
\* Maps: functions from a finite set of keys.
NoMap == [x \in {} |-> <<>>]
Has(f, k) == k \in DOMAIN f
Put(f, k, v) == TLCEval([x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]])
Without(f, k) == TLCEval([x \in (DOMAIN f) \ {k} |-> f[x]])
Over(f, g) == TLCEval([x \in (DOMAIN f) \cup (DOMAIN g) |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]])
Found(f, k) == IF Has(f, k) THEN <<f[k]>> ELSE <<>>
Entries(d, f) == LET ks == InOrder(d, DOMAIN f) IN [j \in 1..Len(ks) |-> <<ks[j], f[ks[j]]>>]

\* Lists: sequences.
Flatten(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
Joined(ss, sep) == IF ss = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, s : a \o sep \o s, Head(ss), Tail(ss))
Mirror(x) == 63 - x
Mapped(s) == [j \in 1..Len(s) |-> Mirror(s[j])]
Looped(s) == FoldLeft(LAMBDA a, x : <<x, Mirror(x)>> \o a, <<>>, s)
Separator(x) == x % 4 = 3
\* The longest runs without separators.
Runs(s) == LET F(a, x) == IF Separator(x) THEN [done |-> IF a.run = <<>> THEN a.done ELSE Append(a.done, a.run), run |-> <<>>]
                          ELSE [done |-> a.done, run |-> Append(a.run, x)]
               e == FoldLeft(F, [done |-> <<>>, run |-> <<>>], s)
           IN IF e.run = <<>> THEN e.done ELSE Append(e.done, e.run)
Taken(s, n) == SubSeq(s, 1, IF n < 0 THEN 0 ELSE IF n < Len(s) THEN n ELSE Len(s))
Dropped(s, n) == SubSeq(s, IF n < 0 THEN 1 ELSE n + 1, Len(s))
\* 0, 1, 2: less, equal, greater, as the union Ordering@ has them.
RECURSIVE Compared(_, _)
Compared(a, b) == IF a = <<>> THEN (IF b = <<>> THEN 1 ELSE 0) ELSE IF b = <<>> THEN 2
                  ELSE IF Head(a) < Head(b) THEN 0 ELSE IF Head(a) > Head(b) THEN 2 ELSE Compared(Tail(a), Tail(b))
Count(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
\* How sorting sees an element, by kind: up, down, the three high bits only.
Rank(kind, x) == IF kind = 0 THEN x ELSE IF kind = 1 THEN -x ELSE x \div 8
SortOf(kind, s, r) ==
  /\ Len(r) = Len(s)
  /\ \A x \in Range(s) \cup Range(r) : Count(s, x) = Count(r, x)
  /\ \A j \in 1..Len(r) - 1 : Rank(kind, r[j]) <= Rank(kind, r[j + 1])

------------------------------------------------------------------------------
\* A new version.  op: [o, d (order), a (versions used), k (element), v (elements), n (number)].
Map(d, f) == [d |-> d, m |-> f]
Set(d, S) == [d |-> d, s |-> S]
Make(vs, op) ==
  LET A == vs[op.a[1]]  B == vs[op.a[2]] IN
  CASE op.o = "mEmpty" -> Map(op.d, NoMap)
    [] op.o = "mInsert" -> Map(A.d, Put(A.m, op.k, op.v))
    [] op.o = "mWith" -> Map(A.d, Put(A.m, op.k, IF Has(A.m, op.k) THEN A.m[op.k] \o op.v ELSE op.v))
    [] op.o = "mDelete" -> Map(A.d, Without(A.m, op.k))
    [] op.o = "mUnion" -> Map(A.d, Over(A.m, B.m))
    [] op.o = "sEmpty" -> Set(op.d, {})
    [] op.o = "sInsert" -> Set(A.d, A.s \cup {op.k})
    [] op.o = "sDelete" -> Set(A.d, A.s \ {op.k})
    [] op.o = "list" -> op.v
    [] op.o = "cons" -> <<op.k>> \o A
    [] op.o = "append" -> A \o B
    [] op.o = "init" -> IF A = <<>> THEN <<>> ELSE SubSeq(A, 1, Len(A) - 1)
    [] op.o = "reverse" -> Reverse(A)
    [] op.o = "map" -> Mapped(A)
    [] op.o = "foreach" -> Looped(A)
    [] op.o = "concat" -> Flatten([j \in 1..Len(op.a) |-> vs[op.a[j]]])
    [] op.o = "join" -> Joined([j \in 1..Len(op.a) - 1 |-> vs[op.a[j + 1]]], A)
    [] op.o = "take" -> Taken(A, op.n)
    [] op.o = "drop" -> Dropped(A, op.n)
    [] op.o = "fEmpty" -> <<>>
    [] op.o = "fPut" -> Append(A, op.k)
    [] op.o = "fNext" -> IF A = <<>> THEN <<>> ELSE Tail(A)
Looks == {"mIsEmpty", "mLookup", "mEntries", "mEq", "sIsEmpty", "sContains", "sElements", "sEq",
          "see", "last", "eq", "contains", "split", "ord", "length", "get", "sort", "fFirst"}
Bool(b) == IF b THEN 0 ELSE 1      \* as the union Bool@ has them
\* What an operation that makes no version may answer.
Answers(vs, op, got) ==
  LET A == vs[op.a[1]]  B == vs[op.a[2]] IN
  CASE op.o = "mIsEmpty" -> got = Bool(DOMAIN A.m = {})
    [] op.o = "mLookup" -> got = Found(A.m, op.k)
    [] op.o = "mEntries" -> got = Reverse(Entries(A.d, A.m))     \* the loop's list has the last first
    [] op.o = "mEq" -> got = Bool(A.m = B.m)
    [] op.o = "sIsEmpty" -> got = Bool(A.s = {})
    [] op.o = "sContains" -> got = Bool(op.k \in A.s)
    [] op.o = "sElements" -> got = Reverse(InOrder(A.d, A.s))
    [] op.o = "sEq" -> got = Bool(A.s = B.s)
    [] op.o = "see" -> got = A
    [] op.o = "last" -> got = A[Len(A)]
    [] op.o = "eq" -> got = Bool(A = B)
    [] op.o = "contains" -> got = Bool(op.k \in Range(A))
    [] op.o = "split" -> got = Runs(A)
    [] op.o = "ord" -> got = Compared(A, B)
    [] op.o = "length" -> got = Len(A)
    [] op.o = "get" -> got = A[op.n + 1]
    [] op.o = "sort" -> SortOf(op.n, A, got)
    [] op.o = "fFirst" -> got = (IF A = <<>> THEN <<>> ELSE <<A[1]>>)
=============================================================================
