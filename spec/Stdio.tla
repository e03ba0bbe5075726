------------------------------- MODULE Stdio -------------------------------
(* Standard IO programs: the world they run in, what each of their steps    *)
(* does to it, the programs of Verif/Script.fble, and the program driver's  *)
(* options.  Text and bytes are sequences of numbers below 256.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

(***************************************************************************)
(* The world.  files: path -> bytes, for the files that exist; creatable:  *)
(* the paths at which one may be made.  A reader is at a position of a     *)
(* file, or of the input; a writer likewise, with the two outputs.         *)
(***************************************************************************)
World(in, files, creatable) ==
  [in |-> in, out |-> <<>>, err |-> <<>>, files |-> files, creatable |-> creatable,
   rs |-> <<[k |-> "in", path |-> <<>>, pos |-> 0]>>,
   ws |-> <<[k |-> "out", path |-> <<>>, pos |-> 0], [k |-> "err", path |-> <<>>, pos |-> 0]>>]

None == [k |-> "none", path |-> <<>>, pos |-> 0]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

OpenRead(w, path) ==
  IF path \in DOMAIN w.files THEN [w EXCEPT !.rs = Append(@, [k |-> "file", path |-> path, pos |-> 0])]
  ELSE [w EXCEPT !.rs = Append(@, None)]
\* opening for writing empties the file, also under those that have it open
OpenWrite(w, path) ==
  IF path \in DOMAIN w.files \/ path \in w.creatable
  THEN [w EXCEPT !.files = Put(@, path, <<>>), !.ws = Append(@, [k |-> "file", path |-> path, pos |-> 0])]
  ELSE [w EXCEPT !.ws = Append(@, None)]

Source(w, r) == IF w.rs[r].k = "in" THEN w.in ELSE w.files[w.rs[r].path]
AtEnd(w, r) == w.rs[r].pos >= Len(Source(w, r))
NextByte(w, r) == Source(w, r)[w.rs[r].pos + 1]
Advance(w, r, n) == [w EXCEPT !.rs[r].pos = @ + n]
Left(w, r) == SubSeq(Source(w, r), w.rs[r].pos + 1, Len(Source(w, r)))

\* bytes at a position; what was skipped reads as zero
Over(s, pos, b) ==
  [k \in 1..(IF Len(s) > pos + Len(b) THEN Len(s) ELSE pos + Len(b)) |->
     IF k > pos /\ k <= pos + Len(b) THEN b[k - pos] ELSE IF k <= Len(s) THEN s[k] ELSE 0]
Write(w, j, b) ==
  IF b = <<>> THEN w
  ELSE CASE w.ws[j].k = "out" -> [w EXCEPT !.out = @ \o b]
         [] w.ws[j].k = "err" -> [w EXCEPT !.err = @ \o b]
         [] w.ws[j].k = "file" -> [w EXCEPT !.files[w.ws[j].path] = Over(@, w.ws[j].pos, b), !.ws[j].pos = @ + Len(b)]

(***************************************************************************)
(* Text.  A program sees characters it has no name for as question marks.  *)
(***************************************************************************)
Known == {9, 10} \cup 32..126
Seen(s) == [k \in DOMAIN s |-> IF s[k] \in Known THEN s[k] ELSE 63]
NL == 10
RECURSIVE SplitBy(_, _)
SplitBy(s, sep) ==
  LET from == {k \in 1..Len(s) : s[k] # sep}
  IN IF from = {} THEN <<>>
     ELSE LET a == CHOOSE k \in from : \A j \in from : k <= j
              ends == {k \in a..Len(s) : s[k] = sep}
              b == IF ends = {} THEN Len(s) + 1 ELSE CHOOSE k \in ends : \A j \in ends : k <= j
          IN <<SubSeq(s, a, b - 1)>> \o SplitBy(SubSeq(s, b, Len(s)), sep)
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Decimal(n \div 10), 48 + (n % 10))
Number(d) == FoldLeft(LAMBDA a, c : 10 * a + c - 48, 0, d)

(***************************************************************************)
(* The script program.  A state is a world with a result: "" while it runs *)
(* and then true, false or abort.                                          *)
(***************************************************************************)
Say(p, s) == [p EXCEPT !.w = Write(p.w, 1, s)]
SayByte(p, r) ==
  IF AtEnd(p.w, r) THEN Say(p, <<101, 32>>)
  ELSE LET b == NextByte(p.w, r) IN Say([p EXCEPT !.w = Advance(@, r, 1)], Decimal(b) \o <<32>>)
X(p) == Say(p, <<120>>)
Step(p, op, n, args, env) ==
  LET w == p.w
      R == Len(n) > 0 /\ n[1] < Len(w.rs) /\ w.rs[n[1] + 1].k # "none"
      r == n[1] + 1
      J(j) == j < Len(w.ws) /\ w.ws[j + 1].k # "none"
      arg(k) == args[k + 1]
      put(j, b) == IF J(j) THEN [p EXCEPT !.w = Write(w, j + 1, b)] ELSE X(p)
      yn(ok) == IF ok THEN <<121>> ELSE <<110>>
  IN CASE op = "r" -> LET v == OpenRead(w, arg(n[1])) IN Say([p EXCEPT !.w = v], yn(v.rs[Len(v.rs)].k # "none"))
       [] op = "w" -> LET v == OpenWrite(w, arg(n[1])) IN Say([p EXCEPT !.w = v], yn(v.ws[Len(v.ws)].k # "none"))
       [] op = "g" -> IF R THEN SayByte(p, r) ELSE X(p)
       [] op = "q" -> IF ~R THEN X(p) ELSE IF AtEnd(w, r) THEN [p EXCEPT !.res = "false"] ELSE SayByte(p, r)
       [] op = "l" -> IF ~R THEN X(p)
                      ELSE LET s == TLCEval(Left(w, r))
                               e == {k \in DOMAIN s : s[k] = NL}
                               m == IF e = {} THEN Len(s) ELSE CHOOSE k \in e : \A j \in e : k <= j
                           IN Say([p EXCEPT !.w = Advance(@, r, m)], SubSeq(s, 1, m))
       [] op = "t" -> IF ~R THEN X(p)
                      ELSE LET s == TLCEval(Left(w, r)) IN Say([p EXCEPT !.w = Advance(@, r, Len(s))], s)
       [] op = "c" -> IF ~R \/ ~J(n[2]) THEN X(p)
                      ELSE LET s == TLCEval(Left(w, r)) IN [p EXCEPT !.w = Write(Advance(w, r, Len(s)), n[2] + 1, s)]
       [] op = "p" -> put(n[1], <<n[2]>>)
       [] op = "b" -> put(n[1], <<n[2], n[2], n[2]>>)
       [] op = "s" -> put(n[1], arg(n[2]))
       [] op = "S" -> put(n[1], arg(n[2]) \o <<NL>>)
       [] op = "v" -> LET name == arg(n[1]) IN
                      IF name \in DOMAIN env THEN Say(p, <<121>> \o env[name] \o <<NL>>) ELSE Say(p, <<110, NL>>)
       [] op = "a" -> Say(p, FoldLeft(LAMBDA a, s : a \o s \o <<NL>>, <<>>, args))
       [] op = "x" -> [p EXCEPT !.res = "true"]
       [] op = "y" -> [p EXCEPT !.res = "false"]
       [] op = "u" -> [p EXCEPT !.res = "abort"]
Letter(c) == CHOOSE x \in {<<"r", 114>>, <<"w", 119>>, <<"g", 103>>, <<"q", 113>>, <<"l", 108>>, <<"t", 116>>, <<"c", 99>>, <<"p", 112>>, <<"b", 98>>,
                           <<"s", 115>>, <<"S", 83>>, <<"v", 118>>, <<"a", 97>>, <<"x", 120>>, <<"y", 121>>, <<"u", 117>>} : x[2] = c
Program(given, env, w) ==
  LET args == TLCEval([k \in DOMAIN given |-> Seen(given[k])])
      seen == TLCEval([x \in DOMAIN env |-> Seen(env[x])])
      words == IF args = <<>> THEN <<>> ELSE SplitBy(args[1], 32)
      do(p, word) ==
        IF p.res # "" \/ word[1] = 45 THEN p
        ELSE LET ns == SplitBy(Tail(word), 44)
             IN TLCEval(Step(p, Letter(word[1])[1], [k \in DOMAIN ns |-> Number(ns[k])], args, seen))
      e == FoldLeft(do, [w |-> w, res |-> ""], words)
  IN IF args = <<>> THEN [w |-> w, res |-> "false"] ELSE [e EXCEPT !.res = IF @ = "" THEN "true" ELSE @]

(***************************************************************************)
(* The program fble-cat.                                                   *)
(***************************************************************************)
Unable == <<102, 98, 108, 101, 45, 99, 97, 116, 58, 32, 85, 110, 97, 98, 108, 101, 32, 116, 111, 32, 111, 112, 101, 110, 32>>
Cat(given, w) ==
  LET one(p, a) ==
        IF p.res # "" THEN p
        ELSE IF a = <<45>> THEN Say([p EXCEPT !.w = Advance(@, 1, Len(Left(@, 1)))], Left(p.w, 1))
        ELSE IF a \in DOMAIN p.w.files THEN Say(p, p.w.files[a])
        ELSE [p EXCEPT !.w = Write(@, 2, Unable \o a \o <<NL>>), !.res = "false"]
      e == FoldLeft(one, [w |-> w, res |-> ""], IF given = <<>> THEN <<<<45>>>> ELSE [k \in DOMAIN given |-> Seen(given[k])])
  IN [e EXCEPT !.res = IF @ = "" THEN "true" ELSE @]

(***************************************************************************)
(* The driver.  c: compiled or not; pkgs: the packages there are (name ->  *)
(* directory); dirs: those of the module search path that are needed;      *)
(* modules: the module paths that name the program, and those that name    *)
(* nothing; profs: the files a profile can be written to.                  *)
(***************************************************************************)
Tx(s) == CASE s = "-h" -> <<45, 104>> [] s = "--help" -> <<45, 45, 104, 101, 108, 112>>
           [] s = "-v" -> <<45, 118>> [] s = "--version" -> <<45, 45, 118, 101, 114, 115, 105, 111, 110>>
           [] s = "-I" -> <<45, 73>> [] s = "-p" -> <<45, 112>> [] s = "--package" -> <<45, 45, 112, 97, 99, 107, 97, 103, 101>>
           [] s = "-m" -> <<45, 109>> [] s = "--module" -> <<45, 45, 109, 111, 100, 117, 108, 101>>
           [] s = "--profile" -> <<45, 45, 112, 114, 111, 102, 105, 108, 101>> [] s = "--" -> <<45, 45>>
NoFile == <<0>>
RECURSIVE Parse(_, _, _)
\* o: [k, path, module, profile, args]
Parse(o, a, c) ==
  LET value(go(_)) == IF Len(a) < 2 THEN [o EXCEPT !.k = "usage"] ELSE go(a[2])
      rest(n) == SubSeq(a, n + 1, Len(a))
  IN IF a = <<>> THEN [o EXCEPT !.k = "run"]
     ELSE IF a[1] \in {Tx("-h"), Tx("--help")} THEN [o EXCEPT !.k = "help"]
     ELSE IF a[1] \in {Tx("-v"), Tx("--version")} THEN [o EXCEPT !.k = "version"]
     ELSE IF a[1] = Tx("--profile")
          THEN value(LAMBDA v : IF o.profile # NoFile THEN [o EXCEPT !.k = "usage"] ELSE Parse([o EXCEPT !.profile = v], rest(2), c))
     ELSE IF ~c.compiled /\ a[1] = Tx("-I") THEN value(LAMBDA v : Parse([o EXCEPT !.path = @ \cup {v}], rest(2), c))
     ELSE IF ~c.compiled /\ Len(a[1]) > 2 /\ SubSeq(a[1], 1, 2) = Tx("-I")
          THEN Parse([o EXCEPT !.path = @ \cup {SubSeq(a[1], 3, Len(a[1]))}], rest(1), c)
     ELSE IF ~c.compiled /\ a[1] \in {Tx("-p"), Tx("--package")}
          THEN value(LAMBDA v : IF v \in DOMAIN c.pkgs THEN Parse([o EXCEPT !.path = @ \cup {c.pkgs[v]}], rest(2), c) ELSE [o EXCEPT !.k = "usage"])
     ELSE IF ~c.compiled /\ a[1] \in {Tx("-m"), Tx("--module")}
          THEN value(LAMBDA v : IF o.module # NoFile \/ v \notin c.modules \cup c.missing THEN [o EXCEPT !.k = "usage"]
                                ELSE Parse([o EXCEPT !.module = v], rest(2), c))
     ELSE [o EXCEPT !.k = "run", !.args = IF a[1] = Tx("--") THEN rest(1) ELSE a]
Start == [k |-> "run", path |-> {}, module |-> NoFile, profile |-> NoFile, args |-> <<>>]
Options(argv, c) ==
  LET o == IF c.compiled /\ ~\E k \in DOMAIN argv : argv[k] = Tx("--")
           THEN [Start EXCEPT !.args = argv] ELSE Parse(Start, argv, c)
  IN IF o.k # "run" THEN o
     ELSE IF ~c.compiled /\ o.module = NoFile THEN [o EXCEPT !.k = "usage"]
     ELSE IF o.profile # NoFile /\ o.profile \notin c.profs THEN [o EXCEPT !.k = "failure"]
     ELSE IF ~c.compiled /\ (o.module \notin c.modules \/ ~(c.dirs \subseteq o.path)) THEN [o EXCEPT !.k = "failure"]
     ELSE o
Status(k) == CASE k = "true" -> 0 [] k = "false" -> 1 [] k = "abort" -> 3 [] k = "failure" -> 3 [] k = "usage" -> 2
               [] k \in {"help", "version"} -> 0
=============================================================================
