------------------------------ MODULE Samples ------------------------------
(* What the sample programs compute: the digests printed by fble-md5, the    *)
(* generations of the game of life, the answers of the sudoku solver, a      *)
(* session of tic-tac-toe, and the reverse complement of dna sequences.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Bitwise, TLC

(* ---- fble-md5 ---------------------------------------------------------- *)
(* A word of 32 bits is <<its upper half, its lower half>>.                  *)
Half == 65536
WAdd(x, y) == LET lo == x[2] + y[2] IN <<(x[1] + y[1] + lo \div Half) % Half, lo % Half>>
WAnd(x, y) == <<x[1] & y[1], x[2] & y[2]>>
WOr(x, y) == <<x[1] | y[1], x[2] | y[2]>>
WXor(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
WNot(x) == <<Half - 1 - x[1], Half - 1 - x[2]>>
WRot(x, n) ==
  LET y == IF n >= 16 THEN <<x[2], x[1]>> ELSE x
      k == n % 16
      up == 2 ^ k
      dn == 2 ^ (16 - k)
  IN <<((y[1] % dn) * up) + y[2] \div dn, ((y[2] % dn) * up) + y[1] \div dn>>

\* the integer part of 2^32 * |sin(i)| for i from 1 to 64
Sines == <<
<<55146, 42104>>, <<59591, 46934>>, <<9248, 28891>>, <<49597, 52974>>, <<62844, 4015>>, <<18311, 50730>>, <<43056, 17939>>,
<<64838, 38145>>, <<27008, 39128>>, <<35652, 63407>>, <<65535, 23473>>, <<35164, 55230>>, <<27536, 4386>>, <<64920, 29075>>,
<<42617, 17294>>, <<18868, 2081>>, <<63006, 9570>>, <<49216, 45888>>, <<9822, 23121>>, <<59830, 51114>>, <<54831, 4189>>, <<580,
5203>>, <<55457, 59009>>, <<59347, 64456>>, <<8673, 52710>>, <<49975, 2006>>, <<62677, 3463>>, <<17754, 5357>>, <<43491, 59653>>,
<<64751, 41976>>, <<26479, 729>>, <<36138, 19594>>, <<65530, 14658>>, <<34673, 63105>>, <<28061, 24866>>, <<64997, 14348>>,
<<42174, 59972>>, <<19422, 53161>>, <<63163, 19296>>, <<48831, 48240>>, <<10395, 32454>>, <<60065, 10234>>, <<54511, 12421>>,
<<1160, 7429>>, <<55764, 53305>>, <<59099, 39397>>, <<8098, 31992>>, <<50348, 22117>>, <<62505, 8772>>, <<17194, 65431>>, <<43924,
9127>>, <<64659, 41017>>, <<25947, 22979>>, <<36620, 52370>>, <<65519, 62589>>, <<34180, 24017>>, <<28584, 32335>>, <<65068,
59104>>, <<41729, 17172>>, <<19976, 4513>>, <<63315, 32386>>, <<48442, 62005>>, <<10967, 53947>>, <<60294, 54161>>>>
Turns == <<<<7, 12, 17, 22>>, <<5, 9, 14, 20>>, <<4, 11, 16, 23>>, <<6, 10, 15, 21>>>>

Mix(r, x, y, z) ==
  CASE r = 0 -> WOr(WAnd(x, y), WAnd(WNot(x), z))
    [] r = 1 -> WOr(WAnd(x, z), WAnd(y, WNot(z)))
    [] r = 2 -> WXor(x, WXor(y, z))
    [] r = 3 -> WXor(y, WOr(x, WNot(z)))
Pick(r, i) == CASE r = 0 -> i [] r = 1 -> (5 * i + 1) % 16 [] r = 2 -> (3 * i + 5) % 16 [] r = 3 -> (7 * i) % 16

RECURSIVE Steps(_, _, _)
Steps(i, s, m) ==
  IF i = 64 THEN s
  ELSE LET r == i \div 16
           sum == WAdd(WAdd(s[1], Mix(r, s[2], s[3], s[4])), WAdd(Sines[i + 1], m[Pick(r, i) + 1]))
       IN Steps(i + 1, <<s[4], WAdd(s[2], WRot(sum, Turns[r + 1][(i % 4) + 1])), s[2], s[3]>>, m)

\* the message, a one bit, zeros, and the length in bits in 8 bytes, lowest first (messages are short of 2^28 bytes)
Padded(b) ==
  LET z == (119 - (Len(b) % 64)) % 64
      n == 8 * Len(b)
  IN b \o <<128>> \o [k \in 1..z |-> 0] \o [k \in 1..8 |-> IF k > 4 THEN 0 ELSE (n \div (256 ^ (k - 1))) % 256]

RECURSIVE Blocks(_, _)
Blocks(s, b) ==
  IF b = <<>> THEN s
  ELSE LET m == [k \in 1..16 |-> <<b[4 * k] * 256 + b[4 * k - 1], b[4 * k - 2] * 256 + b[4 * k - 3]>>]
           t == Steps(0, s, m)
       IN Blocks([k \in 1..4 |-> WAdd(s[k], t[k])], SubSeq(b, 65, Len(b)))

Digit(d) == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>[d + 1]
Byte2(b) == Digit(b \div 16) \o Digit(b % 16)
Word8(w) == Byte2(w[2] % 256) \o Byte2(w[2] \div 256) \o Byte2(w[1] % 256) \o Byte2(w[1] \div 256)
Digest(b) ==
  LET s == Blocks(<< <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>> >>, Padded(b))
  IN Word8(s[1]) \o Word8(s[2]) \o Word8(s[3]) \o Word8(s[4])

(* A run: the arguments, [name, there, bytes] each; "-" is standard input, which can be read once.  *)
RECURSIVE Sums(_, _, _)
Sums(args, in, acc) ==
  IF args = <<>> THEN acc
  ELSE LET a == Head(args)
           std == a.name = "-"
           data == IF std THEN in ELSE a.bytes
       IN Sums(Tail(args), IF std THEN <<>> ELSE in,
               IF std \/ a.there THEN [acc EXCEPT !.out = acc.out \o Digest(data) \o "  " \o a.name \o "\n"]
               ELSE [acc EXCEPT !.err = acc.err \o "fble-md5: Unable to open " \o a.name \o "\n", !.status = 1])
Md5Run(args, in) ==
  Sums(IF args = <<>> THEN <<[name |-> "-", there |-> TRUE, bytes |-> <<>>]>> ELSE args, in,
       [out |-> "", err |-> "", status |-> 0])

(* ---- the game of life --------------------------------------------------- *)
Around(c) == {<<c[1] + i, c[2] + j>> : i \in -1..1, j \in -1..1} \ {c}
Step(w) ==
  {c \in w \cup UNION {Around(x) : x \in w} :
     LET n == Cardinality(Around(c) \cap w) IN n = 3 \/ (n = 2 /\ c \in w)}
RECURSIVE Generation(_, _)
Generation(w, n) == IF n = 0 THEN w ELSE Generation(Step(w), n - 1)

(* ---- sudoku ------------------------------------------------------------- *)
Row(i) == (i - 1) \div 9
Col(i) == (i - 1) % 9
Box(i) == <<Row(i) \div 3, Col(i) \div 3>>
Peers == [i \in 1..81 |-> {j \in 1..81 \ {i} : Row(i) = Row(j) \/ Col(i) = Col(j) \/ Box(i) = Box(j)}]
Solution(g) == \A i \in 1..81 : g[i] \in 1..9 /\ \A j \in Peers[i] : g[i] # g[j]
Extends(g, p) == \A i \in 1..81 : p[i] = 0 \/ p[i] = g[i]
Clash(p) == \E i \in 1..81 : p[i] # 0 /\ \E j \in Peers[i] : p[j] = p[i]
Allowed(p, i) == 1..9 \ {p[j] : j \in Peers[i]}
\* is there a solution of a puzzle without clashes?  (The cell with the fewest choices is tried first.)
RECURSIVE Solvable(_)
Solvable(p) ==
  LET blank == {i \in 1..81 : p[i] = 0}
      cs == [i \in blank |-> Allowed(p, i)]
  IN IF blank = {} THEN TRUE
     ELSE LET least == Min({Cardinality(cs[i]) : i \in blank})
              i == CHOOSE i \in blank : Cardinality(cs[i]) = least
          IN \E s \in cs[i] : Solvable([p EXCEPT ![i] = s])
\* the answer: <<>>, or <<g>>
SudokuAnswer(p, a) ==
  IF a = <<>> THEN Clash(p) \/ ~Solvable(p) ELSE Solution(a[1]) /\ Extends(a[1], p)

(* ---- tic-tac-toe -------------------------------------------------------- *)
(* A board: nine of 0 (empty), 1 (X), 2 (O).                                 *)
Lines == {<<1, 2, 3>>, <<4, 5, 6>>, <<7, 8, 9>>, <<1, 4, 7>>, <<2, 5, 8>>, <<3, 6, 9>>, <<1, 5, 9>>, <<3, 5, 7>>}
Won(b, p) == \E l \in Lines : \A k \in 1..3 : b[l[k]] = p
Full(b) == \A k \in 1..9 : b[k] # 0
Over(b) == Won(b, 1) \/ Won(b, 2) \/ Full(b)
Count(b, p) == Cardinality({k \in 1..9 : b[k] = p})
Mover(b) == IF Count(b, 1) = Count(b, 2) THEN 1 ELSE 2
After(b) == IF Over(b) THEN {} ELSE {[b EXCEPT ![k] = Mover(b)] : k \in {k \in 1..9 : b[k] = 0}}
Empty == [k \in 1..9 |-> 0]
Boards == FoldLeft(LAMBDA l, k : Append(l, UNION {After(b) : b \in l[k]}), <<{Empty}>>, [k \in 1..9 |-> k])
\* the outcome with best play: 1 if X wins, -1 if O wins, 0 for a draw
Outcome(b, next) ==
  IF Won(b, 1) THEN 1 ELSE IF Won(b, 2) THEN -1 ELSE IF Full(b) THEN 0
  ELSE LET vs == {next[c] : c \in After(b)} IN IF Mover(b) = 1 THEN Max(vs) ELSE Min(vs)
Value == FoldLeft(LAMBDA v, k : <<[b \in Boards[11 - k] |-> Outcome(b, v[1])]>> \o v, <<[b \in {} |-> 0]>>, [k \in 1..10 |-> k])
ValueOf(b) == Value[10 - Count(b, 0)][b]
Best(b) == {c \in After(b) : ValueOf(c) = ValueOf(b)}

Mark(s) == <<"_", "X", "O">>[s + 1]
ShowRow(h, b, k) == h \o " " \o Mark(b[k]) \o " " \o Mark(b[k + 1]) \o " " \o Mark(b[k + 2]) \o "\n"
ShowGame(b) ==
  "  1 2 3\n" \o ShowRow("A", b, 1) \o ShowRow("B", b, 4) \o ShowRow("C", b, 7) \o "\n" \o
  (IF Won(b, 1) THEN "GAME OVER: Player X wins." ELSE IF Won(b, 2) THEN "GAME OVER: Player O wins."
   ELSE IF Full(b) THEN "GAME OVER: Draw." ELSE "Player " \o Mark(Mover(b)) \o " move:") \o "\n"
Refused == "invalid input: expected {A,B,C}{1,2,3}, P, Q, or R\n"

At(s, k) == IF k <= Len(s) THEN SubSeq(s, k, k) ELSE ""
IndexOf(x, xs) == IF \E k \in DOMAIN xs : xs[k] = x THEN CHOOSE k \in DOMAIN xs : xs[k] = x ELSE 0
\* what is left of s after p, or "no"
From(s, p) == IF Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p THEN <<SubSeq(s, Len(p) + 1, Len(s))>> ELSE <<>>
(* A session: board b is about to be shown; lines (with their ends) are to come; out is printed from here on. *)
RECURSIVE Session(_, _, _)
Session(b, lines, out) ==
  LET shown == From(out, ShowGame(b)) IN
  /\ shown # <<>>
  /\ IF lines = <<>> THEN shown[1] = ""
     ELSE LET l == Head(lines)
              r == IndexOf(At(l, 1), <<"A", "B", "C">>)
              c == IndexOf(At(l, 2), <<"1", "2", "3">>)
              k == 3 * (r - 1) + c
          IN CASE r # 0 /\ c # 0 ->
                    Session(IF Over(b) \/ b[k] # 0 THEN b ELSE [b EXCEPT ![k] = Mover(b)], Tail(lines), shown[1])
               [] At(l, 1) = "P" -> \E n \in (IF Over(b) THEN {b} ELSE Best(b)) : Session(n, Tail(lines), shown[1])
               [] At(l, 1) = "Q" -> shown[1] = ""
               [] At(l, 1) = "R" -> Session(Empty, Tail(lines), shown[1])
               [] OTHER -> LET no == From(shown[1], Refused) IN no # <<>> /\ Session(b, Tail(lines), no[1])

(* ---- reverse complement ------------------------------------------------- *)
(* Sequences in characters' codes; U is read as T.                           *)
\*       A   B   C   D   G   H   K   M   N   R   S   T   U   V   W   Y
Bases == <<65, 66, 67, 68, 71, 72, 75, 77, 78, 82, 83, 84, 85, 86, 87, 89>>
Opposite == <<84, 86, 71, 72, 67, 68, 77, 75, 78, 89, 83, 65, 65, 66, 87, 82>>
Upper(c) == IF c >= 97 THEN c - 32 ELSE c
Complement == [c \in {Bases[k] : k \in 1..16} |-> Opposite[CHOOSE k \in 1..16 : Bases[k] = c]]
RevComp(s) == [k \in 1..Len(s) |-> Complement[Upper(s[Len(s) + 1 - k])]]
RECURSIVE Wrapped(_)
Wrapped(s) == IF Len(s) <= 60 THEN Append(s, 10) ELSE Append(SubSeq(s, 1, 60), 10) \o Wrapped(SubSeq(s, 61, Len(s)))
\* an input: sequences [header, lines], each of at least one code
RevCompRun(seqs) ==
  FlattenSeq([k \in DOMAIN seqs |-> Append(seqs[k].header, 10) \o Wrapped(RevComp(FlattenSeq(seqs[k].lines)))])
=============================================================================
