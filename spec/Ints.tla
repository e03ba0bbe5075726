-------------------------------- MODULE Ints --------------------------------
(* Integers of any size: sign s and magnitude m, digits of base 4096,       *)
(* lowest first, no zero on top; and what the core library's integer,       *)
(* character, string and bit functions give.  Division and root are stated  *)
(* by the equations that define them.                                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC
Base == 4096
Zero == [s |-> 0, m |-> <<>>]
RECURSIVE Trim(_)
Trim(m) == IF m = <<>> \/ m[Len(m)] # 0 THEN m ELSE Trim(SubSeq(m, 1, Len(m) - 1))
At(m, j) == IF j >= 1 /\ j <= Len(m) THEN m[j] ELSE 0
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y
Upto(k) == [j \in 1..k |-> j]
\* Sums of digits, each below 2^31, carried.
Carried(ds) == LET F(a, x) == [m |-> Append(a.m, (a.c + x) % Base), c |-> (a.c + x) \div Base]
                   RECURSIVE Rest(_)
                   Rest(a) == IF a.c = 0 THEN a.m ELSE Rest([m |-> Append(a.m, a.c % Base), c |-> a.c \div Base])
               IN Trim(Rest(FoldLeft(F, [m |-> <<>>, c |-> 0], ds)))
AddM(a, b) == Carried(TLCEval([j \in 1..Max2(Len(a), Len(b)) |-> At(a, j) + At(b, j)]))
SubM(a, b) == \* a >= b
  LET F(x, j) == LET d == At(a, j) - At(b, j) - x.c IN [m |-> Append(x.m, IF d < 0 THEN d + Base ELSE d), c |-> IF d < 0 THEN 1 ELSE 0]
  IN Trim(FoldLeft(F, [m |-> <<>>, c |-> 0], Upto(Len(a))).m)
MulM(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>> ELSE
  Carried(TLCEval([k \in 1..Len(a) + Len(b) - 1 |->
    FoldLeft(LAMBDA x, i : x + a[i] * b[k + 1 - i], 0, [j \in 1..(Min2(k, Len(a)) - Max2(1, k + 1 - Len(b)) + 1) |-> Max2(1, k + 1 - Len(b)) + j - 1])]))
\* -1, 0, 1
RECURSIVE CmpD(_, _, _)
CmpD(a, b, j) == IF j = 0 THEN 0 ELSE IF a[j] # b[j] THEN (IF a[j] < b[j] THEN -1 ELSE 1) ELSE CmpD(a, b, j - 1)
CmpM(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpD(a, b, Len(a))
Num(s, m) == IF m = <<>> THEN Zero ELSE [s |-> s, m |-> m]
RECURSIVE Limbs(_)
Limbs(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Limbs(n \div Base)
N(n) == IF n < 0 THEN Num(-1, Limbs(-n)) ELSE Num(1, Limbs(n))
Neg(a) == [a EXCEPT !.s = -a.s]
Add(a, b) == IF a.s = 0 THEN b ELSE IF b.s = 0 THEN a
             ELSE IF a.s = b.s THEN Num(a.s, AddM(a.m, b.m))
             ELSE IF CmpM(a.m, b.m) = 0 THEN Zero
             ELSE IF CmpM(a.m, b.m) > 0 THEN Num(a.s, SubM(a.m, b.m)) ELSE Num(b.s, SubM(b.m, a.m))
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == Num(a.s * b.s, MulM(a.m, b.m))
Cmp(a, b) == Sub(a, b).s
Legal(a) == a = Num(a.s, a.m) /\ a.s \in {-1, 0, 1} /\ (a.s = 0 => a.m = <<>>) /\ (\A j \in 1..Len(a.m) : a.m[j] \in 0..Base - 1)
            /\ (a.m # <<>> => a.m[Len(a.m)] # 0)
\* a = q b + r with r between 0 and b, on b's side of 0.
IsDiv(a, b, q, r) == /\ Add(Mul(q, b), r) = a
                     /\ IF b.s > 0 THEN r.s >= 0 /\ Cmp(r, b) < 0 ELSE r.s <= 0 /\ Cmp(r, b) > 0
IsRoot(a, q, r) == Add(Mul(q, q), r) = a /\ q.s >= 0 /\ r.s >= 0 /\ Cmp(r, Add(q, q)) <= 0
RECURSIVE Power2(_)
Power2(n) == IF n < 20 THEN N(2 ^ n) ELSE Mul(N(2 ^ 20), Power2(n - 20))
\* The number decimal digits stand for.
Decimal(ds) == FoldLeft(LAMBDA a, x : TLCEval(Add(Mul(N(10), a), N(x))), Zero, ds)
Small(a) == FoldLeft(LAMBDA x, d : x * Base + d, 0, Reverse(a.m)) * a.s      \* below 2^31 only
Mod10(a) == FoldLeft(LAMBDA x, d : (x * Base + d) % 10, 0, Reverse(a.m))

------------------------------------------------------------------------------
\* Characters and strings: codes and their sequences.
Digit(c) == c \in 48..57
Upper(c) == c \in 65..90
Lower(c) == c \in 97..122
Supported(c) == c \in {9, 10} \cup 32..126
Hosted(c) == IF Supported(c) THEN c ELSE 63
Text(a) == a      \* codes
\* "-" digits, or digits; anything read stands for the number written so.
Written(t) == IF t # <<>> /\ t[1] = 45 THEN Neg(Decimal([j \in 1..Len(t) - 1 |-> t[j + 1] - 48])) ELSE Decimal([j \in 1..Len(t) |-> t[j] - 48])
\* The canonical decimal text of a number.
IsText(a, t) == /\ t # <<>>
                /\ LET ds == IF t[1] = 45 THEN Tail(t) ELSE t IN
                   /\ ds # <<>> /\ (\A j \in 1..Len(ds) : Digit(ds[j])) /\ (ds[1] = 48 => ds = <<48>> /\ t = ds)
                /\ Written(t) = a
StartsWith(s, t) == Len(t) <= Len(s) /\ SubSeq(s, 1, Len(t)) = t
Within(s, t) == \E j \in 0..Len(s) : StartsWith(SubSeq(s, j + 1, Len(s)), t)
RECURSIVE Unescape(_)
Unescape(s) == IF s = <<>> THEN <<>> ELSE IF s[1] # 92 THEN <<s[1]>> \o Unescape(Tail(s))
               ELSE <<IF s[2] = 110 THEN 10 ELSE IF s[2] = 116 THEN 9 ELSE 92>> \o Unescape(SubSeq(s, 3, Len(s)))
Flatten(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
Joined(ss, sep) == IF ss = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, s : a \o sep \o s, Head(ss), Tail(ss))
RECURSIVE Order(_, _)
Order(a, b) == IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1) ELSE IF b = <<>> THEN 1
               ELSE IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1) ELSE Order(Tail(a), Tail(b))

------------------------------------------------------------------------------
\* Bits: sequences of 0 and 1, highest first.
Xor(a, b) == (a + b) % 2
HexBits(h) == Flatten([j \in 1..Len(h) |-> <<h[j] \div 8, (h[j] \div 4) % 2, (h[j] \div 2) % 2, h[j] % 2>>])
\* A bit into the check of polynomial p (with its high bit): the remainder of the register and it.
CrcBit(p, reg, bit) == LET top == Xor(reg[1], bit)  n == Len(reg) IN
                       [j \in 1..n |-> Xor(IF j < n THEN reg[j + 1] ELSE 0, top * p[j + 1])]
Crc(p, reg, bits) == FoldLeft(LAMBDA r, b : TLCEval(CrcBit(p, r, b)), reg, bits)
\* The register is shifted towards its output; what comes in is 1 plus the chosen bits' sum.
Lfsr(c, seed) == LET n == Len(c)  k == Len(seed) IN [j \in 1..n |-> IF k - n + j >= 1 THEN seed[k - n + j] ELSE 0]
LfsrIn(c, s) == FoldLeft(LAMBDA a, j : Xor(a, c[j] * s[j]), 1, Upto(Len(c)))
LfsrShift(c, s) == Append(Tail(s), LfsrIn(c, s))

------------------------------------------------------------------------------
Bool(b) == IF b THEN 0 ELSE 1
Ord(x) == x + 1                   \* -1, 0, 1 as Ordering@ has them
\* What the library may give: o the function, a numbers, s texts (or bits), k codes, r the result.
Right(x) ==
  LET a == x.a[1] b == x.a[2] s == x.s[1] t == x.s[2] k == x.k[1] l == x.k[2] r == x.r IN
  CASE x.o = "add" -> r = Add(a, b)
    [] x.o = "sub" -> r = Sub(a, b)
    [] x.o = "mul" -> r = Mul(a, b)
    [] x.o = "neg" -> r = Neg(a)
    [] x.o = "abs" -> r = [a EXCEPT !.s = a.s * a.s]
    [] x.o = "incr" -> r = Add(a, N(1))
    [] x.o = "decr" -> r = Sub(a, N(1))
    [] x.o = "exp2" -> r = Power2(Small(a))
    [] x.o = "eq" -> r = Bool(Cmp(a, b) = 0)
    [] x.o = "lt" -> r = Bool(Cmp(a, b) < 0)
    [] x.o = "le" -> r = Bool(Cmp(a, b) <= 0)
    [] x.o = "gt" -> r = Bool(Cmp(a, b) > 0)
    [] x.o = "ge" -> r = Bool(Cmp(a, b) >= 0)
    [] x.o = "iszero" -> r = Bool(a = Zero)
    [] x.o = "max" -> r = (IF Cmp(a, b) < 0 THEN b ELSE a)
    [] x.o = "min" -> r = (IF Cmp(a, b) < 0 THEN a ELSE b)
    [] x.o = "ord" -> r = Ord(Cmp(a, b))
    [] x.o = "div" -> Legal(r[1]) /\ Legal(r[2]) /\ IsDiv(a, b, r[1], r[2])
    [] x.o = "sqrt" -> Legal(r[1]) /\ Legal(r[2]) /\ IsRoot(a, r[1], r[2])
    [] x.o = "read" -> r = Written(s)
    [] x.o = "show" -> IsText(a, r)
    [] x.o = "lit" -> r = Decimal(s)
    [] x.o = "lsd" -> r = Mod10(a)
    [] x.o = "range" -> LET n == Max2(0, Small(Sub(b, a))) IN r = [j \in 1..n |-> Sub(b, N(j))]
    [] x.o = "countup" -> r = [j \in 1..Max2(0, Small(a)) |-> Sub(a, N(j))]
    [] x.o = "countdown" -> r = [j \in 1..Max2(0, Small(a)) |-> N(j - 1)]
    [] x.o = "host" -> r = a             \* to or from the host's integers
    [] x.o = "string" -> r = [j \in 1..Len(s) |-> Hosted(s[j])]      \* to the library and back
    [] x.o = "char" -> r = Hosted(k)
    [] x.o = "seq" -> r = Bool(s = t)
    [] x.o = "starts" -> r = Bool(StartsWith(s, t))
    [] x.o = "contains" -> r = Bool(Within(s, t))
    [] x.o = "sord" -> r = Ord(Order(s, t))
    [] x.o = "sshow" -> r = <<34>> \o s \o <<34>>
    [] x.o = "escaped" -> r = Unescape(s)
    [] x.o = "strs" -> r = Flatten(x.s)
    [] x.o = "join" -> r = Joined(Tail(x.s), s)
    [] x.o = "lines" -> r = Flatten([j \in 1..Len(x.s) |-> x.s[j] \o <<10>>])
    [] x.o = "cord" -> r = N(k)
    [] x.o = "chr" -> r = Hosted(k)
    [] x.o = "chrord" -> r = a
    [] x.o = "ceq" -> r = Bool(k = l)
    [] x.o = "ueq" -> r = Bool(a = b)
    [] x.o = "ccmp" -> r = Ord(IF k < l THEN -1 ELSE IF k > l THEN 1 ELSE 0)
    [] x.o = "cshow" -> r = <<k>>
    [] x.o = "upper" -> r = Bool(Upper(k))
    [] x.o = "lower" -> r = Bool(Lower(k))
    [] x.o = "alpha" -> r = Bool(Upper(k) \/ Lower(k))
    [] x.o = "digit" -> r = Bool(Digit(k))
    [] x.o = "alnum" -> r = Bool(Upper(k) \/ Lower(k) \/ Digit(k))
    [] x.o = "space" -> r = Bool(k \in {9, 10, 32})
    [] x.o = "newline" -> r = Bool(k = 10)
    [] x.o = "hex" -> r = HexBits(s)
    [] x.o = "showbits" -> r = [j \in 1..Len(s) |-> 48 + s[j]]
    [] x.o = "showhex" -> r = <<IF k < 10 THEN 48 + k ELSE 55 + k>>
    [] x.o = "eqbit" -> r = Bool(k = l)
    [] x.o = "crc" -> r = Crc(x.s[1], x.s[2], x.s[3])
    [] x.o = "lfsr" -> r = <<s, Lfsr(s, t)>>
    [] x.o = "shift" -> r = <<<<s, LfsrShift(s, t)>>, t[1]>>
    [] x.o = "shiftint" -> Legal(r[2]) /\ r[2].s >= 0 /\ Cmp(r[2], a) < 0 /\ r[1][1] = s /\ Len(r[1][2]) = Len(s)
    [] x.o = "and" -> r = Bool(k = 0 /\ l = 0)
    [] x.o = "or" -> r = Bool(k = 0 \/ l = 0)
    [] x.o = "not" -> r = Bool(k # 0)
    [] x.o = "beq" -> r = Bool(k = l)
    [] x.o = "bord" -> r = Ord(l - k)     \* false before true
=============================================================================
