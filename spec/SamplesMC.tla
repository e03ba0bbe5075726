----------------------------- MODULE SamplesMC -----------------------------
(* Facts about the model of the sample programs.  A state is a board of      *)
(* tic-tac-toe with the computer playing one side and anyone the other, and  *)
(* a world of the game of life on a small piece of the plane.                *)
EXTENDS Samples
CONSTANTS Side, Gens
VARIABLES board, computer, world, gen
vars == <<board, computer, world, gen>>

\* RFC 1321
ASSUME Digest(<<>>) = "d41d8cd98f00b204e9800998ecf8427e"
ASSUME Digest(<<97, 98, 99>>) = "900150983cd24fb0d6963f7d28e17f72"
ASSUME Digest([k \in 1..80 |-> 48 + (k % 10)]) = "57edf4a22be3c955ac49da2e2107b67a"
ASSUME Digest([k \in 1..62 |-> IF k <= 26 THEN 64 + k ELSE IF k <= 52 THEN 70 + k ELSE k - 5]) = "d174ab98d277d9f5a5611c2c9f419d9f"
ASSUME \A n \in 0..200 : Len(Padded([k \in 1..n |-> 0])) % 64 = 0 /\ Len(Padded([k \in 1..n |-> 0])) <= n + 72
\* the complement of the complement is the base again
ASSUME \A c \in DOMAIN Complement : Complement[c] \in DOMAIN Complement /\ (c # 85 => Complement[Complement[c]] = c)
ASSUME \A n \in {1, 59, 60, 61, 119, 120, 121} : Len(Wrapped([k \in 1..n |-> 65])) = n + (n + 59) \div 60

Init == /\ board = Empty /\ computer \in {1, 2}
        /\ world \in SUBSET ((1..Side) \X (1..Side)) /\ gen = 0
Move == /\ world = {} /\ ~Over(board)
        /\ board' \in IF Mover(board) = computer THEN Best(board) ELSE After(board)
        /\ UNCHANGED <<computer, world, gen>>
Live == /\ board = Empty /\ computer = 1 /\ gen < Gens
        /\ world' = Step(world) /\ gen' = gen + 1 /\ UNCHANGED <<board, computer>>
Next == Move \/ Live
Spec == Init /\ [][Next]_vars

NeverLoses == ~Won(board, 3 - computer)
OneWinner == ~(Won(board, 1) /\ Won(board, 2))
BestExists == Over(board) \/ Best(board) # {}
\* a generation does not depend on where, or which way round, the world is drawn
Moved(w) == {<<c[1] + 7, c[2] - 3>> : c \in w}
Turned(w) == {<<c[2], -c[1]>> : c \in w}
Symmetric == Step(Moved(world)) = Moved(Step(world)) /\ Step(Turned(world)) = Turned(Step(world))
Grows == \A c \in world : c[1] \in (1 - gen)..(Side + gen) /\ c[2] \in (1 - gen)..(Side + gen)
=============================================================================
