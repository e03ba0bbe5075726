----------------------------- MODULE FbleAppMC -----------------------------
(* Every way a few events, tick requests and waits can interleave; and      *)
(* small drawings.                                                          *)
EXTENDS FbleApp, FiniteSets
CONSTANTS T, N, E, R, Depth
Ns == {-2, 0, 2}
Nt == {-2, 0, 1, 2}
Ev == {[k |-> "key_down", a |-> <<4>>], [k |-> "mouse_up", a |-> <<2, 1, 2>>], [k |-> "window", a |-> <<5, 9, 9>>]}
VARIABLES m, came, seen, asked, got
\* came: what has happened; seen: what the program has been told; asked: tick requests <<n, when>>; got: when ticks were delivered
vars == <<m, came, seen, asked, got>>
Init == m = Machine(1) /\ came = <<>> /\ seen = <<>> /\ asked = <<>> /\ got = <<>>
Due == \E k \in DOMAIN m.due : m.due[k] <= m.now
Clock == m.now < T /\ ~Due /\ m' = Pass(m, m.now + 1) /\ UNCHANGED <<came, seen, asked, got>>
Arrive == Len(came) < E /\ \E e \in Ev : m' = Happen(m, e) /\ came' = Append(came, e) /\ UNCHANGED <<seen, asked, got>>
Timer == Due /\ m' = Fire(m) /\ UNCHANGED <<came, seen, asked, got>>
Ask == Len(asked) < R /\ \E n \in N : m' = Request(m, n) /\ asked' = Append(asked, <<n, m.now>>) /\ UNCHANGED <<came, seen, got>>
Get == /\ m.q # <<>>
       /\ m' = [m EXCEPT !.q = Tail(@)]
       /\ seen' = IF Say(m.q[1]) = "" THEN seen ELSE Append(seen, Say(m.q[1]))
       /\ got' = IF m.q[1] = Tick THEN Append(got, m.now) ELSE got
       /\ UNCHANGED <<came, asked>>
Next == Clock \/ Arrive \/ Timer \/ Ask \/ Get
Spec == Init /\ [][Next]_vars /\ WF_vars(Clock) /\ WF_vars(Timer) /\ WF_vars(Get)

Told(es) == SelectSeq([k \in DOMAIN es |-> Say(es[k])], LAMBDA s : s # "" /\ s # "tick")
\* nothing is lost, made up or reordered
InOrder == Told(came) = SelectSeq(seen, LAMBDA s : s # "tick") \o Told(m.q)
\* as many ticks as requests, sooner or later
Ticks == Len(asked) = Len(got) + Len(m.due) + Cardinality({k \in DOMAIN m.q : m.q[k] = Tick})
RECURSIVE DueOf(_)
DueOf(k) == IF k = 0 THEN 1 ELSE Most(DueOf(k - 1) + asked[k][1], asked[k][2])
\* none before it is due: requests in the order they are due
NotEarly == \A k \in DOMAIN got : got[k] >= SortSeq([j \in DOMAIN asked |-> DueOf(j)], <=)[k]
Delivered == \A k \in 1..R : (Len(asked) >= k /\ DueOf(k) <= T) ~> (Len(got) >= 1)
Every == []<>(m.now = T \/ Len(got) = Len(asked) \/ \E k \in DOMAIN m.due : m.due[k] > m.now)

\* drawings
Pts == {<<0, 0>>, <<2, -1>>}
Base == {[t |-> "blank"], [t |-> "tri", p |-> <<<<0, 0>>, <<1, 2>>, <<3, 1>>>>, c |-> <<1, 2, 3>>],
         [t |-> "rect", x |-> 1, y |-> 2, w |-> -1, h |-> 2, c |-> <<4, 5, 6>>]}
RECURSIVE Draws(_)
Draws(n) == IF n = 0 THEN Base
            ELSE LET D == Draws(n - 1)
                 IN D \cup {[t |-> "trans", a |-> a, b |-> b, d |-> d] : a \in {<<1, 1>>, <<-1, 2>>}, b \in Pts, d \in D}
                      \cup {[t |-> "over", below |-> x, above |-> y] : x \in Base, y \in D}
\* one transformation after another is one
ASSUME \A a1 \in {<<1, 1>>, <<-1, 2>>, <<0, 3>>}, b1 \in Pts, a2 \in {<<1, 1>>, <<-1, 2>>}, b2 \in Pts, d \in Draws(Depth) :
  Shapes([t |-> "trans", a |-> a1, b |-> b1, d |-> [t |-> "trans", a |-> a2, b |-> b2, d |-> d]])
    = Shapes([t |-> "trans", a |-> <<a1[1] * a2[1], a1[2] * a2[2]>>, b |-> Move(a1, b1, b2), d |-> d])
\* a transformation of one over the other is one over the other
ASSUME \A a \in {<<1, 1>>, <<-1, 2>>}, b \in Pts, x \in Base, y \in Draws(Depth) :
  Shapes([t |-> "trans", a |-> a, b |-> b, d |-> [t |-> "over", below |-> x, above |-> y]])
    = Shapes([t |-> "over", below |-> [t |-> "trans", a |-> a, b |-> b, d |-> x], above |-> [t |-> "trans", a |-> a, b |-> b, d |-> y]])
=============================================================================
