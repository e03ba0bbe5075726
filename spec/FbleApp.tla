------------------------------ MODULE FbleApp ------------------------------
(* Interactive programs (/App/App%): what a program run by fble-app sees of *)
(* the keyboard, the mouse, the window and the clock, and what its drawings *)
(* put on the screen.                                                       *)
EXTENDS Integers, Sequences, SequencesExt, TLC
Most(a, b) == IF a > b THEN a ELSE b
Least(a, b) == IF a < b THEN a ELSE b
Str(n) == ToString(n)

----------------------------------------------------------------------------
(* Drawings: the shapes of a drawing, the lowest first, every point where   *)
(* its transformations put it.                                              *)
Move(a, b, p) == <<a[1] * p[1] + b[1], a[2] * p[2] + b[2]>>
RECURSIVE Shapes(_)
Shapes(d) ==
  CASE d.t = "blank" -> <<>>
    [] d.t = "tri" -> <<[t |-> "tri", p |-> d.p, c |-> d.c]>>
    [] d.t = "rect" -> <<[t |-> "rect", p |-> <<<<d.x, d.y>>, <<d.x + d.w, d.y + d.h>>>>, c |-> d.c]>>
    [] d.t = "over" -> Shapes(d.below) \o Shapes(d.above)
    [] d.t = "trans" -> LET s == Shapes(d.d)
                        IN [k \in DOMAIN s |-> [s[k] EXCEPT !.p = [j \in DOMAIN s[k].p |-> Move(d.a, d.b, s[k].p[j])]]]
Area2(p) == (p[2][1] - p[1][1]) * (p[3][2] - p[1][2]) - (p[3][1] - p[1][1]) * (p[2][2] - p[1][2])
\* whether it covers anything
Visible(s) == IF s.t = "tri" THEN Area2(s.p) # 0 ELSE s.p[1][1] # s.p[2][1] /\ s.p[1][2] # s.p[2][2]
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
\* a shape whatever order its corners are given in
Corners(s) == IF s.t = "tri" THEN SortSeq(s.p, Before)
              ELSE <<<<Least(s.p[1][1], s.p[2][1]), Least(s.p[1][2], s.p[2][2])>>, <<Most(s.p[1][1], s.p[2][1]), Most(s.p[1][2], s.p[2][2])>>>>
Visibles(d) == LET s == SelectSeq(Shapes(d), Visible) IN [k \in DOMAIN s |-> [s[k] EXCEPT !.p = Corners(s[k])]]
Line(s) == LET P[k \in 0..Len(s.p)] == IF k = 0 THEN s.t ELSE P[k - 1] \o " " \o Str(s.p[k][1]) \o " " \o Str(s.p[k][2])
           IN P[Len(s.p)] \o " " \o Str(s.c[1]) \o " " \o Str(s.c[2]) \o " " \o Str(s.c[3])

----------------------------------------------------------------------------
(* Events: what is said of something that happens at the display, or "" if  *)
(* programs are not told.                                                   *)
Keys == << <<4, "a">>, <<7, "d">>, <<11, "h">>, <<13, "j">>, <<14, "k">>, <<15, "l">>, <<20, "q">>, <<22, "s">>, <<26, "w">>,
           <<80, "left">>, <<79, "right">>, <<82, "up">>, <<81, "down">>, <<44, "space">>, <<225, "lshift">>, <<229, "rshift">> >>
Named(table, code) == LET m == SelectSeq(table, LAMBDA x : x[1] = code) IN IF m = <<>> THEN "" ELSE m[1][2]
Buttons == << <<1, "left">>, <<3, "right">> >>
Resized == 5
Say(e) ==
  CASE e.k = "tick" -> "tick"
    [] e.k \in {"key_down", "key_up"} -> LET n == Named(Keys, e.a[1]) IN IF n = "" THEN "" ELSE e.k \o " " \o n
    [] e.k \in {"mouse_down", "mouse_up"} ->
         LET n == Named(Buttons, e.a[1]) IN IF n = "" THEN "" ELSE e.k \o " " \o n \o " " \o Str(e.a[2]) \o " " \o Str(e.a[3])
    [] e.k = "window" -> IF e.a[1] = Resized THEN "resize " \o Str(e.a[2]) \o " " \o Str(e.a[3]) ELSE ""
    [] e.k = "motion" -> "mouse_motion " \o Str(e.a[1]) \o " " \o Str(e.a[2]) \o " " \o Str(e.a[3]) \o " " \o Str(e.a[4])
    [] OTHER -> ""
Tick == [k |-> "tick"]

----------------------------------------------------------------------------
(* The display and the clock.  A tick is due the given time after the last  *)
(* one was, or at once if that has passed.                                  *)
Machine(start) == [now |-> start, time |-> start, due |-> <<>>, q |-> <<>>]
Happen(m, e) == [m EXCEPT !.q = Append(@, e)]
Request(m, n) == LET t == Most(m.time + n, m.now) IN [m EXCEPT !.time = t, !.due = Append(@, t)]
\* the tick due first, of those due at the same time the one requested first
First(m) == CHOOSE k \in DOMAIN m.due : \A j \in DOMAIN m.due : m.due[k] < m.due[j] \/ (m.due[k] = m.due[j] /\ k <= j)
Fire(m) == LET k == First(m) IN [m EXCEPT !.due = RemoveAt(@, k), !.q = Append(@, Tick)]
Pass(m, t) == [m EXCEPT !.now = t]
=============================================================================
