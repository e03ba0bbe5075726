---------------------------- MODULE FbleAppTrace ----------------------------
(* Runs of fble-app at a display that exists only on paper, checked against *)
(* FbleApp.tla.  The program carries out a list of operations, or is the    *)
(* demo.                                                                    *)
EXTENDS FbleApp, Json, IOUtils
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
Init == i \in 1..Len(Rec) /\ st = "start"
Next == st = "start" /\ st' = "done" /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, st>>

\* a run: m the machine, arr what will still happen, swaps what showing will still cost, out the lines so far,
\* fps the frame rates seen, last when it was last shown, res the result
Run0(r) == [m |-> Machine(r.start), arr |-> r.events, swaps |-> r.swaps, out |-> <<>>, fps |-> <<>>, last |-> 0, res |-> ""]
Soonest(p) == IF p.m.due = <<>> THEN 0 ELSE p.m.due[First(p.m)]
\* everything up to time t happens, what happens at the display before ticks due at the same time
RECURSIVE Until(_, _)
Until(p, t) ==
  LET a == IF p.arr = <<>> THEN 0 ELSE p.arr[1].at
      d == Soonest(p)
  IN IF a # 0 /\ a <= t /\ (d = 0 \/ a <= d)
     THEN Until([p EXCEPT !.m = Happen([@ EXCEPT !.now = Most(@, a)], p.arr[1]), !.arr = Tail(@)], t)
     ELSE IF d # 0 /\ d <= t THEN Until([p EXCEPT !.m = Fire([@ EXCEPT !.now = Most(@, d)])], t)
     ELSE [p EXCEPT !.m.now = Most(@, t)]
Out(p, line) == [p EXCEPT !.out = Append(@, line)]
\* take the next event: <<p, what is said of it>>
RECURSIVE Take(_)
Take(p0) ==
  LET p == TLCEval(Until(p0, p0.m.now))
      a == IF p.arr = <<>> THEN 0 ELSE p.arr[1].at
      d == Soonest(p)
  IN IF p.m.q # <<>>
     THEN LET e == p.m.q[1]
              p1 == [p EXCEPT !.m.q = Tail(@)]
          IN IF Say(e) = "" THEN Take(p1) ELSE <<p1, Say(e), e>>
     ELSE IF a = 0 /\ d = 0 THEN <<[Out(p, "stuck") EXCEPT !.res = "stuck"], "", Tick>>
     ELSE Take(Until(p, IF a = 0 THEN d ELSE IF d = 0 THEN a ELSE Least(a, d)))
Show(p0, d) ==
  LET v == TLCEval(Visibles(d))
      p1 == [p0 EXCEPT !.out = @ \o [k \in DOMAIN v |-> Line(v[k])] \o <<"show">>]
      cost == IF p1.swaps = <<>> THEN 0 ELSE p1.swaps[1]
      p == TLCEval(Until(p1, p1.m.now + cost))
      p2 == [p EXCEPT !.swaps = IF @ = <<>> THEN <<>> ELSE Tail(@)]
  IN IF p2.last = 0 THEN [p2 EXCEPT !.last = p2.m.now]
     ELSE IF p2.m.now > p2.last THEN [p2 EXCEPT !.fps = Append(@, Least(60, 1000 \div (p2.m.now - p2.last))), !.last = p2.m.now]
     ELSE p2
RECURSIVE Wait(_)
Wait(p) == LET t == TLCEval(Take(p)) IN IF t[1].res # "" THEN t[1]
           ELSE LET q == Out(t[1], "event " \o t[2]) IN IF t[2] = "tick" THEN q ELSE Wait(q)
Step(p, o) ==
  CASE o.o = "event" -> LET t == TLCEval(Take(p)) IN IF t[1].res # "" THEN t[1] ELSE Out(t[1], "event " \o t[2])
    [] o.o = "wait" -> Wait(p)
    [] o.o = "tick" -> [p EXCEPT !.m = Request(@, o.n)]
    [] o.o = "draw" -> Show(p, o.d)
    [] o.o = "put" -> Out(p, "put " \o o.s)
    [] o.o = "fail" -> [p EXCEPT !.res = "abort"]
    [] o.o = "done" -> [p EXCEPT !.res = IF o.b THEN "true" ELSE "false"]
RECURSIVE Steps(_, _, _)
Steps(p, ops, k) == IF p.res # "" THEN p ELSE Steps(TLCEval(Step(p, ops[k])), ops, k + 1)
Script(r) ==
  LET p0 == [Run0(r) EXCEPT !.out = <<"size " \o Str(r.width) \o " " \o Str(r.height)>> \o [k \in DOMAIN r.args |-> "arg " \o r.args[k]]]
  IN Steps(p0, r.ops, 1)

\* /App/Demo%: a box with a cursor that follows the mouse and changes colour with its buttons, until q
Rect(x, y, w, h, c) == [t |-> "rect", x |-> x, y |-> y, w |-> w, h |-> h, c |-> c]
Over(a, b) == [t |-> "over", below |-> a, above |-> b]
Picture(r, x, y, c) == Over(Rect(0, 0, r.width, r.height, <<0, 0, 0>>),
                        Over(Rect(10, 10, r.width - 20, r.height - 20, <<0, 0, 255>>), Rect(x - 10, y - 10, 20, 20, c)))
RECURSIVE Heed(_)
Heed(p) == LET t == TLCEval(Take(p))
           IN IF t[1].res # "" \/ t[3].k \in {"tick", "mouse_down", "mouse_up", "motion"} \/ t[2] = "key_down q" THEN t ELSE Heed(t[1])
RECURSIVE Demo(_, _, _, _, _)
Demo(r, p, x, y, c) ==
  LET p1 == TLCEval(Show(p, Picture(r, x, y, c)))
      t == TLCEval(Heed([p1 EXCEPT !.m = Request(@, 200)]))
      e == t[3]
  IN IF t[1].res # "" THEN t[1]
     ELSE CASE e.k = "tick" -> Demo(r, t[1], x, y, c)
            [] e.k = "mouse_down" -> Demo(r, t[1], x, y, <<255, 0, 0>>)
            [] e.k = "mouse_up" -> Demo(r, t[1], x, y, <<0, 255, 0>>)
            [] e.k = "motion" -> Demo(r, t[1], e.a[1], e.a[2], c)
            [] OTHER -> [t[1] EXCEPT !.res = "true"]

Count(s, x) == Len(SelectSeq(s, LAMBDA y : y = x))
Status(res) == CASE res = "true" -> 0 [] res = "false" -> 1 [] res = "abort" -> 3 [] res = "stuck" -> 77
Verdict(r) ==
  IF r.fail THEN IF r.status # 3 THEN "status" ELSE IF r.out # <<>> THEN "it ran" ELSE ""
  ELSE LET p == TLCEval(IF r.demo THEN Demo(r, Run0(r), 0, 0, <<0, 255, 0>>) ELSE Script(r))
           n == CHOOSE k \in 0..Len(r.out) : (k = Len(r.out) \/ k = Len(p.out) \/ r.out[k + 1] # p.out[k + 1])
                                              /\ \A j \in 1..k : j <= Len(p.out) /\ r.out[j] = p.out[j]
       IN IF r.out # p.out
          THEN "line " \o Str(n + 1) \o ": " \o (IF n < Len(r.out) THEN r.out[n + 1] ELSE "nothing")
                 \o ", specified " \o (IF n < Len(p.out) THEN p.out[n + 1] ELSE "nothing")
          ELSE IF r.status # Status(p.res) THEN "status, specified " \o p.res
          ELSE IF r.fps /\ p.res # "stuck" /\ \E x \in 0..60 : Count(p.fps, x) # (LET m == SelectSeq(r.rates, LAMBDA y : y[1] = x) IN IF m = <<>> THEN 0 ELSE m[1][2])
          THEN "frame rates"
          ELSE ""
Conforms == st = "done" =>
  LET v == TLCEval(Verdict(Rec[i])) IN IF v = "" THEN TRUE ELSE PrintT(<<"BAD", ToJson([id |-> Rec[i].id, what |-> v])>>)
=============================================================================
