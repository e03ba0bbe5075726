---------------------------- MODULE HeapLoopGen ----------------------------
(* Loops over the heap whose reachable data is bounded by construction: a   *)
(* prefix history, then a body run many times, either between a push and a  *)
(* pop without result, or as the body of a function that tail calls itself  *)
(* through a recursive reference.  What one iteration hands to the next     *)
(* never contains what it was handed itself.                                *)
EXTENDS Heap, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.GENES)     \* [id, g (prefix), b (body), m (mode), a]
VARIABLES i, st
Init == i \in 1..Len(Hist) /\ st = "start"
Next == st = "start" /\ st' = "done" /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, st>>

RECURSIVE UnwindTo(_, _, _)
UnwindTo(s, d, a) ==
  IF Depth(s) <= d THEN s
  ELSE LET q == Recent(Usable(s), 20)
           o == Results(s) IN
       UnwindTo(IF Top(s).k = "call"
                THEN (IF o = <<>> \/ (Top(s).pend # <<>> /\ a % 2 = 0) THEN DoAbort(s) ELSE DoRet(s, Pick(o, a)))
                ELSE (IF q = <<>> THEN DoPop(s, 0) ELSE DoPop(s, Pick(q, a))), d, a + 5)

(* The body must not end the frame it runs in: a gene that would is skipped. *)
RECURSIVE Guarded(_, _, _, _)
Guarded(s, gs, k, d) ==
  IF k > Len(gs) THEN s
  ELSE LET op == gs[k][1]
           ends == Depth(s) = d /\ op \in {"pop", "ret", "tail", "retail", "abort"}
       IN Guarded(IF ends THEN DoTick(s, gs[k][2] % 10) ELSE TLCEval(Step(s, gs[k])), gs, k + 1, d)

FrameLoop(s, h) ==
  LET t == DoPush(Say(s, "loop"))
      u == UnwindTo(Guarded(t, h.b, 1, Depth(t)), Depth(t), h.a)
  IN Say(DoPop(u, 0), "endloop")

TailLoop(s, h) ==
  LET ar == 1 + (h.a % 5)
      s1 == DoRef(s)                        \* the recursive reference
      rr == Len(s1.reg)
      q == Recent(Usable(s1), 8)
      s2 == DoFunc(s1, ar, <<rr>> \o Picks(q, h.a, 3, h.a % 3))
      s3 == DoAssign(s2, rr, Len(s2.reg))
      first == Picks(Recent(Usable(s3), 8), h.a + 1, 5, ar)
      s4 == Say(DoCall(s3, rr, first, TRUE), "mark")
      d == Depth(s4)
      args == TLCEval({s4.reg[Top(s4).regs[x]] : x \in DOMAIN Top(s4).regs})
      hidden == [s4 EXCEPT !.reg = TLCEval([r \in DOMAIN s4.reg |->
                     IF \E x \in DOMAIN Top(s4).regs : Top(s4).regs[x] = r THEN 0 ELSE s4.reg[r]])]
      fn == s4.nodes[Top(s4).fn]
      selfr == Len(hidden.reg) + 1
      s5 == Say(NewReg(hidden, fn.fs[1]), "self " \o Str(selfr))
      s6 == UnwindTo(Guarded(s5, h.b, 1, d), d, h.a)
      good == SelectSeq(Recent(Usable(s6), 20), LAMBDA r :
                 \/ \E x \in 1..(d - 1) : \E y \in DOMAIN s6.frames[x].regs : s6.frames[x].regs[y] = r
                 \/ r > selfr /\ args \cap ReachFrom(s6.nodes, {s6.reg[r]}, {}) = {})
      pass == IF good = <<>> THEN TLCEval([x \in 1..ar |-> selfr]) ELSE Picks(good, h.a, 1, ar)
      RECURSIVE Carry(_, _)
      Carry(t, x) == IF x > Len(pass) THEN t
                     ELSE Carry(Say(t, "carry " \o Str(x) \o " " \o Str(Top(s4).regs[x]) \o
                                    Walk(t.nodes, t.reg[pass[x]], [o |-> "", fuel |-> 40]).o), x + 1)
      s7 == Carry(Say(s6, "again " \o Str(selfr) \o Join(pass, 1)), 1)
  IN UnwindTo(s7, 1, h.a)

Loop(h) ==
  LET s == UnwindTo(Run(Empty, h.g, 1), 1, h.a)
      t == IF h.m = 0 THEN FrameLoop(s, h) ELSE TailLoop(s, h)
  IN Say(t, "end" \o IdList(t, Natives(t)))

Emit == st = "done" => PrintT(<<"SCRIPT", ToJson([id |-> Hist[i].id, s |-> Loop(Hist[i]).out])>>)
=============================================================================
