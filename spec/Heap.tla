-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* The value heap seen through its interface (properties C05, C06, C08).    *)
(*                                                                         *)
(* A state holds                                                           *)
(*   nodes   the value graph: [k, tag, ar, fs]                              *)
(*             k = "struct" | "union" | "func" | "part" | "native" | "ref"  *)
(*               | "deep" (a list of tag units) | "wide" (a struct of tag   *)
(*               copies of fs[1])                                           *)
(*             tag: union tag, native id, or function identity              *)
(*             ar: number of arguments a function still expects             *)
(*             fs: fields / argument / statics / <<target>> of a ref        *)
(*             ("part": fs[1] is the function, the rest its arguments)      *)
(*   own     which frame level may still define a ref node                  *)
(*   reg     register -> node, 0 when the register holds nothing            *)
(*   frames  stack of [k, regs, stale, pend, dst, fn]:                      *)
(*             "root"/"expl" frames are pushed by the client, "call" frames *)
(*             belong to running functions; regs are the registers of the   *)
(*             frame; stale are nodes of calls that have returned but whose *)
(*             storage may be shared with this frame; pend are arguments    *)
(*             still to be applied to the result; dst receives the result;  *)
(*             fn is the running function                                   *)
(*   out     the script: what the implementation is told to do, with what   *)
(*             it must answer                                               *)
(*                                                                         *)
(* Step(s, g) interprets a gene g = <<operation, a, b, c, d>> as one legal  *)
(* operation in s, so that every sequence of genes is a legal history.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Tags == <<0, 1, 2, 3, 5, 8, 30, 58, 59, 60, 61, 62, 63, 64, 65, 127, 128, 200, 255, 256, 257, 1000, 32768, 65535, 65536, 70000>>

Empty == [nodes |-> <<>>, own |-> <<>>, reg |-> <<>>, out |-> <<>>,
          frames |-> <<[k |-> "root", regs |-> <<>>, stale |-> {}, pend |-> <<>>, dst |-> 0, fn |-> 0]>>]

Str(x) == ToString(x)
RECURSIVE Join(_, _)
Join(q, i) == IF i > Len(q) THEN "" ELSE " " \o Str(q[i]) \o Join(q, i + 1)
Say(s, line) == [s EXCEPT !.out = Append(@, line)]

Depth(s) == Len(s.frames)
Top(s) == s.frames[Len(s.frames)]
InCall(s) == \E i \in 1..Len(s.frames) : s.frames[i].k = "call"

RECURSIVE Deref(_, _)      \* 0: not (yet) defined
Deref(nodes, n) ==
  IF nodes[n].k # "ref" THEN n
  ELSE IF nodes[n].fs = <<>> THEN 0 ELSE Deref(nodes, nodes[n].fs[1])

RECURSIVE LastRef(_, _)    \* the undefined ref or the value at the end of a chain
LastRef(nodes, n) == IF nodes[n].k = "ref" /\ nodes[n].fs # <<>> THEN LastRef(nodes, nodes[n].fs[1]) ELSE n

RECURSIVE ReachFrom(_, _, _)
ReachFrom(nodes, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET seen2 == seen \cup todo IN
       ReachFrom(nodes, UNION {{nodes[n].fs[i] : i \in DOMAIN nodes[n].fs} : n \in todo} \ seen2, seen2)

RegNodes(s, f) == {s.reg[f.regs[i]] : i \in DOMAIN f.regs} \ {0}
FrameRoots(s, f) == RegNodes(s, f) \cup {f.pend[i] : i \in DOMAIN f.pend} \cup ({f.fn} \ {0})
MustLive(s) == ReachFrom(s.nodes, UNION {FrameRoots(s, s.frames[i]) : i \in DOMAIN s.frames}, {})
MayLive(s) == ReachFrom(s.nodes, UNION {FrameRoots(s, s.frames[i]) \cup s.frames[i].stale : i \in DOMAIN s.frames}, {})
Natives(s) == {n \in DOMAIN s.nodes : s.nodes[n].k = "native"}
IdList(s, ns) ==
  LET RECURSIVE Go(_)
      Go(n) == IF n > Len(s.nodes) THEN "" ELSE (IF n \in ns THEN " " \o Str(s.nodes[n].tag) ELSE "") \o Go(n + 1)
  IN Go(1)
SayLive(s) == Say(s, "live" \o IdList(s, MustLive(s) \cap Natives(s)))

(* What a walk over the value must see, as tokens, cut off after some nodes. *)
RECURSIVE Walk(_, _, _)
Walk(nodes, n, acc) ==       \* acc = [o, fuel]
  LET m == Deref(nodes, n) IN
  IF acc.fuel = 0 THEN [acc EXCEPT !.o = @ \o " ."]
  ELSE IF m = 0 THEN [acc EXCEPT !.o = @ \o " X"]
  ELSE LET v == nodes[m]
           d == [acc EXCEPT !.fuel = @ - 1]
           RECURSIVE Kids(_, _)
           Kids(i, a) == IF i > Len(v.fs) THEN a ELSE Kids(i + 1, Walk(nodes, v.fs[i], a))
       IN CASE v.k = "struct" -> Kids(1, [d EXCEPT !.o = @ \o " S " \o Str(Len(v.fs))])
            [] v.k = "union" -> Kids(1, [d EXCEPT !.o = @ \o " U " \o Str(v.tag)])
            [] v.k = "part" -> [d EXCEPT !.o = @ \o " P " \o Str(v.ar)]   \* seen when it is called
            [] v.k = "func" ->
                 Kids(1, [d EXCEPT !.o = @ \o " F " \o Str(v.tag) \o " " \o Str(v.ar) \o " " \o Str(Len(v.fs))])
            [] v.k = "deep" -> [d EXCEPT !.o = @ \o " D " \o Str(v.tag)]
            [] v.k = "wide" -> Kids(1, [d EXCEPT !.o = @ \o " V " \o Str(v.tag)])
            [] v.k = "native" -> [d EXCEPT !.o = @ \o " N " \o Str(v.tag)]

ShowReg(s, r, fuel) == Say(s, "show " \o Str(r) \o Walk(s.nodes, s.reg[r], [o |-> "", fuel |-> fuel]).o)
RECURSIVE ShowRegs(_, _, _, _)
ShowRegs(s, rs, i, fuel) ==
  IF i > Len(rs) THEN s
  ELSE ShowRegs(IF s.reg[rs[i]] = 0 THEN s ELSE ShowReg(s, rs[i], fuel), rs, i + 1, fuel)

(* ------------------------------------------------------------ registers *)
AddNode(s, v) ==
  [s EXCEPT !.nodes = Append(@, v), !.own = Append(@, Len(s.frames))]
NewReg(s, n) ==       \* a fresh register of the top frame holding n
  LET d == Len(s.frames) IN
  [s EXCEPT !.reg = Append(@, n), !.frames[d].regs = Append(@, Len(s.reg) + 1)]
Fresh(s) == Len(s.reg) + 1
Alloc(s, v) == NewReg(AddNode(s, v), Len(s.nodes) + 1)

RECURSIVE AllRegs(_, _)
AllRegs(s, i) == IF i = 0 THEN <<>> ELSE AllRegs(s, i - 1) \o s.frames[i].regs
Usable(s) == SelectSeq(AllRegs(s, Len(s.frames)), LAMBDA r : s.reg[r] # 0)
Recent(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, Len(q) - n + 1, Len(q))
Pick(q, a) == q[(a % Len(q)) + 1]
(* i-th of several picks made with the same numbers *)
PickN(q, a, b, i) == q[((a + i * (b + 1) + i * i * 7) % Len(q)) + 1]
Picks(q, a, b, n) == TLCEval([i \in 1..n |-> PickN(q, a, b, i)])
OfKind(s, q, ks) == SelectSeq(q, LAMBDA r : Deref(s.nodes, s.reg[r]) = 0 \/ s.nodes[Deref(s.nodes, s.reg[r])].k \in ks)
At(s, rs) == TLCEval([i \in DOMAIN rs |-> s.reg[rs[i]]])

(* ---------------------------------------------------------- allocation *)
DoStruct(s, rs) ==
  Say(Alloc(s, [k |-> "struct", tag |-> 0, ar |-> 0, fs |-> At(s, rs)]),
      "struct " \o Str(Fresh(s)) \o Join(rs, 1))
DoUnion(s, tag, r) ==
  Say(Alloc(s, [k |-> "union", tag |-> tag, ar |-> 0, fs |-> <<s.reg[r]>>]),
      "union " \o Str(Fresh(s)) \o " " \o Str(tag) \o " " \o Str(r))
UnitNode == [k |-> "struct", tag |-> 0, ar |-> 0, fs |-> <<>>]
EnumOf(s, tag) == AddNode(AddNode(s, UnitNode), [k |-> "union", tag |-> tag, ar |-> 0, fs |-> <<Len(s.nodes) + 1>>])
DoEnum(s, tag) ==
  LET t == EnumOf(s, tag) IN
  Say(NewReg(t, Len(t.nodes)), "enum " \o Str(Fresh(s)) \o " " \o Str(tag))
RECURSIVE Conses(_, _, _)
Conses(s, ns, i) ==          \* the state with the list of ns[i..] as its last node
  IF i > Len(ns) THEN EnumOf(s, 1)
  ELSE LET t == Conses(s, ns, i + 1)
           l == Len(t.nodes)
           u == AddNode(t, [k |-> "struct", tag |-> 0, ar |-> 0, fs |-> <<ns[i], l>>])
       IN AddNode(u, [k |-> "union", tag |-> 0, ar |-> 0, fs |-> <<l + 1>>])
DoList(s, rs) ==
  LET t == Conses(s, At(s, rs), 1) IN
  Say(NewReg(t, Len(t.nodes)), "list " \o Str(Fresh(s)) \o Join(rs, 1))
RECURSIVE Enums(_, _, _)
Enums(s, tags, i) == IF i > Len(tags) THEN s ELSE Enums(EnumOf(s, tags[i]), tags, i + 1)
DoLiteral(s, tags) ==
  LET e == Enums(s, tags, 1)
      t == Conses(e, TLCEval([i \in DOMAIN tags |-> Len(s.nodes) + 2 * i]), 1)
  IN Say(NewReg(t, Len(t.nodes)), "literal " \o Str(Fresh(s)) \o Join(tags, 1))
DoNative(s) ==
  LET id == Len(s.nodes) + 1 IN
  Say(Alloc(s, [k |-> "native", tag |-> id, ar |-> 0, fs |-> <<>>]), "native " \o Str(Fresh(s)) \o " " \o Str(id))
DoRef(s) == Say(Alloc(s, [k |-> "ref", tag |-> 0, ar |-> 0, fs |-> <<>>]), "ref " \o Str(Fresh(s)))
DoFunc(s, ar, rs) ==
  LET id == Len(s.nodes) + 1 IN
  Say(Alloc(s, [k |-> "func", tag |-> id, ar |-> ar, fs |-> At(s, rs)]),
      "func " \o Str(Fresh(s)) \o " " \o Str(id) \o " " \o Str(ar) \o Join(rs, 1))

DoDeep(s, n) ==
  Say(Alloc(s, [k |-> "deep", tag |-> n, ar |-> 0, fs |-> <<>>]), "deep " \o Str(Fresh(s)) \o " " \o Str(n))
DoWide(s, n, r) ==
  Say(Alloc(s, [k |-> "wide", tag |-> n, ar |-> 0, fs |-> <<s.reg[r]>>]),
      "wide " \o Str(Fresh(s)) \o " " \o Str(n) \o " " \o Str(r))

(* ------------------------------------------------------- refs and access *)
OpenRefs(s) ==        \* registers of undefined refs the top frame may define
  SelectSeq(Usable(s), LAMBDA r : LET n == s.reg[r] IN
     s.nodes[n].k = "ref" /\ s.nodes[n].fs = <<>> /\ s.own[n] = Len(s.frames))
DoAssign(s, r, v) ==
  LET n == s.reg[r]
      vac == LastRef(s.nodes, s.reg[v]) = n
      t == IF vac THEN s ELSE [s EXCEPT !.nodes[n].fs = <<LastRef(s.nodes, s.reg[v])>>]
  IN Say(t, "assign " \o Str(r) \o " " \o Str(v) \o (IF vac THEN " 0" ELSE " 1"))

DoField(s, r, a) ==
  LET m == Deref(s.nodes, s.reg[r]) IN
  IF m = 0 THEN Say(s, "field " \o Str(r) \o " " \o Str(a) \o " 0 U")
  ELSE IF s.nodes[m].fs = <<>> THEN Say(s, "nop")
  ELSE LET j == a % Len(s.nodes[m].fs) IN
       Say(NewReg(s, s.nodes[m].fs[j + 1]), "field " \o Str(r) \o " " \o Str(j) \o " " \o Str(Fresh(s)))
DoArg(s, r, a) ==
  LET m == Deref(s.nodes, s.reg[r]) IN
  IF m = 0 THEN Say(s, "uarg " \o Str(r) \o " -1 0 U")
  ELSE IF a % 3 = 0 THEN
       LET wrong == IF s.nodes[m].tag = 0 THEN 1 ELSE (IF a % 2 = 0 THEN s.nodes[m].tag - 1 ELSE s.nodes[m].tag + 1) IN
       Say(s, "ufield " \o Str(r) \o " " \o Str(wrong) \o " 0 W")
  ELSE IF a % 3 = 1 THEN
       Say(NewReg(s, s.nodes[m].fs[1]),
           "ufield " \o Str(r) \o " " \o Str(s.nodes[m].tag) \o " " \o Str(Fresh(s)))
  ELSE Say(NewReg(s, s.nodes[m].fs[1]),
           "uarg " \o Str(r) \o " " \o Str(s.nodes[m].tag) \o " " \o Str(Fresh(s)))
DoStatic(s, r, a) ==
  LET m == Deref(s.nodes, s.reg[r]) IN
  IF m = 0 THEN Say(s, "static " \o Str(r) \o " 0 0 U")
  ELSE IF s.nodes[m].fs = <<>> THEN Say(s, "nop")
  ELSE LET j == a % Len(s.nodes[m].fs) IN
       Say(NewReg(s, s.nodes[m].fs[j + 1]), "static " \o Str(r) \o " " \o Str(j) \o " " \o Str(Fresh(s)))

DoRec(s, ar, rs) ==      \* a function that can reach itself: the register holds the reference
  LET s1 == DoRef(s)
      rr == Len(s1.reg)
      s2 == DoFunc(s1, ar, <<rr>> \o rs)
      s3 == DoAssign(s2, rr, Len(s2.reg))
  IN [NewReg(s3, s3.reg[rr]) EXCEPT !.out = Append(@, "copy " \o Str(Len(s3.reg) + 1) \o " " \o Str(rr))]

(* ---------------------------------------------------------------- frames *)
Frame(k, regs, pend, dst, fn) == [k |-> k, regs |-> regs, stale |-> {}, pend |-> pend, dst |-> dst, fn |-> fn]
DoPush(s) == Say([s EXCEPT !.frames = Append(@, Frame("expl", <<>>, <<>>, 0, 0))], "push")

(* Leaving the top frame with result n (0: none).  Registers of the frame   *)
(* are gone; refs that survive belong to the frame below.                   *)
Leave(s, n) ==
  LET d == Len(s.frames)
      f == s.frames[d]
      below == SubSeq(s.frames, 1, d - 1)
      kept == IF f.k = "call" THEN [below EXCEPT ![d - 1].stale = @ \cup f.stale \cup FrameRoots(s, f)] ELSE below
      dead == {f.regs[i] : i \in DOMAIN f.regs}
      surv == IF n = 0 THEN {} ELSE ReachFrom(s.nodes, {n}, {})
  IN [s EXCEPT !.frames = kept,
               !.reg = TLCEval([r \in DOMAIN s.reg |-> IF r \in dead THEN 0 ELSE s.reg[r]]),
               !.own = TLCEval([i \in DOMAIN s.own |-> IF s.own[i] < d THEN s.own[i]
                                                       ELSE IF s.own[i] = d /\ i \in surv THEN d - 1 ELSE 1000])]
DoPop(s, r) ==
  LET n == IF r = 0 THEN 0 ELSE s.reg[r]
      t == Leave(s, n)
  IN IF r = 0 THEN SayLive(Say(t, "pop 0 0"))
     ELSE LET u == Say(NewReg(t, n), "pop " \o Str(r) \o " " \o Str(Fresh(t))) IN
          SayLive(ShowReg(u, Fresh(t), 40))

(* ----------------------------------------------------------------- calls *)
RECURSIVE Flatten(_, _, _)      \* the function and arguments under partial applications
Flatten(nodes, f, args) ==
  LET v == nodes[Deref(nodes, f)] IN
  IF v.k = "part" THEN Flatten(nodes, v.fs[1], Tail(v.fs) \o args) ELSE [f |-> f, args |-> args]

(* The running function looks at what it captured. *)
Mine(s) ==
  LET v == s.nodes[Top(s).fn]
      RECURSIVE Go(_, _)
      Go(i, acc) == IF i > Len(v.fs) THEN acc ELSE Go(i + 1, Walk(s.nodes, v.fs[i], acc))
  IN Say(s, "mine" \o Go(1, [o |-> "", fuel |-> 25]).o)

EnterBody(s, f, args, pend, dst, replace) ==
  LET fl == Flatten(s.nodes, f, args)
      v == s.nodes[Deref(s.nodes, fl.f)]
      ar == v.ar
      d == Len(s.frames)
      base == IF replace
              THEN [s EXCEPT !.frames[d] =
                      [Frame("call", <<>>, pend, dst, Deref(s.nodes, fl.f)) EXCEPT !.stale = s.frames[d].stale \cup FrameRoots(s, s.frames[d])],
                    !.reg = TLCEval([r \in DOMAIN s.reg |->
                               IF \E i \in DOMAIN s.frames[d].regs : s.frames[d].regs[i] = r THEN 0 ELSE s.reg[r]])]
              ELSE [s EXCEPT !.frames = Append(@, Frame("call", <<>>, pend, dst, Deref(s.nodes, fl.f)))]
      RECURSIVE Bind(_, _)
      Bind(t, i) == IF i > Len(fl.args) THEN t ELSE Bind(NewReg(t, fl.args[i]), i + 1)
      u == Bind(base, 1)
      regs == TLCEval([i \in 1..Len(fl.args) |-> Len(s.reg) + i])
      \* a tail call moves on to a new frame: refs made before it are no longer on top
      w == IF replace THEN [u EXCEPT !.own = TLCEval([i \in DOMAIN u.own |-> IF u.own[i] < d THEN u.own[i] ELSE 1000])]
           ELSE u
  IN SayLive(Mine(Say(w, "enter " \o Str(v.tag) \o " " \o Str(Len(v.fs)) \o Join(regs, 1))))

RECURSIVE Apply(_, _, _, _)
Apply(s, f, args, dst) ==     \* the application of node f to nodes args, result to register dst
  LET m == Deref(s.nodes, f) IN
  IF m = 0 THEN Say(s, "done " \o Str(dst) \o " 0 undefined")
  ELSE LET v == s.nodes[m] IN
       IF Len(args) < v.ar
       THEN LET p == [k |-> "part", tag |-> v.tag, ar |-> v.ar - Len(args), fs |-> <<f>> \o args]
                t == AddNode(s, p)
            IN Say([t EXCEPT !.reg[dst] = Len(t.nodes)], "done " \o Str(dst) \o " 1")
       ELSE EnterBody(s, f, SubSeq(args, 1, v.ar), SubSeq(args, v.ar + 1, Len(args)), dst, FALSE)

Finish(s, n) ==         \* the running function's result is node n (0: abort)
  LET f == Top(s)
      t == Leave(s, n)
  IN IF n = 0 THEN SayLive(Say(t, "done " \o Str(f.dst) \o " 0"))
     ELSE IF f.pend # <<>> THEN Apply(t, n, f.pend, f.dst)
     ELSE LET u == Say([t EXCEPT !.reg[f.dst] = n], "done " \o Str(f.dst) \o " 1") IN
          SayLive(ShowReg(u, f.dst, 30))

DoCall(s, rf, rs, native) ==
  LET dst == Fresh(s)
      t == Say(NewReg(s, 0), (IF InCall(s) THEN "call " ELSE "apply ") \o Str(dst) \o " " \o Str(rf) \o Join(rs, 1))
  IN Apply(t, s.reg[rf], At(s, rs), dst)
DoRet(s, r) == Finish(Say(s, "ret " \o Str(r)), s.reg[r])
DoAbort(s) == Finish(Say(s, "ret 0"), 0)
DoTail(s, rf, rs) ==
  LET f == Top(s)
      fn == s.reg[rf]
      v == s.nodes[Deref(s.nodes, fn)]
      args == At(s, rs) \o f.pend
      t == Say(s, "tail " \o Str(rf) \o Join(rs, 1))
  IN IF Len(args) < v.ar
     THEN LET p == AddNode(t, [k |-> "part", tag |-> v.tag, ar |-> v.ar - Len(args), fs |-> <<fn>> \o args])
              q == [p EXCEPT !.frames[Len(p.frames)].pend = <<>>]
          IN Finish(q, Len(p.nodes))
     ELSE EnterBody(t, fn, SubSeq(args, 1, v.ar), SubSeq(args, v.ar + 1, Len(args)), f.dst, TRUE)

(* ------------------------------------------------------------ collection *)
DoTick(s, n) == Say(s, "tick " \o Str(n))
DoGc(s) == SayLive(Say(s, "gc" \o IdList(s, Natives(s) \ MayLive(s))))

(* ----------------------------------------------------------------- genes *)
(* What the running function may return: a function if more arguments wait. *)
Results(s) ==
  LET q == Recent(Usable(s), 20) IN
  IF Top(s).pend = <<>> THEN q ELSE OfKind(s, q, {"func", "part"})

Do(s, op, a, b, c, d) ==
  LET q == Recent(Usable(s), 20)
      none == q = <<>>
      funcs == OfKind(s, q, {"func", "part"})
      live == SelectSeq(funcs, LAMBDA r : Deref(s.nodes, s.reg[r]) # 0)
  IN CASE op = "struct" -> DoStruct(s, IF none THEN <<>> ELSE Picks(q, b, c, a % 5))
       [] op = "union" -> IF none THEN DoEnum(s, Pick(Tags, a)) ELSE DoUnion(s, Pick(Tags, a), Pick(q, b))
       [] op = "enum" -> DoEnum(s, Pick(Tags, a))
       [] op = "list" -> IF none THEN DoLiteral(s, <<>>) ELSE DoList(s, Picks(q, b, c, a % 6))
       [] op = "literal" -> DoLiteral(s, TLCEval([i \in 1..(a % 7) |-> Tags[((b + c * i) % 10) + 1]]))
       \* only inside a call: the host's stack is as large as values need there
       [] op = "deep" -> IF InCall(s) THEN DoDeep(s, 2000 + 40 * a) ELSE DoTick(s, a % 8)
       [] op = "wide" -> IF none THEN DoNative(s) ELSE DoWide(s, IF a % 4 = 0 THEN 131000 + 40 * a ELSE 2 * a + 70, Pick(q, b))
       [] op = "native" -> DoNative(s)
       [] op = "ref" -> DoRef(s)
       [] op = "func" -> DoFunc(s, a % 4, IF none THEN <<>> ELSE Picks(q, b, c, d % 4))
       [] op = "rec" -> DoRec(s, a % 5, IF none THEN <<>> ELSE Picks(q, b, c, d % 3))
       [] op = "retail" -> LET o == SelectSeq(live, LAMBDA r : s.nodes[s.reg[r]].k = "ref") IN
                           IF Top(s).k # "call" \/ o = <<>> THEN DoTick(s, a % 8)
                           ELSE DoTail(s, Pick(o, a), Picks(q, b, c, 2 + (d % 4)))
       [] op = "recall" -> LET o == SelectSeq(live, LAMBDA r : s.nodes[s.reg[r]].k = "ref") IN
                           IF o = <<>> \/ Depth(s) > 9 THEN DoTick(s, a % 8)
                           ELSE DoCall(s, Pick(o, a), Picks(q, b, c, 2 + (d % 4)), TRUE)
       [] op = "assign" -> LET o == Recent(OpenRefs(s), 6) IN IF o = <<>> THEN DoRef(s) ELSE DoAssign(s, Pick(o, a), Pick(q, b))
       [] op = "field" -> LET o == OfKind(s, q, {"struct"}) IN IF o = <<>> THEN DoTick(s, a % 8) ELSE DoField(s, Pick(o, a), b)
       [] op = "arg" -> LET o == OfKind(s, q, {"union"}) IN IF o = <<>> THEN DoTick(s, a % 8) ELSE DoArg(s, Pick(o, a), b)
       [] op = "static" -> LET o == OfKind(s, q, {"func"}) IN IF o = <<>> THEN DoTick(s, a % 8) ELSE DoStatic(s, Pick(o, a), b)
       [] op = "push" -> IF Depth(s) > 7 THEN DoTick(s, a % 8) ELSE DoPush(s)
       [] op = "pop" -> IF Top(s).k # "expl" THEN DoTick(s, a % 20)
                        ELSE IF none \/ a % 8 = 0 THEN DoPop(s, 0) ELSE DoPop(s, Pick(q, b))
       [] op = "call" -> IF funcs = <<>> THEN DoFunc(s, a % 4, IF none THEN <<>> ELSE Picks(q, b, c, d % 4))
                         ELSE IF Depth(s) > 9 THEN DoTick(s, a % 8)
                         ELSE DoCall(s, Pick(funcs, a), Picks(q, b, c, d % 6), TRUE)
       [] op = "ret" -> LET o == Results(s) IN IF Top(s).k # "call" \/ o = <<>> THEN DoTick(s, a % 20) ELSE DoRet(s, Pick(o, b))
       [] op = "tail" -> IF Top(s).k # "call" \/ live = <<>> THEN DoTick(s, a % 8)
                         ELSE DoTail(s, Pick(live, a), Picks(q, b, c, d % 6))
       [] op = "abort" -> IF Top(s).k # "call" THEN DoTick(s, a % 40) ELSE DoAbort(s)
       [] op = "tick" -> DoTick(s, a % 60)
       [] op = "gc" -> DoGc(s)
       [] op = "mine" -> IF Top(s).k = "call" THEN Mine(s) ELSE DoTick(s, a % 8)
       [] op = "show" -> IF none THEN DoTick(s, 1) ELSE ShowReg(s, Pick(q, a), 40)

Step(s, g) == Do(s, g[1], g[2], g[3], g[4], g[5])

RECURSIVE ShowAll(_, _)
ShowAll(s, i) == IF i > Len(s.frames) THEN s ELSE ShowAll(ShowRegs(s, Recent(s.frames[i].regs, 15), 1, 30), i + 1)

(* Leave every running function, then as many client frames as asked.      *)
RECURSIVE Unwind(_, _, _)
Unwind(s, full, a) ==
  IF ~InCall(s) /\ (~full \/ Depth(s) = 1) THEN s
  ELSE LET q == Recent(Usable(s), 20) IN
       Unwind(IF Top(s).k = "call" THEN (IF Results(s) = <<>> \/ (Top(s).pend # <<>> /\ a % 2 = 0) THEN DoAbort(s) ELSE DoRet(s, Pick(Results(s), a)))
              ELSE (IF q = <<>> THEN DoPop(s, 0) ELSE DoPop(s, Pick(q, a))), full, a + 5)

(* A whole history: the genes, then unwinding, collection, and a last look. *)
RECURSIVE Run(_, _, _)
Run(s, gs, i) == IF i > Len(gs) THEN s ELSE Run(TLCEval(Step(s, gs[i])), gs, i + 1)
History(gs) ==
  LET s == Run(Empty, gs, 1)
      a == ShowAll(s, 1)
      u == Unwind(a, gs[1][2] % 2 = 0, gs[1][3])
      g == IF gs[1][4] % 3 = 0 THEN u ELSE ShowAll(DoGc(u), 1)
  IN Say(g, "end" \o IdList(g, Natives(g)))
=============================================================================
