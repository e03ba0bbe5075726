------------------------------ MODULE Profile ------------------------------
(* The profiler: blocks, calls and samples (include/fble/fble-profile.h).   *)
(*                                                                          *)
(* A thread has a stack of frames.  A frame is [id, active]: the block that *)
(* is running in it and the calls, <<caller, callee>>, that last until the  *)
(* frame is left.  Entering a block is a call from the running block, and   *)
(* lasts until the new frame is left.  Replacing the running block (a tail  *)
(* call) is a call too, and ends only when the frame is left: without it    *)
(* nothing of what follows in that frame would have happened.               *)
(*                                                                          *)
(* A sample charges the running block's self time, every distinct block on  *)
(* the stack once and every distinct call on the stack once.  The root is   *)
(* at the bottom of every stack.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Root == 0
Zero(D) == TLCEval([x \in D |-> 0])

\* max: an upper bound on the number of blocks the history adds.
New(max, on) ==
  LET B == 0..max-1 IN
  [on |-> on, n |-> 1, max |-> max, self |-> Zero(B), count |-> Zero(B), time |-> Zero(B),
   ccount |-> Zero(B \X B), ctime |-> Zero(B \X B), threads |-> <<>>]

Top(stack) == stack[Len(stack)]
Running(stack) == Top(stack).id
Calls(stack) == UNION {{stack[k].active[j] : j \in 1..Len(stack[k].active)} : k \in 1..Len(stack)}
\* every block that would not have been entered without being called
Blocks(stack) == {Root} \cup {c[2] : c \in Calls(stack)}

AddBlock(s) == [s EXCEPT !.n = @ + 1]
AddThread(s) == [s EXCEPT !.threads = Append(@, <<[id |-> Root, active |-> <<>>]>>), !.count[Root] = @ + 1]
FreeThread(s, t) == [s EXCEPT !.threads[t] = <<>>]
Charge(s, t, b) ==
  LET c == <<Running(s.threads[t]), b>> IN [s EXCEPT !.count[b] = @ + 1, !.ccount[c] = @ + 1]
Enter(s, t, b) ==
  LET k == s.threads[t] IN
  [Charge(s, t, b) EXCEPT !.threads[t] = Append(k, [id |-> b, active |-> <<<<Running(k), b>>>>])]
Replace(s, t, b) ==
  LET k == s.threads[t]
      f == Top(k)
      new == IF \E j \in 1..Len(f.active) : f.active[j] = <<f.id, b>> THEN f.active ELSE Append(f.active, <<f.id, b>>)
  IN [Charge(s, t, b) EXCEPT !.threads[t] = [k EXCEPT ![Len(k)] = [id |-> b, active |-> new]]]
Exit(s, t) == [s EXCEPT !.threads[t] = SubSeq(@, 1, Len(@) - 1)]
Sample(s, t, u) ==
  LET k == s.threads[t]
      bs == TLCEval(Blocks(k))
      cs == TLCEval(Calls(k))
  IN [s EXCEPT !.self[Running(k)] = @ + u,
               !.time = TLCEval([b \in DOMAIN s.time |-> IF b \in bs THEN s.time[b] + u ELSE s.time[b]]),
               !.ctime = TLCEval([c \in DOMAIN s.ctime |-> IF c \in cs THEN s.ctime[c] + u ELSE s.ctime[c]])]

\* An event is <<op, thread, arg>>.
Step(s, e) ==
  IF ~s.on THEN IF e[1] = "block" THEN AddBlock(s) ELSE s ELSE
  CASE e[1] = "block" -> AddBlock(s)
    [] e[1] = "thread" -> AddThread(s)
    [] e[1] = "free" -> FreeThread(s, e[2])
    [] e[1] = "enter" -> Enter(s, e[2], e[3])
    [] e[1] = "replace" -> Replace(s, e[2], e[3])
    [] e[1] = "exit" -> Exit(s, e[2])
    [] e[1] = "sample" -> Sample(s, e[2], e[3])

RECURSIVE Sum(_, _)
Sum(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE y \in D : TRUE IN f[x] + Sum(f, D \ {x})

---------------------------------------------------------------------------
(* What has to hold of the numbers of every profile.                        *)

B(s) == 0..s.n-1
SelfIsTotal(s) == Sum(s.self, B(s)) = s.time[Root]
CountIsCalls(s) ==
  \A b \in B(s) : s.count[b] = Sum(s.ccount, {c \in DOMAIN s.ccount : c[2] = b}) + (IF b = Root THEN Len(s.threads) ELSE 0)
TimesNest(s) ==
  /\ \A b \in B(s) : s.self[b] <= s.time[b] /\ s.time[b] <= s.time[Root]
  /\ \A c \in DOMAIN s.ctime : s.ctime[c] <= s.time[c[2]] /\ s.ctime[c] <= s.time[c[1]]
  /\ \A b \in B(s) \ {Root} : s.time[b] <= Sum(s.ctime, {c \in DOMAIN s.ctime : c[2] = b})
NoTimeWithoutCall(s) == \A c \in DOMAIN s.ctime : s.ctime[c] > 0 => s.ccount[c] > 0

---------------------------------------------------------------------------
(* What a recorded profile and a report of it have to say.                  *)

Range(q) == {q[k] : k \in 1..Len(q)}
\* table: for every block [self, count, time, callees: sequence of <<id, count, time>>]
Table(s, table) ==
  /\ Len(table) = s.n
  /\ \A k \in 1..s.n :
       LET b == k - 1
           r == table[k]
       IN /\ r.self = s.self[b] /\ r.count = s.count[b] /\ r.time = s.time[b]
          /\ Len(r.callees) = Cardinality({c \in B(s) : s.ccount[<<b, c>>] > 0})
          /\ \A j \in 1..Len(r.callees) :
               LET x == r.callees[j] IN
               /\ j > 1 => r.callees[j-1][1] < x[1]
               /\ x[1] \in B(s) /\ s.ccount[<<b, x[1]>>] = x[2] /\ s.ctime[<<b, x[1]>>] = x[3] /\ x[2] > 0

Falling(q, f(_)) == \A k \in 1..Len(q)-1 : f(q[k]) >= f(q[k+1])
Rising(q, f(_)) == \A k \in 1..Len(q)-1 : f(q[k]) <= f(q[k+1])
Ids(q) == {q[k].id : k \in 1..Len(q)}
Abs(x) == IF x < 0 THEN 0 - x ELSE x

\* rep: [covered (hundredths of a percent), of, overall: <<[id, count, time, self, name]>>, selfs: <<[id, pct, self, name]>>,
\*       graph: <<[callers, block, callees]>>, locs: <<[id, name, loc]>>]; names[k], locs[k]: of block k - 1
Report(s, rep, names, locs) ==
  IF ~s.on THEN rep.empty ELSE
  LET total == Sum(s.self, B(s))
      covered == Cardinality({b \in B(s) : s.count[b] > 0})
      Row(r) == /\ r.id \in B(s) /\ r.name = names[r.id + 1]
      Line(r) == Row(r) /\ r.count = s.count[r.id] /\ r.time = s.time[r.id] /\ r.self = s.self[r.id]
      T(r) == r.time
      S(r) == r.self
  IN /\ ~rep.empty
     /\ rep.of = s.n /\ Abs(rep.covered * s.n - 10000 * covered) <= s.n
     /\ Len(rep.overall) = s.n /\ Ids(rep.overall) = B(s) /\ \A r \in Range(rep.overall) : Line(r)
     /\ Falling(rep.overall, T)
     /\ Len(rep.selfs) = s.n /\ Ids(rep.selfs) = B(s)
     /\ \A r \in Range(rep.selfs) : Row(r) /\ r.self = s.self[r.id] /\ (total > 0 => Abs(r.pct * total - 10000 * r.self) <= total)
     /\ Falling(rep.selfs, S)
     /\ Len(rep.graph) = covered
     /\ {g.block.id : g \in Range(rep.graph)} = {b \in B(s) : s.count[b] > 0}
     /\ \A k \in 1..Len(rep.graph)-1 : rep.graph[k].block.time >= rep.graph[k+1].block.time
     /\ \A g \in Range(rep.graph) :
          LET b == g.block.id IN
          /\ Line(g.block)
          /\ Ids(g.callers) = {a \in B(s) : s.ccount[<<a, b>>] > 0} /\ Len(g.callers) = Cardinality(Ids(g.callers))
          /\ \A r \in Range(g.callers) : Row(r) /\ r.count = s.ccount[<<r.id, b>>] /\ r.time = s.ctime[<<r.id, b>>]
          /\ Rising(g.callers, T)
          /\ Ids(g.callees) = {a \in B(s) : s.ccount[<<b, a>>] > 0} /\ Len(g.callees) = Cardinality(Ids(g.callees))
          /\ \A r \in Range(g.callees) : Row(r) /\ r.count = s.ccount[<<b, r.id>>] /\ r.time = s.ctime[<<b, r.id>>]
          /\ Falling(g.callees, T)
     /\ Len(rep.locs) = s.n
     /\ \A k \in 1..s.n : rep.locs[k] = [id |-> k - 1, name |-> names[k], loc |-> locs[k]]
=============================================================================
