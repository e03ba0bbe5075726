------------------------------ MODULE FbleLoad ------------------------------
(***************************************************************************)
(* Finding and loading the modules of a program.                            *)
(*                                                                         *)
(* W says what there is: W[p] for each module path p that can be named is   *)
(* "none" (no directory of the search path has it), "bad" (its file has a   *)
(* syntax error) or "ok", with the modules it references in the order of    *)
(* first reference, deps: <<path, location>>, and f, the file it is in.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Entry(W, p) == IF p \in DOMAIN W THEN W[p] ELSE [k |-> "none"]
Range(q) == {q[j] : j \in DOMAIN q}

(* stack: modules being loaded, the last on top; done: modules dealt with, in *)
(* order; read: files read, in order; err: what is reported, in order         *)
Push(W, s, p, l) ==
  LET m == Entry(W, p) IN
  CASE m.k = "none" -> [s EXCEPT !.stack = Append(@, [p |-> p, deps |-> <<>>, n |-> 1]),
                                 !.err = Append(@, [k |-> "missing", p |-> p, l |-> {l}])]
    [] m.k = "bad"  -> [s EXCEPT !.stack = Append(@, [p |-> p, deps |-> <<>>, n |-> 1]),
                                 !.read = Append(@, m.f),
                                 !.err = Append(@, [k |-> "syntax", p |-> p, l |-> m.er])]
    [] OTHER        -> [s EXCEPT !.stack = Append(@, [p |-> p, deps |-> m.deps, n |-> 1]),
                                 !.read = Append(@, m.f)]
LoadInit(W, main) == Push(W, [stack |-> <<>>, done |-> <<>>, read |-> <<>>, err |-> <<>>], main, 0)

Done(s) == s.stack = <<>>
LoadStep(W, s) ==
  LET k == Len(s.stack)
      top == s.stack[k]
  IN IF top.n > Len(top.deps)
     THEN [s EXCEPT !.stack = SubSeq(@, 1, k - 1), !.done = Append(@, top.p)]
     ELSE LET p == top.deps[top.n][1]
              l == top.deps[top.n][2]
          IN IF p \in Range(s.done) THEN [s EXCEPT !.stack[k].n = @ + 1]
             ELSE IF \E j \in 1..k : s.stack[j].p = p                    \* what remains is not looked at
             THEN [s EXCEPT !.stack[k].n = Len(top.deps) + 1,
                            !.err = Append(@, [k |-> "cycle", p |-> p, l |-> {l}])]
             ELSE Push(W, s, p, l)
RECURSIVE LoadAll(_, _)
LoadAll(W, s) == IF Done(s) THEN s ELSE LoadAll(W, LoadStep(W, s))

---------------------------------------------------------------- \* what loading must achieve
Deps(W, p) == IF Entry(W, p).k = "ok" THEN {d[1] : d \in Range(Entry(W, p).deps)} ELSE {}
RECURSIVE Closure(_, _)
Closure(W, S) == LET T == S \cup UNION {Deps(W, p) : p \in S} IN IF T = S THEN S ELSE Closure(W, T)
Reach(W, main) == Closure(W, {main})
OnCycle(W, p) == p \in Closure(W, Deps(W, p))
Loadable(W, main) == \A p \in Reach(W, main) : Entry(W, p).k = "ok" /\ ~OnCycle(W, p)

Correct(W, main, s) ==
  /\ Done(s) => ((s.err = <<>>) <=> Loadable(W, main))
  /\ Done(s) /\ s.err = <<>> => Range(s.done) = Reach(W, main) /\ s.done[Len(s.done)] = main
  /\ \A i, j \in DOMAIN s.done : i # j => s.done[i] # s.done[j]
  /\ \A i, j \in DOMAIN s.read : i # j => s.read[i] # s.read[j]
  /\ Range(s.done) \subseteq Reach(W, main)
  /\ s.err = <<>> => \A i \in DOMAIN s.done : \A p \in Deps(W, s.done[i]) : \E j \in 1..(i - 1) : s.done[j] = p
  /\ \A e \in Range(s.err) :
       CASE e.k = "missing" -> Entry(W, e.p).k = "none"
         [] e.k = "syntax"  -> Entry(W, e.p).k = "bad"
         [] e.k = "cycle"   -> OnCycle(W, e.p)
  /\ \A i, j \in DOMAIN s.err : i # j /\ s.err[i].k = s.err[j].k /\ s.err[i].k # "cycle" => s.err[i].p # s.err[j].p
=============================================================================
