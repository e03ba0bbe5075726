------------------------------- MODULE HeapMC -------------------------------
(* Model checking of Heap itself over every history of a small alphabet of  *)
(* genes.                                                                   *)
EXTENDS Heap
CONSTANT MaxSteps

Genes == {<<"struct", 0, 0, 0, 0>>, <<"struct", 2, 0, 1, 0>>, <<"union", 1, 1, 0, 0>>, <<"native", 0, 0, 0, 0>>,
          <<"ref", 0, 0, 0, 0>>, <<"func", 1, 0, 0, 1>>, <<"func", 2, 1, 0, 1>>, <<"assign", 0, 0, 0, 0>>, <<"assign", 0, 1, 0, 0>>,
          <<"assign", 1, 0, 0, 0>>, <<"field", 0, 0, 0, 0>>, <<"push", 0, 0, 0, 0>>, <<"pop", 0, 0, 0, 0>>, <<"pop", 1, 0, 0, 0>>,
          <<"pop", 1, 1, 0, 0>>, <<"call", 0, 0, 0, 1>>, <<"call", 0, 1, 0, 2>>, <<"ret", 0, 0, 0, 0>>, <<"ret", 0, 1, 0, 0>>,
          <<"tail", 0, 0, 0, 1>>, <<"abort", 0, 0, 0, 0>>}

VARIABLES s, n
vars == <<s, n>>
Init == s = Empty /\ n = 0
\* the script and the numbering of registers that hold nothing are not part of the state
Next == n < MaxSteps /\ n' = n + 1 /\ \E g \in Genes : s' = [Step(s, g) EXCEPT !.out = <<>>]
Spec == Init /\ [][Next]_vars

Nodes == DOMAIN s.nodes
TypeOK ==
  /\ \A m \in Nodes : \A x \in DOMAIN s.nodes[m].fs : s.nodes[m].fs[x] \in Nodes
  /\ \A r \in DOMAIN s.reg : s.reg[r] \in Nodes \cup {0}
  /\ Len(s.own) = Len(s.nodes)

(* Every recursive reference ends: no chain of references leads to itself,  *)
(* so Deref is total (a cycle would make this recursion not end).           *)
RECURSIVE Ends(_, _)
Ends(m, seen) == m \notin seen /\ (s.nodes[m].k # "ref" \/ s.nodes[m].fs = <<>> \/ Ends(s.nodes[m].fs[1], seen \cup {m}))
NoVacuous == \A m \in Nodes : Ends(m, {})

(* What must be kept is part of what may be kept. *)
LiveOK == MustLive(s) \subseteq MayLive(s)

(* Registers belong to exactly one frame, and only frames' registers hold.  *)
RegsOK == \A r \in DOMAIN s.reg : s.reg[r] # 0 =>
            Cardinality({d \in DOMAIN s.frames : \E x \in DOMAIN s.frames[d].regs : s.frames[d].regs[x] = r}) = 1

(* Only a call's frame waits for a result; the root frame is never left.    *)
FramesOK == s.frames[1].k = "root" /\ \A d \in DOMAIN s.frames : s.frames[d].k # "call" => s.frames[d].pend = <<>>

(* Garbage stays garbage: what could not be reached is not reached later.   *)
NoResurrection == [][(Nodes \ MayLive(s)) \cap MayLive(s)' = {}]_vars
(* A node never changes, except that an undefined reference becomes defined. *)
Immutable == [][\A m \in Nodes : s'.nodes[m] = s.nodes[m] \/ (s.nodes[m].k = "ref" /\ s.nodes[m].fs = <<>>)]_vars
=============================================================================
