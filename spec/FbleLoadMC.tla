----------------------------- MODULE FbleLoadMC -----------------------------
(* All graphs of N modules with at most K references each.                   *)
EXTENDS FbleLoad
CONSTANTS N, K
VARIABLES w, s
Mods == 1..N
Seqs == UNION {[1..j -> Mods] : j \in 0..K}
NoDup(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
Entries(p) == {[k |-> "none"], [k |-> "bad", f |-> p, er |-> {p}]}
           \cup {[k |-> "ok", f |-> p, deps |-> [j \in DOMAIN q |-> <<q[j], p * 10 + j>>]] : q \in {r \in Seqs : NoDup(r)}}
Init == /\ \E a \in Entries(1), b \in Entries(2), c \in Entries(3), d \in (IF N = 4 THEN Entries(4) ELSE {[k |-> "none"]}) :
             w = <<a, b, c, d>>
        /\ s = LoadInit(w, 1)
Next == ~Done(s) /\ s' = LoadStep(w, s) /\ UNCHANGED w
Spec == Init /\ [][Next]_<<w, s>> /\ WF_<<w, s>>(Next)
Ok == Correct(w, 1, s)
Ends == <>Done(s)
=============================================================================
