----------------------------- MODULE ProfileMC -----------------------------
(* All histories of bounded length: the numbers always add up.              *)
EXTENDS Profile
CONSTANTS Length, Max
VARIABLES s, k
Init == s = AddThread(New(Max, TRUE)) /\ k = 0
Events == {<<"block", 0, 0>>, <<"thread", 0, 0>>}
  \cup UNION {{<<"exit", t, 0>>, <<"sample", t, 1>>} \cup {<<o, t, b>> : o \in {"enter", "replace"}, b \in 0..Max-1} : t \in 1..2}
Legal(e) ==
  CASE e[1] = "block" -> s.n < Max
    [] e[1] = "thread" -> Len(s.threads) < 2
    [] OTHER -> /\ e[2] <= Len(s.threads)
                /\ e[1] \in {"exit", "replace"} => Len(s.threads[e[2]]) > 1
                /\ e[1] \in {"enter", "replace"} => e[3] < s.n
Next == k < Length /\ \E e \in Events : Legal(e) /\ s' = Step(s, e) /\ k' = k + 1
Spec == Init /\ [][Next]_<<s, k>>
Adds == SelfIsTotal(s) /\ CountIsCalls(s) /\ TimesNest(s) /\ NoTimeWithoutCall(s)
=============================================================================
