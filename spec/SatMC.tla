------------------------------- MODULE SatMC -------------------------------
(* Every formula of up to K clauses over N variables: the definition by      *)
(* cases agrees with the definition by assignments; resolvents and pure      *)
(* literals keep satisfiability; models are models; texts parse back.        *)
EXTENDS Sat
CONSTANTS N, K
Lits == {Lit(v, p) : v \in 1..N, p \in BOOLEAN}
AllClauses == {c \in SUBSET Lits : TRUE}
VARIABLES cs, n
Init == cs = {} /\ n = 0
Next == n < K /\ n' = n + 1 /\ \E c \in AllClauses \ cs : cs' = cs \cup {c}
Spec == Init /\ [][Next]_<<cs, n>>

Agree == Satisfiable(cs) = SatisfiableByDefinition(cs)
Learning == \A a, b \in cs : \A l \in a :
  (Not(l) \in b /\ ~Always(a) /\ ~Always(b)) =>
     Satisfiable(cs \cup {Resolvent(a, b, l.id)}) = Satisfiable(cs)
PureLiteral == \A l \in UNION cs :
  (\A c \in cs : Not(l) \notin c) => Satisfiable(cs) = Satisfiable(Given(cs, l))
\* an assignment satisfies the clauses exactly if, listed, it is a model
AsModel(asg) == LET v == Vars(cs) IN SetToSeq({Lit(x, asg[x]) : x \in v})
Models == \A asg \in [Vars(cs) -> BOOLEAN] : Holds(asg, cs) = Model(AsModel(asg), cs)
\* a model's literals, and any values for the rest, satisfy
Partial == \A m \in SUBSET {l \in Lits : l.id \in Vars(cs)} :
  (\A l \in m : Not(l) \notin m) =>
     (Model(SetToSeq(m), cs) = (\A asg \in [Vars(cs) -> BOOLEAN] : (\A l \in m : asg[l.id] = l.pos) => Holds(asg, cs)))
OneAnswer == ~(\E asg \in [Vars(cs) -> BOOLEAN] : Model(AsModel(asg), cs) /\ Correct([sat |-> FALSE, model |-> <<>>], cs))

\* written out and read
Seqs == LET s == SetToSeq(cs) IN [k \in DOMAIN s |-> SetToSeq(s[k])]
Word(l) == (IF l.pos THEN <<>> ELSE <<45>>) \o Decimal(l.id)
Line(c) == FoldLeft(LAMBDA a, l : a \o Word(l) \o <<32>>, <<>>, c) \o <<48, 10>>
Text == <<99, 32, 120, 10>> \o <<112, 32, 99, 110, 102, 32>> \o Decimal(N) \o <<32>> \o Decimal(Len(Seqs)) \o <<10>>
        \o FoldLeft(LAMBDA a, c : a \o Line(c), <<>>, Seqs)
ReadBack == Parse(Text) = [ok |-> TRUE, f |-> Seqs] /\ ParseLines(FileLines(Text)) = Parse(Text)
PrintBack == \A c \in cs : LET a == [sat |-> TRUE, model |-> SetToSeq(c)] IN
  LET b == AnswerOf(ShowAnswer(a)) IN b.ok /\ b.sat /\ b.model = a.model
=============================================================================
