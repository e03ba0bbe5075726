-------------------------------- MODULE Sat --------------------------------
(* Satisfiability, the DIMACS cnf format, and the answers of the sat        *)
(* package.  A literal is [id |-> integer, pos |-> BOOLEAN]; a clause is a  *)
(* sequence of literals; a formula is a sequence of clauses.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Lit(id, pos) == [id |-> id, pos |-> pos]
Not(l) == [l EXCEPT !.pos = ~@]
Clauses(f) == {Range(f[k]) : k \in 1..Len(f)}
Vars(cs) == UNION {{l.id : l \in c} : c \in cs}

(* The definition: some assignment makes every clause true. *)
Holds(asg, cs) == \A c \in cs : \E l \in c : asg[l.id] = l.pos
SatisfiableByDefinition(cs) == \E asg \in [Vars(cs) -> BOOLEAN] : Holds(asg, cs)

(* The same, by cases: what is left of the clauses when l is true. *)
Given(cs, l) == {c \ {Not(l)} : c \in {d \in cs : l \notin d}}
RECURSIVE Satisfiable(_)
Satisfiable(cs) ==
  IF cs = {} THEN TRUE
  ELSE IF {} \in cs THEN FALSE
  ELSE LET units == {c \in cs : Cardinality(c) = 1}
       IN IF units # {} THEN Satisfiable(TLCEval(Given(cs, CHOOSE l \in CHOOSE c \in units : TRUE : TRUE)))
          ELSE LET l == CHOOSE l \in CHOOSE c \in cs : TRUE : TRUE
               IN Satisfiable(TLCEval(Given(cs, l))) \/ Satisfiable(TLCEval(Given(cs, Not(l))))

(* A model is a list of literals: the variables it leaves out may have any   *)
(* value, so every clause must hold by the literals listed, or whatever happens.*)
Always(c) == \E l \in c : Not(l) \in c
Model(m, cs) ==
  /\ \A a, b \in Range(m) : a.id = b.id => a.pos = b.pos
  /\ \A c \in cs : Always(c) \/ c \cap Range(m) # {}
  /\ {l.id : l \in Range(m)} \subseteq Vars(cs)

(* An answer: [sat |-> BOOLEAN, model |-> sequence of literals]. *)
Correct(answer, cs) == IF answer.sat THEN Model(answer.model, cs) ELSE ~Satisfiable(cs)

(* What the solver's learning rests on: a clause that follows from two that *)
(* differ on a variable only adds what holds anyway.                        *)
Resolvent(a, b, v) == {l \in a \cup b : l.id # v}

(***************************************************************************)
(* DIMACS.  Text is a sequence of character codes.                         *)
(***************************************************************************)
NL == 10
Blank == {9, 10, 32}
Digit == 48..57
RECURSIVE SplitBy(_, _)
SplitBy(s, seps) ==
  LET from == {k \in 1..Len(s) : s[k] \notin seps}
  IN IF from = {} THEN <<>>
     ELSE LET a == CHOOSE k \in from : \A j \in from : k <= j
              ends == {k \in a..Len(s) : s[k] \in seps}
              b == IF ends = {} THEN Len(s) + 1 ELSE CHOOSE k \in ends : \A j \in ends : k <= j
          IN <<SubSeq(s, a, b - 1)>> \o SplitBy(SubSeq(s, b, Len(s)), seps)
Words(s) == SplitBy(s, Blank)

RECURSIVE Natural(_)
Natural(w) == IF w = <<>> THEN 0 ELSE 10 * Natural(SubSeq(w, 1, Len(w) - 1)) + w[Len(w)] - 48
Number(w) == IF w[1] = 45 THEN -Natural(Tail(w)) ELSE Natural(w)
(* the words a clause may have *)
Numeral(w) == LET d == IF w[1] = 45 THEN Tail(w) ELSE w IN d # <<>> /\ Range(d) \subseteq Digit

Bad == [ok |-> FALSE, f |-> <<>>]
ClauseOf(words) ==
  LET zeros == {k \in 1..Len(words) : Number(words[k]) = 0}
  IN IF zeros = {} THEN Bad
     ELSE LET z == CHOOSE k \in zeros : \A j \in zeros : k <= j
          IN [ok |-> TRUE, f |-> [k \in 1..(z - 1) |->
                LET n == Number(words[k]) IN IF n > 0 THEN Lit(n, TRUE) ELSE Lit(-n, FALSE)]]
Header(line) ==
  LET w == Words(line) IN Len(w) = 4 /\ w[1] = <<112>> /\ w[2] = <<99, 110, 102>>
(* lines without their newlines, or with *)
ParseLines(lines) ==
  LET starts == {k \in 1..Len(lines) : lines[k] = <<>> \/ lines[k][1] # 99}
  IN IF starts = {} THEN Bad
     ELSE LET h == CHOOSE k \in starts : \A j \in starts : k <= j
              cs == [k \in 1..(Len(lines) - h) |-> ClauseOf(Words(lines[h + k]))]
          IN IF lines[h] = <<>> \/ lines[h][1] # 112 \/ ~Header(lines[h]) THEN Bad
             ELSE IF \E k \in DOMAIN cs : ~cs[k].ok THEN Bad
             ELSE [ok |-> TRUE, f |-> [k \in DOMAIN cs |-> cs[k].f]]
Parse(text) == ParseLines(SplitBy(text, {NL}))
(* what a program reading lines from a file gets: each with its newline *)
RECURSIVE FileLines(_)
FileLines(text) ==
  LET nls == {k \in 1..Len(text) : text[k] = NL}
  IN IF text = <<>> THEN <<>>
     ELSE IF nls = {} THEN <<text>>
     ELSE LET n == CHOOSE k \in nls : \A j \in nls : k <= j
          IN <<SubSeq(text, 1, n)>> \o FileLines(SubSeq(text, n + 1, Len(text)))

(***************************************************************************)
(* Printing.                                                               *)
(***************************************************************************)
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Decimal(n \div 10), 48 + (n % 10))
ShowInt(n) == IF n < 0 THEN <<45>> \o Decimal(-n) ELSE Decimal(n)
ShowLit(l) == <<IF l.pos THEN 43 ELSE 45>> \o ShowInt(l.id)
ShowList(xs) ==
  IF xs = <<>> THEN <<91, 93>>
  ELSE FoldLeft(LAMBDA a, x : a \o <<44, 32>> \o x, <<91>> \o xs[1], Tail(xs)) \o <<93>>
ShowClause(c) == ShowList([k \in DOMAIN c |-> ShowLit(c[k])])
ShowFormula(f) == ShowList([k \in DOMAIN f |-> ShowClause(f[k])])
ShowAnswer(a) == IF a.sat THEN <<115, 97, 116, 58, 32>> \o ShowClause(a.model) ELSE <<117, 110, 115, 97, 116>>

(* An answer read back from what was printed; [ok |-> FALSE] otherwise. *)
LitOf(w) == Lit(Number(Tail(w)), w[1] = 43)
Literal(w) == Len(w) > 1 /\ w[1] \in {43, 45} /\ Numeral(Tail(w))
AnswerOf(line) ==
  IF line = ShowAnswer([sat |-> FALSE, model |-> <<>>]) THEN [ok |-> TRUE, sat |-> FALSE, model |-> <<>>]
  ELSE LET w == SplitBy(line, {32, 44, 91, 93})
           m == IF Len(w) > 0 /\ \A k \in 2..Len(w) : Literal(w[k]) THEN [k \in 1..(Len(w) - 1) |-> LitOf(w[k + 1])] ELSE <<>>
       IN [ok |-> ShowAnswer([sat |-> TRUE, model |-> m]) = line, sat |-> TRUE, model |-> m]

(***************************************************************************)
(* The program: reads text, prints an answer, exits.                       *)
(***************************************************************************)
ProgramDid(text, out, status) ==
  LET p == TLCEval(ParseLines(FileLines(text)))
      lines == TLCEval(SplitBy(out, {NL}))
  IN IF ~p.ok THEN status = 1 /\ out = <<>>
     ELSE /\ status = 0 /\ lines # <<>>
          /\ LET a == AnswerOf(lines[Len(lines)]) IN a.ok /\ Correct(a, Clauses(p.f))
=============================================================================
