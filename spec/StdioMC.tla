------------------------------ MODULE StdioMC ------------------------------
(* Every script of up to K steps in a small world, and every short list of  *)
(* the driver's arguments.                                                  *)
EXTENDS Stdio
CONSTANTS K, A
F == <<70>>                     \* a file there is
G == <<71>>                     \* one there is not yet
H == <<72>>                     \* one that cannot be
args == <<<<>>, F, G, H, <<10>>, <<9, 65>>>>
input == <<7, 10, 8>>
VARIABLES p, n, last, read, argv
vars == <<p, n, last, read, argv>>
W0 == World(input, [x \in {F} |-> <<5, 6>>], {F, G})
NoArgv == <<<<0>>>>

Ops == {<<o, <<k>>>> : o \in {"r", "w"}, k \in 1..3} \cup {<<o, <<k>>>> : o \in {"g", "q", "l", "t"}, k \in 0..2}
       \cup {<<o, <<j, k>>>> : o \in {"p", "s"}, j \in 0..3, k \in 4..5} \cup {<<"c", <<k, j>>>> : k \in 0..1, j \in {0, 2}}
       \cup {<<o, <<>>>> : o \in {"x", "y"}}
Words == {Tx("-h"), Tx("-v"), Tx("-I"), Tx("-p"), Tx("-m"), Tx("--profile"), Tx("--"), F, G}
cfg(comp) == [compiled |-> comp, pkgs |-> [x \in {F} |-> G], dirs |-> {G}, modules |-> {F}, missing |-> {}, profs |-> {G}]
Init == \/ p = [w |-> W0, res |-> ""] /\ n = 0 /\ last = <<"", <<>>>> /\ read = <<>> /\ argv = NoArgv
        \/ p = [w |-> W0, res |-> "options"] /\ n = 0 /\ last = <<"", <<>>>> /\ read = <<>> /\ argv \in UNION {[1..m -> Words] : m \in 0..A}
Next == p.res = "" /\ n < K /\ n' = n + 1 /\ UNCHANGED argv
        /\ \E op \in Ops : /\ last' = op
                           /\ p' = Step(p, op[1], op[2], args, <<>>)
                           /\ read' = SubSeq(input, 1, p'.w.rs[1].pos)
Spec == Init /\ [][Next]_vars

\* the input is consumed in order and never changes; outputs and open streams only grow
InputKept == p.w.in = input /\ read \o Left(p.w, 1) = input
Grows == [][/\ \E s \in {SubSeq(p'.w.out, Len(p.w.out) + 1, Len(p'.w.out))} : p'.w.out = p.w.out \o s
            /\ SubSeq(p'.w.err, 1, Len(p.w.err)) = p.w.err
            /\ SubSeq(p'.w.ws, 1, 2) = SubSeq(p.w.ws, 1, 2) /\ Len(p'.w.ws) >= Len(p.w.ws) /\ Len(p'.w.rs) >= Len(p.w.rs)]_vars
\* only opening for writing and putting bytes change files, and only the one concerned
Confined == [][\A x \in DOMAIN p'.w.files :
    (x \notin DOMAIN p.w.files \/ p'.w.files[x] # p.w.files[x]) =>
       \/ last'[1] = "w" /\ args[last'[2][1] + 1] = x /\ p'.w.files[x] = <<>>
       \/ last'[1] \in {"p", "s"} /\ p.w.ws[last'[2][1] + 1].path = x
       \/ last'[1] = "c" /\ p.w.ws[last'[2][2] + 1].path = x]_vars
Kept == [][DOMAIN p.w.files \subseteq DOMAIN p'.w.files]_vars
Possible == DOMAIN p.w.files \subseteq p.w.creatable
\* nothing happens after a result
Final == [][p.res = ""]_vars
\* a file written by one writer from the start holds just its bytes
Holds == \A j \in 3..Len(p.w.ws) : p.w.ws[j].k = "file" /\ (\A i \in 3..Len(p.w.ws) : i # j => p.w.ws[i].path # p.w.ws[j].path)
            => Len(p.w.files[p.w.ws[j].path]) = p.w.ws[j].pos

\* options: what follows a first -- that is no option's value is left alone; compiled programs without -- get everything
Complete(a) == LET o == Parse(Start, a, cfg(FALSE)) IN o.k = "run" /\ o.args = <<>> /\ (a = <<>> \/ a[Len(a)] # Tx("--"))
Passed == argv # NoArgv =>
  \A m \in 0..Len(argv) :
    (Complete(SubSeq(argv, 1, m)) /\ m < Len(argv) /\ argv[m + 1] = Tx("--"))
      => Parse(Start, argv, cfg(FALSE)).args = SubSeq(argv, m + 2, Len(argv))
Tail2 == argv # NoArgv =>
  LET o == Options(argv, cfg(FALSE)) IN o.k = "run" => \E m \in 0..Len(argv) : o.args = SubSeq(argv, m + 1, Len(argv))
CompiledAll == argv # NoArgv /\ (\A k \in DOMAIN argv : argv[k] # Tx("--")) => Options(argv, cfg(TRUE)) = [Start EXCEPT !.args = argv]
Known4 == argv # NoArgv => Options(argv, cfg(FALSE)).k \in {"run", "usage", "failure", "help", "version"}
=============================================================================
