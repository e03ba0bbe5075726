------------------------------- MODULE Tools -------------------------------
(***************************************************************************)
(* The command lines of the tools: what an argument list asks for, and what *)
(* the tool then does in a world of directories with modules in them.       *)
(*                                                                         *)
(* A tool is [bools: options without a value, vals: option -> what it sets, *)
(* lists: option -> what it adds to, module: whether it takes the options   *)
(* that name a module].                                                     *)
(***************************************************************************)
EXTENDS FbleLoad, FbleSyntax, FbleTree, SequencesExt

Unset == "-"                                  \* no file or name used here is called that
Module == [bools |-> {}, vals |-> <<>>, lists |-> <<>>, module |-> TRUE, usage |-> 2]
ToolOf(n) ==
  CASE n = "fble-deps"        -> [Module EXCEPT !.vals = ("-t" :> "target") @@ ("--target" :> "target")]
    [] n = "fble-disassemble" -> Module
    [] n = "fble-compile"     -> [Module EXCEPT !.bools = {"-c", "--compile"},
                                    !.vals = ("-t" :> "target") @@ ("--target" :> "target") @@ ("-e" :> "export")
                                             @@ ("--export" :> "export") @@ ("--main" :> "main")]
    [] n = "fble-perf-profile" -> [Module EXCEPT !.module = FALSE, !.lists = ("-s" :> "squash") @@ ("--squash" :> "squash")]
    [] n = "fble-test"        -> [Module EXCEPT !.vals = ("--profile" :> "profile"), !.usage = 3]

(* The first directory of a list of them that has the package. *)
RECURSIVE Found(_, _, _)
Found(ds, has, p) ==                   \* has: pairs directory, package
  IF ds = <<>> THEN Unset
  ELSE IF <<ds[1], p>> \in has THEN ds[1] \o "/" \o p ELSE Found(Tail(ds), has, p)

(* pkgs: [dirs, where packages are looked for; has, pairs of directory and package] *)
Start == [k |-> "run", set |-> {}, v |-> [x \in {"target", "export", "main", "profile"} |-> Unset], squash |-> <<>>,
          path |-> <<>>, mod |-> <<>>]
Chars(s) == [k \in 1..Len(s) |-> SubSeq(s, k, k)]
PathOf(s) == LET T == Tokens(Chars(s), 0)
                 p == PPath(T, 1, <<>>)
             IN IF Is(T, 1, "/") /\ p.ok /\ T[p.i].t = "eof" THEN p.v ELSE <<>>
Bad(o) == [o EXCEPT !.k = "usage"]
RECURSIVE Args(_, _, _, _)
Args(t, a, o, pkgs) ==
  IF a = <<>> \/ o.k # "run" THEN o
  ELSE LET x == a[1]
           with(f(_)) == IF Len(a) < 2 THEN Bad(o) ELSE Args(t, SubSeq(a, 3, Len(a)), f(a[2]), pkgs)
           next(n) == Args(t, Tail(a), n, pkgs)
       IN CASE x \in {"-h", "--help"} -> [o EXCEPT !.k = "help"]
            [] x \in {"-v", "--version"} -> [o EXCEPT !.k = "version"]
            [] t.module /\ x = "-I" -> with(LAMBDA d : [o EXCEPT !.path = Append(@, d)])
            [] t.module /\ Len(x) > 2 /\ SubSeq(x, 1, 2) = "-I" -> next([o EXCEPT !.path = Append(@, SubSeq(x, 3, Len(x)))])
            [] t.module /\ x \in {"-p", "--package"} ->
                 with(LAMBDA d : LET f == Found(pkgs.dirs, pkgs.has, d) IN IF f = Unset THEN Bad(o) ELSE [o EXCEPT !.path = Append(@, f)])
            [] t.module /\ x \in {"-m", "--module"} ->
                 with(LAMBDA d : IF o.mod # <<>> \/ PathOf(d) = <<>> THEN Bad(o) ELSE [o EXCEPT !.mod = PathOf(d)])
            [] x \in t.bools -> next([o EXCEPT !.set = @ \cup {x}])
            [] x \in DOMAIN t.vals -> with(LAMBDA d : IF o.v[t.vals[x]] # Unset THEN Bad(o) ELSE [o EXCEPT !.v[t.vals[x]] = d])
            [] x \in DOMAIN t.lists -> with(LAMBDA d : [o EXCEPT !.squash = Append(@, d)])
            [] OTHER -> Bad(o)
Options(n, compiled, a, pkgs) ==
  LET o == TLCEval(Args(ToolOf(n), a, Start, pkgs))
  IN IF o.k # "run" THEN o
     ELSE CASE n = "fble-perf-profile" -> o
            [] compiled -> IF o.mod # <<>> THEN Bad(o) ELSE o
            [] o.mod = <<>> -> Bad(o)
            [] n = "fble-deps" /\ o.v["target"] = Unset -> Bad(o)
            [] n = "fble-compile" /\ o.v["target"] \notin {Unset, "c", "aarch64"} -> Bad(o)
            [] n = "fble-compile" /\ o.set = {} /\ o.v["export"] = Unset /\ o.v["main"] = Unset -> Bad(o)
            [] OTHER -> o

(* fs: the files, [d: directory, p, src: characters, k: "ok", "type" (it breaks a rule) or "abort"];  *)
(* where: what directory a text means, 0 if none *)
FileName(dir, p) == FoldLeft(LAMBDA a, x : a \o "/" \o x, dir, p) \o ".fble"
RECURSIVE InPath(_, _, _, _)
InPath(sp, fs, where, p) ==
  IF sp = <<>> THEN [f |-> 0, n |-> ""]
  ELSE LET h == {q \in DOMAIN fs : fs[q].d = where[sp[1]] /\ fs[q].p = p} IN
       IF h = {} THEN InPath(Tail(sp), fs, where, p) ELSE [f |-> CHOOSE q \in h : TRUE, n |-> FileName(sp[1], p)]
Known(sp, fs, where, asked) ==
  [p \in {fs[j].p : j \in DOMAIN fs} \cup {asked} |->
     LET f == InPath(sp, fs, where, p) IN
     IF f.f = 0 THEN [k |-> "none"]
     ELSE LET r == Parse(fs[f.f].src, f.f * 10000000) IN
          IF r.ok THEN [k |-> "ok", f |-> f.n, how |-> fs[f.f].k, deps |-> InOrder(Refs(r.e))]
          ELSE [k |-> "bad", f |-> f.n, how |-> "bad", er |-> r.er]]
(* what becomes of the module asked for: [how, read] *)
Program(o, fs, where) ==
  LET w == TLCEval(Known(o.path, fs, where, o.mod))
      s == LoadAll(w, LoadInit(w, o.mod))
      hows == [j \in DOMAIN s.done |-> w[s.done[j]].how]
  IN [read |-> s.read,
      how |-> IF s.err # <<>> THEN "unloadable" ELSE IF "type" \in Range(hows) THEN "rejected"
              ELSE IF "abort" \in Range(hows) THEN "abort" ELSE "value"]
=============================================================================
