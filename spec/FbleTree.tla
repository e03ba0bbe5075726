------------------------------ MODULE FbleTree ------------------------------
(* Syntax trees: their subtrees and the modules they reference.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* the subtrees of e in which the same names are in scope as at e *)
Kids(e) ==
  CASE e.k = "data"   -> [j \in DOMAIN e.fs |-> e.fs[j].e]
    [] e.k = "ftype"  -> Append(e.as, e.r)
    [] e.k = "typeof" -> <<e.e>>
    [] e.k \in {"simp"} -> [j \in DOMAIN e.as |-> e.as[j].e]
    [] e.k = "copy"   -> <<e.e>> \o [j \in DOMAIN e.as |-> e.as[j].e]
    [] e.k = "uval"   -> <<e.ty, e.e>>
    [] e.k = "sel"    -> <<e.e>> \o [j \in DOMAIN e.cs |-> e.cs[j].e] \o (IF e.d.k = "nil" THEN <<>> ELSE <<e.d>>)
    [] e.k \in {"papp", "list", "app"} -> <<e.e>> \o e.as
    [] e.k \in {"lit", "unabs", "acc"} -> <<e.e>>
    [] e.k = "cast"   -> <<e.pk, e.ty, e.e>>
    [] OTHER -> <<>>

RECURSIVE Refs(_)
(* the references to modules in e: <<path, location>> *)
Refs(e) ==
  CASE e.k = "mod"  -> {<<e.p, e.l>>}
    [] e.k = "fn"   -> Refs(e.b) \cup UNION {Refs(e.as[j].e) : j \in DOMAIN e.as}
    [] e.k = "poly" -> Refs(e.b)
    [] e.k = "let"  -> Refs(e.b) \cup UNION {Refs(e.bs[j].e) : j \in DOMAIN e.bs}
                       \cup UNION {Refs(e.bs[j].ty) : j \in {h \in DOMAIN e.bs : e.bs[h].ty.k # "nil"}}
    [] OTHER -> UNION {Refs(Kids(e)[j]) : j \in DOMAIN Kids(e)}
(* each module referenced, in the order of first reference *)
RECURSIVE InOrder(_)
InOrder(rs) ==
  IF rs = {} THEN <<>>
  ELSE LET f == CHOOSE r \in rs : \A q \in rs : r[2] <= q[2] IN
       <<f>> \o InOrder({r \in rs : r[1] # f[1]})
=============================================================================
