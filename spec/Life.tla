-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* Callables of user code that change: the history of a program P of       *)
(* Callables.tla under the statements Python offers for that.  Functions   *)
(* here also have `of`: the function they say they wrap, None if they do   *)
(* not wrap any.                                                           *)
(*                                                                         *)
(* Asking for a signature leaves P alone, and the answer is a function of  *)
(* what P is when asked.  What was kept before a change, such as a bound   *)
(* method, a partial or a subclass, refers to functions and classes, not   *)
(* to what they were (Denote).                                             *)
(***************************************************************************)
EXTENDS Callables

Fn(t) == [ps |-> t.ps, r |-> t.r, of |-> None]

(* wrappers present themselves as what they wrap in the end                 *)
RECURSIVE Innermost(_, _)
Innermost(P, f) == IF P.fs[f].of = None THEN f ELSE Innermost(P, P.fs[f].of)
RECURSIVE Reaches(_, _, _)
Reaches(P, f, g) == f = g \/ (P.fs[f].of # None /\ Reaches(P, P.fs[f].of, g))

(* the program as Callables.tla knows them                                  *)
Eff(P) == [fs |-> [f \in DOMAIN P.fs |-> LET g == Innermost(P, f)
                                         IN [ps |-> P.fs[g].ps, r |-> P.fs[g].r]],
           cs |-> P.cs]

(* -------------------------------------------------------------- changes   *)
(* f gets another code, other defaults or other annotations: what f wraps   *)
(* is not a part of them                                                    *)
Redefine(P, f, t) == [P EXCEPT !.fs[f].ps = t.ps, !.fs[f].r = t.r]
Wrap(P, f, g) == [P EXCEPT !.fs[f].of = g]
NewFunction(P, t) == [P EXCEPT !.fs = Append(@, Fn(t))]
NewClass(P, bases) == [P EXCEPT !.cs = Append(@, [bases |-> bases, ms |-> <<>>])]
Without2(ms, name) == SelectSeq(ms, LAMBDA m : m.name # name)
SetMember(P, c, m) == [P EXCEPT !.cs[c].ms = Append(Without2(@, m.name), m)]
DelMember(P, c, name) == [P EXCEPT !.cs[c].ms = Without2(@, name)]
Rebase(P, c, bases) == [P EXCEPT !.cs[c].bases = bases]
Legal(P) == \A c \in DOMAIN P.cs : Mro(P, c).ok

(* Own of Callables takes the last member of a name, as class statements do;*)
(* here names are unique                                                    *)
RECURSIVE Denote(_, _)
Denote(P, x) ==
  CASE x.e = "get" ->
         LET m == Lookup(P, x.c, x.m)
             f == [e |-> "func", f |-> m.f]
         IN IF Receives(m, x.how)
            THEN [e |-> "part", x |-> f, n |-> 1, kv |-> <<>>, how |-> "method"]
            ELSE f
    [] x.e = "part" -> [x EXCEPT !.x = Denote(P, x.x)]
    [] OTHER -> x

RECURSIVE Exists(_, _)
Exists(P, x) == CASE x.e = "get" -> Lookup(P, x.c, x.m).sort # "none"
                  [] x.e = "part" -> Exists(P, x.x)
                  [] OTHER -> TRUE
=============================================================================
