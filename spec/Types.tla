------------------------------- MODULE Types -------------------------------
(***************************************************************************)
(* Annotations as terms, and what makes two terms the same annotation.     *)
(* A term is a record [h, sp, args]:                                       *)
(*   h     head: "cls:int", "list", "dict", "tuple", "vartuple", "type",   *)
(*         "iterable", "user", "union", "literal", "callable", "anycall",  *)
(*         "gen:NAME" (set, deque, Mapping, Pattern, ...), "annotated" (a type  *)
(*         and metadata), "concat:P" (Concatenate before a specification),  *)
(*         "tv:NAME:VARIANCE", "nt:NAME", "val:TOKEN" (literal members)    *)
(*   sp    spelling: "typing" (typing.List, typing.Union, typing.Optional) *)
(*         "builtin" (list, int | str, collections.abc), "optional"        *)
(*   args  argument terms; a callable has its return type last; a type     *)
(*         variable has its bound ("cls:nobound" if none) and constraints  *)
(* Canon erases spellings, the order of unions and literals, nesting of    *)
(* unions and the identity of type variables and new types.  It is a       *)
(* uniform record so that TLC can compare any two of them.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Leaf(h) == [h |-> h, q |-> <<>>, s |-> {}]

RECURSIVE Canon(_)
Canon(t) ==
  LET qs == [i \in DOMAIN t.args |-> Canon(t.args[i])]
      members == {qs[i] : i \in DOMAIN qs}
      flat == UNION {IF m.h = "union" THEN m.s ELSE {m} : m \in members}
  IN CASE t.h = "union" ->
            IF Cardinality(flat) = 1 THEN CHOOSE m \in flat : TRUE
            ELSE [h |-> "union", q |-> <<>>, s |-> flat]
       [] t.h = "literal" -> [h |-> "literal", q |-> <<>>, s |-> members]
       (* a bare alias is the class it stands for                          *)
       [] Len(t.h) > 5 /\ SubSeq(t.h, 1, 5) = "bare:" ->
            Leaf("cls:" \o SubSeq(t.h, 6, Len(t.h)))
       [] OTHER -> [h |-> t.h, q |-> qs, s |-> {}]

SameType(a, b) == Canon(a) = Canon(b)

(* parameters [c, n, k, d, a] and signatures [c, ps, alts, r]; everything   *)
(* with the class c first: "req", "opt", "plain", "over"                   *)
CanonParameter(p) == [c |-> p.c, n |-> p.n, k |-> p.k, d |-> p.d,
                      a |-> Canon(p.a)]
CanonPlain(s) == [ps |-> [i \in DOMAIN s.ps |-> CanonParameter(s.ps[i])],
                  r |-> Canon(s.r)]
CanonObject(o) ==
  CASE o.c = "param" -> [c |-> "param", alts |-> <<[ps |-> <<CanonParameter(o.p)>>,
                                                    r |-> Leaf("none")]>>]
    [] OTHER -> [c |-> o.c, alts |-> [i \in DOMAIN o.alts |->
                                        CanonPlain(o.alts[i])]]
SameObject(a, b) == CanonObject(a) = CanonObject(b)
=============================================================================
