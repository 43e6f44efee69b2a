----------------------------- MODULE Callables -----------------------------
(***************************************************************************)
(* Callables of user code: functions, classes with members in a hierarchy, *)
(* attributes reached through classes and instances, partial applications. *)
(*                                                                         *)
(* A program P is a record                                                 *)
(*   fs  sequence of functions, each [ps, r] (Signature.tla)               *)
(*   cs  sequence of classes, each [bases, ms]: indexes of the bases and a *)
(*       sequence of members [name, sort, f], sort "func", "static" or     *)
(*       "classm", f the index of the function                             *)
(* Expressions that denote callables:                                      *)
(*   [e |-> "func", f]           the function itself                       *)
(*   [e |-> "class", c]          the class, called to construct            *)
(*   [e |-> "get", c, how, m]    attribute m of the class ("class"), of an *)
(*                               instance ("inst")                         *)
(*   [e |-> "part", x, n, kv]    functools.partial of x                    *)
(***************************************************************************)
EXTENDS Signature

None == 0

(* ------------------------------------------------ method resolution order *)
Heads(seqs) == [i \in DOMAIN seqs |-> Head(seqs[i])]
NonEmpty(seqs) == SelectSeq(seqs, LAMBDA s : Len(s) > 0)
InTail(c, s) == \E j \in 2..Len(s) : s[j] = c
Without(seqs, c) == [i \in DOMAIN seqs |-> SelectSeq(seqs[i], LAMBDA x : x # c)]

(* <<FALSE, ...>> when there is no consistent order (Python: TypeError)     *)
RECURSIVE Merge(_)
Merge(sequences) ==
  LET seqs == NonEmpty(sequences)
      good == {i \in DOMAIN seqs : \A j \in DOMAIN seqs :
                                      ~ InTail(Head(seqs[i]), seqs[j])}
  IN IF seqs = <<>> THEN [ok |-> TRUE, order |-> <<>>]
     ELSE IF good = {} THEN [ok |-> FALSE, order |-> <<>>]
     ELSE LET i == CHOOSE i \in good : \A j \in good : i <= j
              c == Head(seqs[i])
              rest == Merge(Without(seqs, c))
          IN [ok |-> rest.ok, order |-> <<c>> \o rest.order]

RECURSIVE Mro(_, _)
Mro(P, c) ==
  LET bases == P.cs[c].bases
      orders == [i \in DOMAIN bases |-> Mro(P, bases[i])]
      merged == Merge([i \in DOMAIN orders |-> orders[i].order]
                      \o (IF bases = <<>> THEN <<>> ELSE <<bases>>))
  IN [ok |-> merged.ok /\ (\A i \in DOMAIN orders : orders[i].ok)
             /\ (\A i, j \in DOMAIN bases : i # j => bases[i] # bases[j]),
      order |-> <<c>> \o merged.order]

Own(P, c, name) ==
  LET found == {i \in DOMAIN P.cs[c].ms : P.cs[c].ms[i].name = name}
  IN IF found = {} THEN None
     ELSE CHOOSE i \in found : \A j \in found : j <= i

(* the member found for the attribute, [sort |-> "none"] if there is none   *)
Lookup(P, c, name) ==
  LET order == Mro(P, c).order
      owners == {i \in DOMAIN order : Own(P, order[i], name) # None}
  IN IF owners = {} THEN [name |-> name, sort |-> "none", f |-> None]
     ELSE LET i == CHOOSE i \in owners : \A j \in owners : i <= j
          IN P.cs[order[i]].ms[Own(P, order[i], name)]

(* what constructs instances: the nearest __new__ or __init__               *)
Builder(P, c) ==
  LET order == Mro(P, c).order
      Has(i) == Own(P, order[i], "__new__") # None
                \/ Own(P, order[i], "__init__") # None
      owners == {i \in DOMAIN order : Has(i)}
  IN IF owners = {} THEN [name |-> "", sort |-> "none", f |-> None]
     ELSE LET i == CHOOSE i \in owners : \A j \in owners : i <= j
              k == order[i]
          IN IF Own(P, k, "__new__") # None
             THEN P.cs[k].ms[Own(P, k, "__new__")]
             ELSE P.cs[k].ms[Own(P, k, "__init__")]

(* whether the receiver is passed: __new__ is static without saying so       *)
Receives(m, how) == \/ m.sort = "classm"
                    \/ m.sort = "func" /\ how = "inst" /\ m.name # "__new__"

(* ------------------------------------------------- what calling x does     *)
(* the call reaches function f with `extra` more leading arguments; f None  *)
(* stands for the constructor of object                                     *)
RECURSIVE Target(_, _)
Target(P, x) ==
  CASE x.e = "func" -> [f |-> x.f, n |-> 0, K |-> {}]
    [] x.e = "class" -> [f |-> Builder(P, x.c).f, n |-> 1, K |-> {}]
    [] x.e = "get" ->
         LET m == Lookup(P, x.c, x.m)
         IN [f |-> m.f, K |-> {},
             n |-> IF Receives(m, x.how) THEN 1 ELSE 0]
    [] x.e = "part" ->
         LET inner == Target(P, x.x)
         IN [f |-> inner.f, n |-> inner.n + x.n,
             K |-> inner.K \cup PairNames(x.kv)]

ObjectList == <<[n |-> "self", k |-> "PO", o |-> "R", d |-> NoDefault,
                 a |-> "a_self"]>>
TargetList(P, x) == LET f == Target(P, x).f
                    IN IF f = None THEN ObjectList ELSE P.fs[f].ps

Calls(P, x, n, K) ==
  LET target == Target(P, x)
  IN CanCall(TargetList(P, x), target.n + n, target.K \cup K)

(* keywords Python rejects because a parameter of that name is filled       *)
(* already although **kwargs would take them: signatures do not know them   *)
ForgottenBy(P, x) == Forgotten(TargetList(P, x), Target(P, x).n)

(* ------------------------------------------------- what signature x has    *)
RECURSIVE Rep(_, _)
Rep(P, x) ==
  CASE x.e = "func" -> [ok |-> TRUE, sig |-> P.fs[x.f]]
    [] x.e = "class" ->
         LET f == Builder(P, x.c).f
             built == f = None \/ CanComplete(P.fs[f].ps, 1, {})
         IN [ok |-> built,
             sig |-> [ps |-> IF f = None \/ ~ built THEN <<>>
                             ELSE BindList(P.fs[f].ps, 1, <<>>),
                      r |-> "a_self"]]
    [] x.e = "get" ->
         LET m == Lookup(P, x.c, x.m)
             bound == Receives(m, x.how)
             sig == P.fs[m.f]
         IN [ok |-> bound => CanComplete(sig.ps, 1, {}),
             sig |-> IF bound THEN BindPlain(sig, 1, <<>>) ELSE sig]
    [] x.e = "part" ->
         LET inner == Rep(P, x.x)
             fits == inner.ok /\ CanComplete(inner.sig.ps, x.n, PairNames(x.kv))
         IN [ok |-> fits,
             sig |-> IF fits THEN BindPlain(inner.sig, x.n, x.kv)
                     ELSE inner.sig]
=============================================================================
