------------------------------- MODULE PyCall ------------------------------
(***************************************************************************)
(* CPython's argument binding (initialize_locals) as a machine: positional *)
(* arguments go to slots, the surplus to *args or an error; every keyword  *)
(* looks for a keyword-capable slot, then for **kwargs, and must not meet  *)
(* a filled slot; finally defaults are filled in and missing arguments     *)
(* raise.  TLC explores every legal parameter list and argument shape of   *)
(* the bound and checks that the machine always ends with the outcome that *)
(* Signature!CanCall predicts.                                             *)
(***************************************************************************)
EXTENDS Signature

CONSTANTS Names, Foreign, MaxLen, MaxArgs

VARIABLES S, n, K,            \* the call
          slots,              \* names filled so far
          pending,            \* keywords not yet looked at
          pc, outcome

vars == <<S, n, K, slots, pending, pc, outcome>>

Param(nm, k, o) == [n |-> nm, k |-> k, o |-> o,
                    d |-> IF o = "O" /\ ~ IsVariadic(k) THEN "d" ELSE NoDefault,
                    a |-> "a"]

(* names are given in one fixed order: binding does not depend on it       *)
NameSeq == SetToSeq(Names)
Lists == UNION {{ [i \in 1..len |-> Param(NameSeq[i], ks[i], os[i])] :
                    ks \in [1..len -> Kinds], os \in [1..len -> {"R", "O"}] }
                : len \in 0..MaxLen}
LegalLists == {L \in Lists : LegalList(L)}

Init == /\ S \in LegalLists /\ n \in 0..MaxArgs /\ K \in SUBSET (Names \cup Foreign)
        /\ slots = {} /\ pending = K /\ pc = "positional" /\ outcome = "?"

Fail(why) == pc' = "done" /\ outcome' = why /\ UNCHANGED <<S, n, K, slots, pending>>

PlacePositionals ==
  /\ pc = "positional"
  /\ IF n > Len(Positionals(S)) /\ ~ HasKind(S, "VP")
     THEN Fail("too many")
     ELSE /\ slots' = {Positionals(S)[i].n : i \in 1..Least(n, Len(Positionals(S)))}
          /\ pc' = "keywords" /\ UNCHANGED <<S, n, K, pending, outcome>>

PlaceKeyword(k) ==
  /\ pc = "keywords" /\ k \in pending
  /\ IF \E i \in DOMAIN S : IsKeyword(S[i].k) /\ S[i].n = k
     THEN IF k \in slots THEN Fail("multiple values")
          ELSE /\ slots' = slots \cup {k} /\ pending' = pending \ {k}
               /\ UNCHANGED <<S, n, K, pc, outcome>>
     ELSE IF HasKind(S, "VK")
          THEN pending' = pending \ {k} /\ UNCHANGED <<S, n, K, slots, pc, outcome>>
          ELSE Fail("unexpected keyword")

FillDefaults ==
  /\ pc = "keywords" /\ pending = {}
  /\ IF \E i \in DOMAIN S : S[i].o = "R" /\ S[i].n \notin slots
     THEN Fail("missing") ELSE Fail("ok")

Next == PlacePositionals \/ (\E k \in pending : PlaceKeyword(k)) \/ FillDefaults
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == pc \in {"positional", "keywords", "done"}
Agrees == pc = "done" => ((outcome = "ok") <=> CanCall(S, n, K))
ClosedForm == pc = "done" => (Completable(S, n, K) <=> CanComplete(S, n, K))
CallsAreExpected == CanCall(S, n, K) => CanComplete(S, n, K)
Terminates == <>(pc = "done")
=============================================================================
