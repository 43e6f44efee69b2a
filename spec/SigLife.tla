------------------------------ MODULE SigLife ------------------------------
(***************************************************************************)
(* Life of a plain signature object: it is built, arguments are bound to   *)
(* it any number of times, it is copied, pickled or re-evaluated at any    *)
(* point, and it is asked about calls.  `cur` is the object; `accn`/`accK` *)
(* is what functools.partial would have accumulated.  The laws say that    *)
(* asking `cur` is asking the partial object.                              *)
(***************************************************************************)
EXTENDS Signature, Json

CONSTANTS Names, Foreign, MaxLen, MaxArgs, MaxBinds

VARIABLES orig, cur, accn, accK, binds

vars == <<orig, cur, accn, accK, binds>>

Param(nm, k, o) == [n |-> nm, k |-> k, o |-> o,
                    d |-> IF o = "O" /\ ~ IsVariadic(k) THEN "d" ELSE NoDefault,
                    a |-> "a"]
NameSeq == SetToSeq(Names)
Lists == UNION {{ [i \in 1..len |-> Param(NameSeq[i], ks[i], os[i])] :
                    ks \in [1..len -> Kinds], os \in [1..len -> {"R", "O"}] }
                : len \in 0..MaxLen}
LegalLists == {L \in Lists : LegalList(L)}
AllNames == Names \cup Foreign
Keywords == SUBSET AllNames

Init == /\ orig \in LegalLists /\ cur = orig /\ accn = 0 /\ accK = {}
        /\ binds = 0

Pairs(K) == LET s == SetToSeq(K) IN [i \in DOMAIN s |-> <<s[i], "v">>]

Forgot == Forgotten(orig, accn)

Bind(n, K) == /\ binds < MaxBinds
              /\ K \cap Forgot = {}
              /\ CanComplete(cur, n, K)
              /\ cur' = BindList(cur, n, Pairs(K))
              /\ accn' = accn + n /\ accK' = accK \cup K
              /\ binds' = binds + 1 /\ UNCHANGED orig

(* pickle, copy, deepcopy, evaluating the representation                   *)
RoundTrip == UNCHANGED vars

(* a rejected bind raises and leaves everything as it was                  *)
Reject(n, K) == ~ CanComplete(cur, n, K) /\ UNCHANGED vars

Next == \/ \E n \in 0..MaxArgs, K \in Keywords : Bind(n, K) \/ Reject(n, K)
        \/ RoundTrip
Spec == Init /\ [][Next]_vars

WellFormed == LegalList(cur)

AskedShapes == {<<n, K>> \in (0..MaxArgs) \X Keywords : K \cap Forgot = {}}
CallLaw == \A s \in AskedShapes :
             CanCall(cur, s[1], s[2]) <=> CanCall(orig, accn + s[1], accK \cup s[2])
CompletionLaw ==
  \A s \in AskedShapes :
     CanComplete(cur, s[1], s[2]) <=> Completable(orig, accn + s[1], accK \cup s[2])
(* order, names and annotations of what is left                            *)
OrderKept == LET kept == SelectSeq(orig, LAMBDA p : p.n \in NamesOf(cur))
             IN [i \in DOMAIN kept |-> <<kept[i].n, kept[i].a>>]
                = [i \in DOMAIN cur |-> <<cur[i].n, cur[i].a>>]
BoundValues == \A i \in DOMAIN cur : (IsKeyword(cur[i].k) /\ cur[i].n \in accK)
                  => cur[i].k = "KO" /\ cur[i].o = "O" /\ cur[i].d = "v"
(* partial application is associative: two binds are one                   *)
OneBind == (binds > 0 /\ accK \cap Forgotten(orig, accn) = {})
              => cur = BindList(orig, accn, Pairs(accK))
Shrinks == [][Len(cur') <= Len(cur)]_vars
=============================================================================
