----------------------------- MODULE SigTables -----------------------------
(***************************************************************************)
(* spec -> code: one line of JSON per legal parameter list of the bound,   *)
(* with what the specification says about every argument shape.  The       *)
(* driver replays the lines into real signatures (and into real Python     *)
(* functions, to keep the specification itself honest).                    *)
(***************************************************************************)
EXTENDS Signature, Json, IOUtils

CONSTANTS Names, Foreign, MinLen, MaxLen, MaxArgs, WithBinds

Param(nm, k, o) == [n |-> nm, k |-> k, o |-> o,
                    d |-> IF o = "O" /\ ~ IsVariadic(k) THEN "d_" \o nm
                          ELSE NoDefault,
                    a |-> "a_" \o nm]
NameSeq == SetToSeq(Names)
Lists == UNION {{ [i \in 1..len |-> Param(NameSeq[i], ks[i], os[i])] :
                    ks \in [1..len -> Kinds], os \in [1..len -> {"R", "O"}] }
                : len \in MinLen..MaxLen}
LegalLists == {L \in Lists : LegalList(L)}
Shapes == SetToSeq({<<n, SetToSeq(K)>> : n \in 0..MaxArgs,
                                         K \in SUBSET (Names \cup Foreign)})
Pairs(s) == [i \in DOMAIN s |-> <<s[i], "v_" \o s[i]>>]

Row(S) ==
  LET accepted == SelectSeq(Shapes, LAMBDA s : CanComplete(S, s[1], ToSet(s[2])))
  IN [ps |-> S,
      all |-> SelectSeq(Shapes, LAMBDA s : CanCall(S, s[1], ToSet(s[2]))),
      exp |-> accepted,
      bind |-> IF WithBinds
               THEN [i \in DOMAIN accepted |->
                      <<accepted[i][1], accepted[i][2],
                        BindList(S, accepted[i][1], Pairs(accepted[i][2]))>>]
               ELSE <<>>]

VARIABLE S
Init == S \in LegalLists
Next == UNCHANGED S
Spec == Init /\ [][Next]_S
Emit == PrintT("ROW " \o ToJson(Row(S)))
=============================================================================
