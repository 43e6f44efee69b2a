------------------------------ MODULE Respell ------------------------------
(***************************************************************************)
(* A game on annotation terms: Respell steps write the same type in        *)
(* another way, Change steps write another type.  TLC checks on every      *)
(* reachable term that respelling never changes Canon and that changing    *)
(* does, and prints the terms for the driver, which builds the real        *)
(* annotations and compares all of them with each other.                   *)
(***************************************************************************)
EXTENDS Types, Json

CONSTANTS Depth2   \* whether terms may have arguments with arguments

T(h, sp, args) == [h |-> h, sp |-> sp, args |-> args]
C(h) == T("cls:" \o h, "typing", <<>>)
Leaves == {C("int"), C("str"), C("none"),
           T("literal", "typing", <<T("val:a", "", <<>>), T("val:1", "", <<>>)>>),
           T("tv:T:inv", "", <<C("nobound")>>), T("tv:T:inv", "", <<C("int")>>),
           T("tv:T:co", "", <<C("nobound")>>), T("nt:N", "", <<C("int")>>), T("nt:O.N", "", <<C("int")>>),
           T("tv:T:inv", "", <<C("nobound"), C("int"), C("str")>>),
           T("bare:list", "typing", <<>>), T("bare:tuple", "builtin", <<>>)}
Over(S) ==
  {T("list", "typing", <<a>>) : a \in S}
  \cup {T("tuple", "typing", <<a>>) : a \in S}
  \cup {T("vartuple", "typing", <<a>>) : a \in S}
  \cup {T("type", "typing", <<C("int")>>), T("tuple", "typing", <<>>)}
  \cup {T("callable", "typing", <<C("str"), a>>) : a \in S}
  \cup {T("union", "typing", <<a, C("bytes")>>) : a \in S}
  \cup {T("dict", "typing", <<C("str"), a>>) : a \in S}
  \cup {T("iterable", "typing", <<a>>) : a \in S}
  \cup {T("user", "typing", <<a>>) : a \in S}
  \cup {T("anycall", "typing", <<a>>) : a \in S}
  \cup {T("annotated", "typing", <<a, T("val:none", "", <<>>)>>) : a \in S}
  \cup {T("annotated", "typing", <<a, C("none")>>) : a \in S}
  \cup {T("gen:" \o g, "typing", <<a>>) : a \in S, g \in {"set", "deque", "pattern"}}
  \cup {T("gen:mapping", "typing", <<a, C("int")>>) : a \in S}
  \cup {T("concat:P", "typing", <<C("str"), a>>) : a \in S}
Starts == Leaves \cup Over(Leaves)
          \cup (IF Depth2 THEN Over(Over({C("int"), C("none"),
                                          T("bare:list", "typing", <<>>)}))
                ELSE {})

VARIABLES term, origin, changed
vars == <<term, origin, changed>>
Init == term \in Starts /\ origin = term /\ changed = FALSE

Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Respellable == {"list", "dict", "tuple", "vartuple", "type", "iterable",
                "callable", "anycall", "bare:list", "bare:tuple", "gen:set",
                "gen:deque", "gen:pattern", "gen:mapping", "concat:P"}
Respelled(t) ==
  (IF t.h \in Respellable
   THEN {[t EXCEPT !.sp = IF t.sp = "typing" THEN "builtin" ELSE "typing"]}
   ELSE {})
  \cup (IF t.h = "union"
        THEN {[t EXCEPT !.sp = IF t.sp = "typing" THEN "builtin" ELSE "typing"],
              [t EXCEPT !.args = Reversed(t.args)],
              [t EXCEPT !.args = <<T("union", "typing", t.args), t.args[1]>>]}
        ELSE {})
  \cup (IF t.h = "literal" THEN {[t EXCEPT !.args = Reversed(t.args)]} ELSE {})
  (* inside arguments *)
  \cup UNION {{[t EXCEPT !.args[i] = a] :
                a \in IF t.args[i].h \in Respellable
                      THEN {[t.args[i] EXCEPT !.sp = "builtin"]}
                      ELSE IF t.args[i].h \in {"union", "literal"}
                           THEN {[t.args[i] EXCEPT !.args = Reversed(t.args[i].args)]}
                           ELSE {}} : i \in DOMAIN t.args}

Changed(t) ==
  {T("list", "typing", <<t>>)}
  \cup (IF t.h \in {"list", "iterable", "vartuple", "tuple", "anycall", "user"}
           /\ Len(t.args) = 1
        THEN {[t EXCEPT !.h = g] : g \in {"list", "iterable", "vartuple", "tuple"}
                                         \ {t.h}}
        ELSE {})
  \cup (IF t.h = "annotated"
        THEN {[t EXCEPT !.args = <<t.args[1], T("val:a", "", <<>>)>>],
              [t EXCEPT !.args = Append(t.args, T("val:a", "", <<>>))]}
        ELSE {})
  \cup (IF t.h \in {"callable", "dict"} /\ t.args[1] # t.args[2]
        THEN {[t EXCEPT !.args = Reversed(t.args)]} ELSE {})
  \cup (IF t.h = "callable" THEN {[t EXCEPT !.args = Tail(t.args)]} ELSE {})
  \cup (IF t.h = "union" /\ Len(t.args) = 2
        THEN {[t EXCEPT !.args = Append(t.args, C("float"))]} ELSE {})
  \cup (IF t.h = "literal"
        THEN {[t EXCEPT !.args = <<t.args[1]>>],
              [t EXCEPT !.args = <<T("val:a", "", <<>>), T("val:true", "", <<>>)>>]}
        ELSE {})

Next == \/ ~ changed /\ term = origin /\ term' \in Respelled(term)
                     /\ UNCHANGED <<origin, changed>>
        \/ ~ changed /\ term' \in Changed(term) /\ changed' = TRUE
                     /\ UNCHANGED origin
Spec == Init /\ [][Next]_vars

RespellKeeps == ~ changed => SameType(term, origin)
ChangeChanges == [][(changed' /\ ~ changed) => ~ SameType(term', term)]_vars
Emit == PrintT("ROW " \o ToJson([term |-> term, canon |-> Canon(term)]))
=============================================================================
