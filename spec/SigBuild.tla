----------------------------- MODULE SigBuild ------------------------------
(***************************************************************************)
(* The grammar of Python parameter lists as a machine that writes a        *)
(* definition left to right, the way the parser reads it.  Independent of  *)
(* Signature!LegalList; TLC checks that exactly the legal lists are        *)
(* written (Sound: every written list is legal; Complete: every legal list *)
(* extends to ... by one legal step, see Extendable).                      *)
(***************************************************************************)
EXTENDS Signature, Json, IOUtils

CONSTANTS Names, MaxLen, EmitPath

VARIABLES written, phase

vars == <<written, phase>>

(* phase: what the parser has seen last                                    *)
Init == written = <<>> /\ phase = "po"

Param(n, k, o) == [n |-> n, k |-> k, o |-> o,
                   d |-> IF o = "O" /\ ~ IsVariadic(k) THEN "d" ELSE NoDefault,
                   a |-> "a"]
Fresh(n) == n \notin NamesOf(written)
Room == Len(written) < MaxLen
Write(p, next) == written' = Append(written, p) /\ phase' = next

(* positional parameters without default, positional-only before "/"       *)
PosReq(n) == Room /\ Fresh(n) /\ \/ phase = "po" /\ Write(Param(n, "PO", "R"), "po")
                                 \/ phase \in {"po", "pk"}
                                      /\ Write(Param(n, "PK", "R"), "pk")
(* once one has a default all following positional ones have               *)
PosOpt(n) == Room /\ Fresh(n) /\ \/ phase \in {"po", "pod"}
                                      /\ Write(Param(n, "PO", "O"), "pod")
                                 \/ phase \in {"po", "pod", "pk", "pkd"}
                                      /\ Write(Param(n, "PK", "O"), "pkd")
StarArgs(n) == Room /\ Fresh(n) /\ phase \in {"po", "pod", "pk", "pkd"}
               /\ Write(Param(n, "VP", "O"), "ko")
KeywordOnly(n) == Room /\ Fresh(n) /\ phase # "end"
                  /\ \E o \in {"R", "O"} : Write(Param(n, "KO", o), "ko")
StarStar(n) == Room /\ Fresh(n) /\ phase # "end" /\ Write(Param(n, "VK", "O"), "end")

Next == \E n \in Names : \/ PosReq(n) \/ PosOpt(n) \/ StarArgs(n)
                         \/ KeywordOnly(n) \/ StarStar(n)
Spec == Init /\ [][Next]_vars

Sound == LegalList(written)

(* every parameter whose addition keeps the list legal can be written next *)
AllParams == {Param(n, k, o) : n \in Names, k \in Kinds, o \in {"R", "O"}}
Complete ==
  Room => \A p \in AllParams :
            LegalList(Append(written, p)) <=>
              \/ p.k = "VP" /\ p.o = "O" /\ ENABLED StarArgs(p.n)
              \/ p.k = "VK" /\ p.o = "O" /\ ENABLED StarStar(p.n)
              \/ p.k = "KO" /\ ENABLED KeywordOnly(p.n)
              \/ /\ p.k = "PO" /\ Fresh(p.n)
                 /\ phase \in (IF p.o = "R" THEN {"po"} ELSE {"po", "pod"})
              \/ /\ p.k = "PK" /\ Fresh(p.n)
                 /\ phase \in (IF p.o = "R" THEN {"po", "pk"}
                               ELSE {"po", "pod", "pk", "pkd"})
=============================================================================
