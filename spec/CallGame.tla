------------------------------ MODULE CallGame ------------------------------
(***************************************************************************)
(* Enumerates hierarchies of user classes whose members are defined or not *)
(* in every way, and wraps what they offer into partials.  Checked: the    *)
(* signature that Callables gives to an expression accepts exactly the     *)
(* calls that reach the function underneath successfully (RepLaw), and is  *)
(* missing exactly when no call can succeed (MissingLaw).  Emit prints the *)
(* rows which the driver replays into real classes.                        *)
(***************************************************************************)
EXTENDS Callables, Json

CONSTANTS NClasses, Member, Depth, MaxArgs, Keywords, MaxBinds

Req(nm, k) == [n |-> nm, k |-> k, o |-> "R", d |-> NoDefault, a |-> "a_int"]
Opt(nm, k) == [n |-> nm, k |-> k, o |-> "O", d |-> "v_0", a |-> "a_str"]
Var(nm, k) == [n |-> nm, k |-> k, o |-> "O", d |-> NoDefault, a |-> "a_any"]

(* one parameter list per class, different enough to be told apart          *)
Functions == <<
  [ps |-> <<Req("s", "PK"), Req("x", "PK"), Opt("y", "PK")>>, r |-> "a_int"],
  [ps |-> <<Req("s", "PO"), Opt("x", "PO"), Req("y", "KO"), Var("kw", "VK")>>,
   r |-> "a_str"],
  [ps |-> <<Var("va", "VP"), Opt("x", "KO")>>, r |-> "a_none"],
  [ps |-> <<Req("s", "PK"), Var("va", "VP"), Opt("y", "KO"), Var("kw", "VK")>>,
   r |-> "a_any"] >>

(* orders of distinct earlier classes                                       *)
Bases(c) == {b \in UNION {[1..k -> 1..(c - 1)] : k \in 0..Least(c - 1, 3)} :
               \A i, j \in DOMAIN b : i # j => b[i] # b[j]}
Sorts == IF Member \in {"__init__", "__new__"} THEN {"none", "func"}
         ELSE {"none", "func", "static", "classm"}
Members(c, sort) == IF sort = "none" THEN <<>>
                    ELSE <<[name |-> Member, sort |-> sort, f |-> c]>>

RECURSIVE Hierarchies(_)
Hierarchies(k) ==
  IF k = 0 THEN {<<>>}
  ELSE {Append(h, [bases |-> b, ms |-> Members(k, sort)]) :
          h \in Hierarchies(k - 1), b \in Bases(k), sort \in Sorts}

Program(h) == [fs |-> Functions, cs |-> h]
Legal(h) == \A c \in DOMAIN h : Mro(Program(h), c).ok

KeywordSeq == SetToSeq(Keywords)
Kept(K) == SelectSeq(KeywordSeq, LAMBDA k : k \in K)
Pairs(K) == LET s == Kept(K) IN [i \in DOMAIN s |-> <<s[i], "v_1">>]

VARIABLES P, x, binds
vars == <<P, x, binds>>

Top == NClasses
Starts(h) ==
  IF Member \in {"__init__", "__new__"} THEN {[e |-> "class", c |-> Top]}
  ELSE IF Lookup(Program(h), Top, Member).sort = "none"
       THEN {}
       ELSE {[e |-> "get", c |-> Top, how |-> how, m |-> Member] :
               how \in {"class", "inst"}}

Init == \E h \in Hierarchies(NClasses) :
          /\ Legal(h) /\ P = Program(h) /\ binds = 0
          /\ x \in Starts(h)
Wrap(n, K) == /\ binds < MaxBinds
              /\ K \cap ForgottenBy(P, x) = {}
              /\ x' = [e |-> "part", x |-> x, n |-> n, kv |-> Pairs(K)]
              /\ binds' = binds + 1 /\ UNCHANGED P
Next == \E n \in 0..2, K \in SUBSET Keywords : Wrap(n, K)
Spec == Init /\ [][Next]_vars

Shapes == {<<n, K>> \in (0..MaxArgs) \X SUBSET Keywords :
             K \cap ForgottenBy(P, x) = {}}
RepLaw == Rep(P, x).ok =>
            \A s \in Shapes : CanCall(Rep(P, x).sig.ps, s[1], s[2])
                                <=> Calls(P, x, s[1], s[2])
MissingLaw == ~ Rep(P, x).ok =>
                \A s \in Shapes : ~ Calls(P, x, s[1], s[2])
Lawful == Rep(P, x).ok => LegalList(Rep(P, x).sig.ps)
(* linearisation: bases in order, subclasses before their bases             *)
MroLaw == \A c \in DOMAIN P.cs : LET o == Mro(P, c).order IN
            \A i, j \in DOMAIN o : i < j =>
              /\ \A a \in DOMAIN P.cs[o[j]].bases : P.cs[o[j]].bases[a] # o[i]
              /\ o[i] # o[j]
Emit == PrintT("ROW " \o ToJson([cs |-> P.cs, x |-> x, rep |-> Rep(P, x)]))
=============================================================================
