------------------------------ MODULE LifeGame ------------------------------
(***************************************************************************)
(* Enumerates the histories of a small program whose functions, classes    *)
(* and members change between questions.  Answers may be kept by whoever   *)
(* gives them (Policy):                                                    *)
(*   "none"       nothing is kept                                          *)
(*   "object"     answers are kept by the identity of the callable asked   *)
(*   "function"   answers are kept by what they are made of: the function  *)
(*                reached and how many arguments are bound                 *)
(*   "validated"  as "function", and used again only if the function still *)
(*                is what it was                                           *)
(* Fresh: the answer is the one for the program as it is.  Histories found *)
(* with Policy "none" are printed for the driver.                          *)
(***************************************************************************)
EXTENDS Life, Json

CONSTANTS Policy, Length, Part, Parts

Req(nm, k) == [n |-> nm, k |-> k, o |-> "R", d |-> NoDefault, a |-> "a_int"]
Opt(nm, k) == [n |-> nm, k |-> k, o |-> "O", d |-> "v_0", a |-> "a_str"]
Var(nm, k) == [n |-> nm, k |-> k, o |-> "O", d |-> NoDefault, a |-> "a_any"]

Terms == <<
  [ps |-> <<Req("s", "PK"), Req("x", "PK"), Opt("y", "PK")>>, r |-> "a_int"],
  [ps |-> <<Req("s", "PO"), Opt("x", "PO"), Req("y", "KO"), Var("kw", "VK")>>,
   r |-> "a_str"],
  [ps |-> <<Var("va", "VP"), Opt("x", "KO")>>, r |-> "a_none"],
  [ps |-> <<Req("s", "PK"), Opt("x", "PK"), Opt("y", "PK")>>, r |-> "a_any"] >>

Start ==
  [fs |-> [f \in 1..4 |-> Fn(Terms[f])],
   cs |-> << [bases |-> <<>>, ms |-> <<[name |-> "m", sort |-> "func", f |-> 3],
                                       [name |-> "__init__", sort |-> "func",
                                        f |-> 4]>>],
             [bases |-> <<1>>, ms |-> <<>>],
             [bases |-> <<>>, ms |-> <<[name |-> "m", sort |-> "static", f |-> 1],
                                       [name |-> "__init__", sort |-> "func",
                                        f |-> 1]>>] >>]

Func(f) == [e |-> "func", f |-> f]
Class(c) == [e |-> "class", c |-> c]
Get(c, how) == [e |-> "get", c |-> c, how |-> how, m |-> "m"]
Partial(x, n) == [e |-> "part", x |-> x, n |-> n, kv |-> <<>>]

(* what is asked after every change                                         *)
Asked == <<Func(1), Func(3), Class(1), Class(2), Get(2, "class"), Get(2, "inst"),
           Get(1, "inst"), Get(3, "inst"), Partial(Func(1), 1),
           Partial(Class(2), 1), Partial(Get(2, "inst"), 1)>>
(* what is kept from the start                                              *)
Kept == <<Get(2, "inst"), Partial(Func(1), 1), Partial(Class(2), 1),
          Get(3, "inst")>>

Actions ==
  {[op |-> "redefine", f |-> f, to |-> to] : f \in {1, 3, 4}, to \in DOMAIN Terms}
  \cup {[op |-> "wrap", f |-> p[1], g |-> p[2]] : p \in {<<1, 2>>, <<3, 2>>, <<3, 1>>,
                                                         <<4, 1>>, <<2, 4>>}}
  \cup {[op |-> "unwrap", f |-> f] : f \in {1, 3, 4}}
  \cup {[op |-> "set", c |-> c, name |-> "m", sort |-> sort, f |-> f] :
          c \in {1, 2}, sort \in {"func", "static", "classm"}, f \in {1, 2}}
  \cup {[op |-> "set", c |-> c, name |-> "__init__", sort |-> "func", f |-> f] :
          c \in {1, 2}, f \in {1, 3}}
  \cup {[op |-> "del", c |-> c, name |-> name] :
          c \in {1, 2}, name \in {"m", "__init__"}}
  \cup {[op |-> "rebase", c |-> 2, bases |-> b] :
          b \in {<<1>>, <<3>>, <<1, 3>>, <<3, 1>>}}

Do(P, a) ==
  CASE a.op = "redefine" -> Redefine(P, a.f, Terms[a.to])
    [] a.op = "wrap" -> Wrap(P, a.f, a.g)
    [] a.op = "unwrap" -> Wrap(P, a.f, None)
    [] a.op = "set" -> SetMember(P, a.c, [name |-> a.name, sort |-> a.sort,
                                          f |-> a.f])
    [] a.op = "del" -> DelMember(P, a.c, a.name)
    [] a.op = "rebase" -> Rebase(P, a.c, a.bases)

Allowed(P, a) ==
  CASE a.op = "wrap" -> P.fs[a.f].of = None /\ ~ Reaches(P, a.g, a.f)
    [] a.op = "unwrap" -> P.fs[a.f].of # None
    [] a.op = "del" -> Own(P, a.c, a.name) # None
    [] a.op = "rebase" -> P.cs[a.c].bases # a.bases /\ Legal(Rebase(P, a.c, a.bases))
    [] a.op = "redefine" -> P.fs[a.f].ps # Terms[a.to].ps
    [] OTHER -> TRUE

VARIABLES P, held, memo, done
vars == <<P, held, memo, done>>

Questions(Q) == {x \in ToSet(Asked) \cup {held[i] : i \in DOMAIN held} : Exists(Q, x)}

(* ------------------------------------------------------ remembered answers *)
RECURSIVE Constructs(_)
Constructs(x) == CASE x.e = "class" -> TRUE
                   [] x.e = "part" -> Constructs(x.x)
                   [] OTHER -> FALSE
Where(Q, x) == Target(Eff(Q), Denote(Q, x))
Key(Q, x) == CASE Policy = "object" -> [x |-> x]
               [] OTHER -> [t |-> Where(Q, x), r |-> Constructs(x)]
Depends(Q, x) == IF Policy # "validated" THEN <<>>
                 ELSE <<Where(Q, x).f = None,
                        IF Where(Q, x).f = None THEN Fn(Terms[1])
                        ELSE Eff(Q).fs[Where(Q, x).f]>>
Lookup2(Q, m, x) == {e \in m : e.key = Key(Q, x) /\ e.on = Depends(Q, x)}
Answer(Q, m, x) == IF Policy = "none" \/ Lookup2(Q, m, x) = {} THEN Rep(Eff(Q), x)
                   ELSE (CHOOSE e \in Lookup2(Q, m, x) : TRUE).rep
Remember(Q, m) ==
  IF Policy = "none" THEN {}
  ELSE LET new == {x \in Questions(Q) : Lookup2(Q, m, x) = {}}
       IN m \cup {[key |-> Key(Q, x), on |-> Depends(Q, x), rep |-> Rep(Eff(Q), x)] :
                    x \in new}

Init == /\ P = Start /\ done = <<>>
        /\ held = [i \in DOMAIN Kept |-> Denote(Start, Kept[i])]
        /\ memo = Remember(Start, {})
Next == \E a \in Actions :
          /\ Len(done) < Length /\ Allowed(P, a)
          /\ P' = Do(P, a) /\ done' = Append(done, a) /\ UNCHANGED held
          /\ memo' = Remember(Do(P, a), memo)
Spec == Init /\ [][Next]_vars

Fresh == \A x \in Questions(P) : Answer(P, memo, x) = Rep(Eff(P), x)
(* what is kept denotes the same thing however the program changes, and     *)
(* names of attributes are all that asking anew adds                        *)
Steady == \A i \in DOMAIN held : Denote(P, held[i]) = held[i]
Coherent == \A x \in Questions(P) : Rep(Eff(P), x) = Rep(Eff(P), Denote(P, x))
Legality == Legal(P)

(* ------------------------------------------------------------- printing    *)
Number(a) == (IF "f" \in DOMAIN a THEN a.f * 3 ELSE 0)
             + (IF "c" \in DOMAIN a THEN a.c * 7 ELSE 0)
             + (IF "to" \in DOMAIN a THEN a.to * 5 ELSE 0)
             + (IF "g" \in DOMAIN a THEN a.g * 11 ELSE 0)
             + (CASE a.op = "redefine" -> 1 [] a.op = "wrap" -> 2
                  [] a.op = "unwrap" -> 3 [] a.op = "set" -> 4
                  [] a.op = "del" -> 5 [] OTHER -> 6)
Hash == FoldLeft(LAMBDA acc, a : (acc * 31 + Number(a)) % 1000003, 7, done)
ReportOf(x) == IF Exists(P, x) THEN Rep(Eff(P), x)
               ELSE [ok |-> FALSE, sig |-> [ps |-> <<>>, r |-> "absent"]]
Emit == (Len(done) = Length /\ Hash % Parts = Part) =>
          PrintT("HISTORY " \o ToJson(
            [done |-> done,
             asked |-> [i \in DOMAIN Asked |-> ReportOf(Asked[i])],
             held |-> [i \in DOMAIN held |-> ReportOf(held[i])]]))
World == PrintT("WORLD " \o ToJson([fs |-> Start.fs, cs |-> Start.cs, terms |-> Terms,
                                    asked |-> Asked, kept |-> Kept]))
Once == done = <<>> => World
=============================================================================
