------------------------------ MODULE StubGame ------------------------------
(***************************************************************************)
(* Small worlds of stubs whose modules take names from each other in every *)
(* way, cycles included, and a machine that finds out what the names mean  *)
(* by propagating definitions along imports, star imports and aliases, one *)
(* name at a time in any order, until nothing changes.                     *)
(*                                                                         *)
(* TLC checks that the machine always ends, that every order ends in the   *)
(* same meanings, and that they are the ones Stubs!InModule gives by       *)
(* following names backwards; that branches not taken mean nothing; and    *)
(* prints the worlds for the driver.                                       *)
(*                                                                         *)
(* Game = "names": functions, imports, stars, aliases                      *)
(* Game = "bases": a class per module, with bases in other modules         *)
(***************************************************************************)
EXTENDS Stubs, Json

CONSTANTS Game, Names, Size, Emitting, Part, Parts

Mods == {"a", "b", "c"}
ModsUsed == IF Cardinality(Names) = 1 \/ Game = "bases" THEN Mods ELSE {"a", "b"}

(* ------------------------------------------------------------ statements *)
N(path) == [e |-> "name", p |-> path]
P(n, o) == [n |-> n, k |-> "PO", o |-> o, d |-> "-", a |-> Nil]
Def(m, n) == [k |-> "def", n |-> n, ps |-> <<P(m \o "_" \o n, "R")>>, r |-> Nil,
              dec |-> <<>>]
From(x, of, n) == [k |-> "from", n |-> n, of |-> of, lv |-> 0, m |-> <<x>>]
Star(x) == [k |-> "star", n |-> "", lv |-> 0, m |-> <<x>>]
Alias(n, v) == [k |-> "assign", n |-> n, v |-> N(<<v>>)]
Attr(n, x, v) == [k |-> "assign", n |-> n, v |-> N(<<x, v>>)]
Import(x) == [k |-> "import", n |-> x, m |-> x, as |-> "F"]
Method(m, n) == [k |-> "def", n |-> n,
                 ps |-> <<P("self", "R"), P(m \o "_" \o n, "R")>>, r |-> Nil,
                 dec |-> <<>>]

(* a choice is a short sequence of statements                               *)
NameChoices(m) ==
  LET others == ModsUsed \ {m}
  IN {<<Def(m, n)>> : n \in Names}
     \cup {<<From(x, of, n)>> : x \in others, of \in Names, n \in Names}
     \cup {<<Star(x)>> : x \in others}
     \cup {<<Alias(p[1], p[2])>> : p \in {q \in Names \X Names : q[1] # q[2]}}
     \cup {<<Import(x), Attr(n, x, v)>> : x \in others, n \in Names, v \in Names}
Sequences(S, k) == UNION {[1..i -> S] : i \in 0..k}
(* no name is bound twice in a module, and stars come before other bindings *)
Tidy(b) == /\ \A i, j \in DOMAIN b : i < j => /\ b[i].n # b[j].n \/ b[i].k = "star"
                                              /\ b[j].k = "star" => b[i].k = "star"
           /\ \A i, j \in DOMAIN b : b[i].k = "star" /\ b[j].k = "star" /\ i # j
                                     => b[i].m # b[j].m
NameBodies(m) == {b \in {FlattenSeq(s) : s \in Sequences(NameChoices(m), Size)}
                  : Tidy(b)}

K(m) == "K" \o m
ClassBodies(m) ==
  LET others == Mods \ {m}
      members == {<<>>, <<Method(m, "h")>>, <<Method(m, "__init__")>>,
                  <<Method(m, "h"), Method(m, "__init__")>>}
      Class(bases, ms) == [k |-> "class", n |-> K(m), b |-> bases, body |-> ms]
      One(x) == {<< <<From(x, K(x), K(x))>>, N(<<K(x)>>) >>,
                 << <<From(x, K(x), "L" \o x)>>, N(<<"L" \o x>>) >>,
                 << <<Star(x)>>, N(<<K(x)>>) >>,
                 << <<Import(x)>>, N(<<x, K(x)>>) >>,
                 << <<From(x, K(x), K(x)), Alias("A" \o x, K(x))>>, N(<<"A" \o x>>) >>}
      heads == { << <<>>, <<>> >> }
               \cup {<<o[1], <<o[2]>> >> : o \in UNION {One(x) : x \in others}}
               \cup {<<p[1][1] \o p[2][1], <<p[1][2], p[2][2]>> >> :
                       p \in UNION {One(x) \X One(y) : x \in others, y \in others}}
      plain == {<<>>}
      lawful == {g \in heads : Tidy(g[1]) /\ \A i, j \in DOMAIN g[2] :
                                                i # j => g[2][i] # g[2][j]}
      used == IF m = "a" THEN lawful
              ELSE IF m = "b" THEN {g \in lawful : Len(g[2]) <= 1}
              ELSE {g \in lawful : Len(g[2]) <= 1 /\ Len(g[1]) <= 1
                                   /\ \A i \in DOMAIN g[1] : g[1][i].k # "import"}
  IN {g[1] \o <<Class(g[2], ms)>> : g \in used, ms \in members}
Bodies == [m \in ModsUsed |->
             SetToSeq(IF Game = "names" THEN NameBodies(m) ELSE ClassBodies(m))]
Builtins == [p |-> <<"builtins">>, pkg |-> "F",
             b |-> <<[k |-> "class", n |-> "object", b |-> <<>>, body |-> <<>>]>>]
Module(m, i) == [p |-> <<m>>, pkg |-> "F", b |-> Bodies[m][i]]
VARIABLES w, ns
vars == <<w, ns>>

(* --------------------------------------------------------------- machine *)
Asked == IF Game = "names" THEN Names
         ELSE UNION {{K(m), "L" \o m, "A" \o m} : m \in Mods}
Lookup(x, n) == IF x \in DOMAIN ns /\ n \in DOMAIN ns[x] THEN ns[x][n] ELSE NotFound
(* what the module says about the name, given what is known so far          *)
Said(m, n) ==
  LET b == w[m].b
      own == Binding(b, n)
      stars == {i \in DOMAIN b : b[i].k = "star" /\ Lookup(b[i].m[1], n) # NotFound}
  IN IF own = {}
     THEN IF stars = {} THEN NotFound ELSE Lookup(b[LastOf(stars)].m[1], n)
     ELSE LET s == b[LastOf(own)]
          IN CASE s.k \in {"def", "class"} -> Loc(m, <<n>>)
               [] s.k = "from" -> Lookup(s.m[1], s.of)
               [] s.k = "assign" -> IF Len(s.v.p) = 1 THEN Lookup(m, s.v.p[1])
                                    ELSE Lookup(s.v.p[1], s.v.p[2])
Third == IF "c" \in ModsUsed THEN DOMAIN Bodies["c"] ELSE {1}
Init == /\ \E i \in DOMAIN Bodies["a"], j \in DOMAIN Bodies["b"], k \in Third :
             /\ (i + 5 * j + 23 * k) % Parts = Part
             /\ w = ("builtins" :> Builtins) @@ [m \in ModsUsed |->
                       Module(m, CASE m = "a" -> i [] m = "b" -> j [] m = "c" -> k)]
        /\ ns = [m \in ModsUsed |-> [n \in Asked |-> NotFound]]
Learn(m, n) == /\ Said(m, n) # ns[m][n]
               /\ ns' = [ns EXCEPT ![m][n] = Said(m, n)]
               /\ UNCHANGED w
Next == \E m \in ModsUsed, n \in Asked : Learn(m, n)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Quiet == \A m \in ModsUsed, n \in Asked : Said(m, n) = ns[m][n]
Meaning(m, n) == LET e == InModule(w, m, n, {})
                 IN IF e # NotFound /\ Statement(w, e).k = "assign" THEN NotFound ELSE e
Agree == Quiet => \A m \in ModsUsed, n \in Asked : ns[m][n] = Meaning(m, n)
(* whatever is learned stays a definition                                   *)
Sensible == \A m \in ModsUsed, n \in Asked :
  ns[m][n] # NotFound => Statement(w, ns[m][n]).k \in {"def", "class"}
Ends == <>Quiet

(* ---------------------------------------------------------------- worlds *)
Fresh == \A m \in ModsUsed, n \in Asked : ns[m][n] = NotFound
Resolved(m, s) == CASE s.k = "from" -> Meaning(s.m[1], s.of) # NotFound
                    [] s.k = "assign" -> Meaning(m, s.n) # NotFound
                    [] OTHER -> TRUE
Dangling == \E m \in ModsUsed : \E i \in DOMAIN w[m].b : ~ Resolved(m, w[m].b[i])
ClassIn(m) == Loc(m, <<K(m)>>)
BasesOf(m) == LET s == Statement(w, ClassIn(m))
              IN [i \in DOMAIN s.b |-> Resolve(w, Loc(m, <<>>), s.b[i].p, {})]
RECURSIVE Above(_, _)
Above(m, fuel) == IF fuel = 0 THEN {m}
                  ELSE LET bases == BasesOf(m)
                       IN UNION {{bases[i].m} \cup Above(bases[i].m, fuel - 1)
                                 : i \in DOMAIN bases}
(* what a type checker accepts: bases exist, are not circular, and have an  *)
(* order                                                                    *)
Inheritance == Game = "bases" =>
  /\ \A m \in Mods : \A i \in DOMAIN BasesOf(m) : BasesOf(m)[i] # NotFound
  /\ \A m \in Mods : m \notin Above(m, 3)
  /\ \A m \in Mods : \A i, j \in DOMAIN BasesOf(m) :
        i < j => /\ BasesOf(m)[i] # BasesOf(m)[j]
                 /\ BasesOf(m)[i].m \notin Above(BasesOf(m)[j].m, 3)
Asks == IF Game = "names" THEN {[m |-> m, p |-> <<n>>, how |-> "plain"]
                                : m \in ModsUsed, n \in Names}
        ELSE {[m |-> m, p |-> <<K(x)>> \o q, how |-> IF q = <<>> THEN "type" ELSE "plain"]
              : m \in Mods, x \in Mods, q \in {<<>>, <<"h">>}}
Emit == (Emitting /\ Fresh /\ (Game = "names" \/ ~ Dangling) /\ Inheritance)
          => PrintT("WORLD " \o ToJson([b |-> [m \in ModsUsed |-> w[m].b],
                                        asks |-> Asks]))
(* the nearest class above that has the member, by walking; with one base   *)
(* each this is the method resolution order                                 *)
RECURSIVE Nearest(_, _)
Nearest(m, n) == IF Binds(Body(w, ClassIn(m)), n) THEN Loc(m, <<K(m), n>>)
                 ELSE IF BasesOf(m) = <<>> THEN NotFound
                 ELSE Nearest(BasesOf(m)[1].m, n)
Inherits == (Game = "bases" /\ Fresh /\ ~ Dangling /\ Inheritance) =>
  \A m \in Mods : (\A x \in {m} \cup Above(m, 3) : Len(BasesOf(x)) <= 1) =>
     Member(w, ClassIn(m), "h", {}) = Nearest(m, "h")
=============================================================================
