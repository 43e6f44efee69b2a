----------------------------- MODULE AliasCache -----------------------------
(***************************************************************************)
(* Evaluation of annotations naming each other.                            *)
(*                                                                         *)
(* Nodes are names of a stub: aliases, whose values are made of the values *)
(* of the nodes they refer to, and classes absent from the running         *)
(* interpreter, created once, whose members refer to nodes.  References    *)
(* may be cyclic; an alias being evaluated is replaced by a placeholder.   *)
(*                                                                         *)
(* Values are remembered, and the answer to a question must not depend on  *)
(* what had been asked before.  That depends on which values are kept:     *)
(*   Rule = "none met"   the ones made without any placeholder             *)
(*   Rule = "none outer" also the ones whose placeholders are all their own*)
(*   Rule = "all"        every one                                         *)
(* Only the first is right.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS N,            \* number of nodes
          Width,        \* references per node at most
          Mixed,        \* TRUE: classes too
          Rule,
          Length,       \* questions per printed history; 0: print nothing
          Part, Parts   \* print only this part of the histories

Nodes == 1..N
Refs == UNION {[1..k -> Nodes] : k \in 0..Width}
Kinds == IF Mixed THEN {"alias", "class"} ELSE {"alias"}

VARIABLES refs, kind, cache, asked, answers
vars == <<refs, kind, cache, asked, answers>>

\* one of the graphs that differ in the names of nodes only
Weight(r) == IF Len(r) = 0 THEN 0
             ELSE IF Len(r) = 1 THEN r[1] ELSE N * r[1] + r[2]
Size == N * N + N + 1
Code(g, k, f) == LET inverse == [m \in Nodes |-> CHOOSE n \in Nodes : f[n] = m]
                     At(m) == LET r == g[inverse[m]]
                              IN Weight([i \in DOMAIN r |-> f[r[i]]]) * 2
                                 + (IF k[inverse[m]] = "class" THEN 1 ELSE 0)
                 IN FoldLeft(LAMBDA acc, m : acc * 2 * Size + At(m), 0,
                             [m \in Nodes |-> m])
Identity == [n \in Nodes |-> n]
Canonical(g, k) == \A f \in Permutations(Nodes) : Code(g, k, Identity) <= Code(g, k, f)

(***************************************************************************)
(* Values: uniform records, t in "alias", "fwd", "class".                  *)
(***************************************************************************)
Value(t, n, c) == [t |-> t, n |-> n, c |-> c]
Keeps(n, met) == CASE Rule = "none met" -> met = {}
                   [] Rule = "none outer" -> met \ {n} = {}
                   [] OTHER -> TRUE

(* [v |-> value, met |-> placeholders inside, c |-> remembered values]      *)
RECURSIVE Eval(_, _, _, _, _), Each(_, _, _, _, _, _)
Eval(g, k, n, busy, c) ==
  IF n \in DOMAIN c THEN [v |-> c[n], met |-> {}, c |-> c]
  ELSE IF k[n] = "class"
  THEN LET v == Value("class", n, <<>>)
           \* created before its members are looked at
           r == Each(g, k, g[n], 1, busy, c @@ (n :> v))
       IN [v |-> v, met |-> r.met, c |-> r.c]
  ELSE IF n \in busy THEN [v |-> Value("fwd", n, <<>>), met |-> {n}, c |-> c]
  ELSE LET r == Each(g, k, g[n], 1, busy \cup {n}, c)
           v == Value("alias", n, r.vs)
       IN [v |-> v, met |-> r.met \ {n},
           c |-> IF Keeps(n, r.met) THEN r.c @@ (n :> v) ELSE r.c]
Each(g, k, ns, i, busy, c) ==
  IF i > Len(ns) THEN [vs |-> <<>>, met |-> {}, c |-> c]
  ELSE LET first == Eval(g, k, ns[i], busy, c)
           rest == Each(g, k, ns, i + 1, busy, first.c)
       IN [vs |-> <<first.v>> \o rest.vs, met |-> first.met \cup rest.met,
           c |-> rest.c]

Empty == [n \in {} |-> 0]
Alone(g, k, n) == Eval(g, k, n, {}, Empty).v

Init == /\ refs \in [Nodes -> Refs] /\ kind \in [Nodes -> Kinds]
        /\ Canonical(refs, kind)
        /\ cache = Empty /\ asked = <<>> /\ answers = [n \in {} |-> 0]

\* the question about node n; histories are kept only when they are printed
Ask(n) == LET r == Eval(refs, kind, n, {}, cache) IN
  /\ Length > 0 => Len(asked) < Length
  /\ cache' = r.c
  /\ asked' = IF Length > 0 THEN Append(asked, n) ELSE asked
  /\ answers' = [m \in {n} |-> r.v]
  /\ UNCHANGED <<refs, kind>>
Next == \E n \in Nodes : Ask(n)
Spec == Init /\ [][Next]_vars

\* the answer is the one that would have been given at first
Determined == \A n \in DOMAIN answers : answers[n] = Alone(refs, kind, n)
\* what is remembered has no placeholder of another alias
RECURSIVE Free(_, _)
Free(v, bound) == CASE v.t = "fwd" -> v.n \in bound
                    [] v.t = "class" -> TRUE
                    [] OTHER -> \A i \in DOMAIN v.c : Free(v.c[i], bound \cup {v.n})
Closed == \A n \in DOMAIN cache : Free(cache[n], {})

Hash == FoldLeft(LAMBDA acc, n : (acc * 7 + n) % 1009, Code(refs, kind, Identity) % 1009,
                 asked)
Emit == IF Length > 0 /\ Len(asked) = Length /\ Hash % Parts = Part
         THEN PrintT("HISTORY " \o ToJson([g |-> refs, k |-> kind, q |-> asked]))
         ELSE TRUE
=============================================================================
