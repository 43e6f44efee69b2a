----------------------------- MODULE AliasTrace -----------------------------
(***************************************************************************)
(* code -> spec: sessions of questions about the names of a graph of       *)
(* AliasCache, asked of the real code in a made-up world having the graph. *)
(*                                                                         *)
(* Events: ask [x, who, out, v]: x the node, who the session, v the value  *)
(* found in the answer: [t, n, c], t in "alias", "fwd", "class", "?".      *)
(* The value has to be an unfolding of the graph, with placeholders for    *)
(* enclosing aliases only, and the same in every session.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES t, l, memo
vars == <<t, l, memo>>
Tr == Traces[t]
Ev == Tr.events[l]
Clause(name, ok) == IF ok THEN {} ELSE {name}

RECURSIVE Unfolds(_, _, _)
Unfolds(v, n, above) ==
  /\ v.n = n
  /\ CASE v.t = "fwd" -> n \in above
       [] v.t = "class" -> Tr.k[n] = "class"
       [] v.t = "alias" ->
            /\ Tr.k[n] = "alias"
            /\ Len(v.c) = Len(Tr.g[n])
            /\ \A i \in DOMAIN v.c : Unfolds(v.c[i], Tr.g[n][i], above \cup {n})
       [] OTHER -> FALSE

Known(x) == \E m \in memo : m.x = x
Remembered(x) == (CHOOSE m \in memo : m.x = x).v
Fails(e) == Clause("answered", e.out = "ok")
            \cup Clause("unfolding", e.out = "ok" => Unfolds(e.v, e.x, {}))
            \cup Clause("determined", Known(e.x) => Remembered(e.x) = e.v)
Judge(e) == LET f == Fails(e) IN
  IF f = {} THEN TRUE
  ELSE PrintT("BAD " \o ToJson([trace |-> Tr.id, at |-> l, clauses |-> f,
                                event |-> e, g |-> Tr.g, k |-> Tr.k]))

TraceInit == t \in DOMAIN Traces /\ l = 1 /\ memo = {}
TraceNext == /\ l <= Len(Tr.events)
             /\ Judge(Ev)
             /\ l' = l + 1 /\ t' = t
             /\ memo' = IF Known(Ev.x) THEN memo ELSE memo \cup {[x |-> Ev.x, v |-> Ev.v]}
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
