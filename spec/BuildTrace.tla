----------------------------- MODULE BuildTrace -----------------------------
(***************************************************************************)
(* code -> spec: attempts to build the tables with modules that raise,     *)
(* exit or kill have to be runs of BuildProcess seen from outside.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES t, l
vars == <<t, l>>
Ev == Traces[t].events[l]
Clause(name, ok) == IF ok THEN {} ELSE {name}

Dies(e) == \E i \in DOMAIN e.m : e.m[i] = "die"
Fine(e) == e.w = "ok" /\ ~Dies(e) /\ e.k = "F"
Inline(e) == e.how = "daemon"       \* such processes have no children

BuildFails(e) ==
  \* Ends
  Clause("hang", e.out # "hang")
  \* Raised: and the failure is an exception of the import
  \cup Clause("raised", /\ e.out \notin {"ok", "hang"} => SubSeq(e.out, 1, 6) = "error:"
                        /\ (e.w = "error" \/ Dies(e)) /\ ~Inline(e) => e.out # "ok"
                        /\ e.w = "error" /\ e.k = "F" => e.out = "error:SyntaxError")
  \* Skipped: exceptions of modules do not matter
  \cup Clause("skipped", Fine(e) => e.out = "ok")
  \cup Clause("indexed", e.out = "ok" => \A i \in DOMAIN e.ans :
                           (e.ans[i] = "stub") = (e.m[i] = "ok"))
  \cup Clause("main", ~Inline(e) => e.main = "T")
  \cup Clause("contained", ~Inline(e) => /\ e.loaded = <<>> /\ e.own = "F"
                                         /\ e.changed = <<>>)
OrphanFails(e) == Clause("orphan", e.left = 0)
Fails(e) == IF e.op = "build" THEN BuildFails(e) ELSE OrphanFails(e)
Judge(e) == LET f == Fails(e) IN
  IF f = {} THEN TRUE
  ELSE PrintT("BAD " \o ToJson([trace |-> Traces[t].id, at |-> l, clauses |-> f,
                                event |-> e]))
TraceInit == t \in DOMAIN Traces /\ l = 1
TraceNext == l <= Len(Traces[t].events) /\ Judge(Ev) /\ l' = l + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
