----------------------------- MODULE CacheTrace -----------------------------
(***************************************************************************)
(* code -> spec: imports of the package with files in any state, killed,   *)
(* failing to write or undisturbed, have to be steps of CacheFiles seen    *)
(* from outside.                                                           *)
(*                                                                         *)
(* Events: import [before, after, fault, ro, out, dg, fresh, built,        *)
(* touched]; before and after are the kinds of the files; and race         *)
(* [before, after, outs, dgs, fresh]: what several processes have got.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES t, l
vars == <<t, l>>
Ev == Traces[t].events[l]
Clause(name, ok) == IF ok THEN {} ELSE {name}

All(s, kinds) == \A i \in DOMAIN s : s[i] \in kinds

ImportFails(e) ==
  \* TablesRight: whatever is there, the answers are the ones of a fresh build
  Clause("imported", e.fault # "kill" => e.out = "ok")
  \cup Clause("answers", e.out = "ok" => e.dg = e.fresh)
  \* Detected: nothing readable is wrong
  \cup Clause("detected", All(e.after, {"absent", "blocked", "broken", "old",
                                         "complete", "miscompiled", "unreadable"}))
  \* Reused: complete files are used as they are
  \cup Clause("reused", All(e.before, {"complete"}) /\ e.fault # "kill"
                        => e.touched = "F" /\ e.built = "F")
  \* Usable: an undisturbed import leaves complete files
  \cup Clause("rebuilt", e.fault = "none" /\ e.ro = "F" =>
                 \A i \in DOMAIN e.after :
                   e.after[i] = "complete" \/ e.before[i] = "blocked")
\* several processes at once
RaceFails(e) ==
  Clause("imported", \A i \in DOMAIN e.outs : e.outs[i] \in {"ok", "killed"})
  \cup Clause("answers", \A i \in DOMAIN e.outs : e.outs[i] = "ok" => e.dgs[i] = e.fresh)
  \cup Clause("detected", \A i \in DOMAIN e.after : e.after[i] # "wrong")
  \cup Clause("rebuilt", All(e.outs, {"ok"}) =>
                 \A i \in DOMAIN e.after :
                   e.after[i] = "complete" \/ e.before[i] = "blocked")

Fails(e) == IF e.op = "race" THEN RaceFails(e) ELSE ImportFails(e)
Judge(e) == LET f == Fails(e) IN
  IF f = {} THEN TRUE
  ELSE PrintT("BAD " \o ToJson([trace |-> Traces[t].id, at |-> l, clauses |-> f,
                                event |-> e]))
TraceInit == t \in DOMAIN Traces /\ l = 1
TraceNext == l <= Len(Traces[t].events) /\ Judge(Ev) /\ l' = l + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
