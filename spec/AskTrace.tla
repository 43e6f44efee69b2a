------------------------------ MODULE AskTrace ------------------------------
(***************************************************************************)
(* code -> spec: histories of questions for signatures.                    *)
(*                                                                         *)
(* The answer to a question is either a well-formed signature or a refusal *)
(* (TypeError or ValueError), and it is a function of what is asked about: *)
(* the state remembers every answer, whoever asked, in whichever thread,   *)
(* process or session, and each later one has to be the same.              *)
(*                                                                         *)
(* Events: ask [x, who, out, alts, dg, eq, must]                           *)
(*   x     what is asked about                                             *)
(*   out   "ok", "error:..." or "hang"                                     *)
(*   alts  the parameter lists of the answer                               *)
(*   dg    digest of everything visible in the answer                      *)
(*   eq    whether asking at once again gives an equal answer              *)
(*   must  "T" when there has to be an answer                              *)
(* and part [x, y, out, dg]: the partial y of x without arguments.         *)
(***************************************************************************)
EXTENDS Signature, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VP_TRACE)

VARIABLES t, l, memo
vars == <<t, l, memo>>

Ev == Traces[t].events[l]
Clause(name, ok) == IF ok THEN {} ELSE {name}

Refusal == {"error:TypeError", "error:ValueError"}
Answer(e) == [out |-> e.out, dg |-> e.dg]
Known(x) == \E m \in memo : m.x = x
Remembered(x) == (CHOOSE m \in memo : m.x = x).answer

AskFails(e) ==
  Clause("total", e.out = "ok" \/ e.out \in Refusal)
  \cup Clause("answered", e.must = "T" => e.out = "ok")
  \cup Clause("wellformed",
              e.out = "ok" => /\ e.alts # <<>>
                              /\ \A i \in DOMAIN e.alts : LegalList(e.alts[i])
                              /\ (e.cls = "plain") = (Len(e.alts) = 1))
  \cup Clause("repeatable", e.out = "ok" => e.eq = "T")
  \cup Clause("determined", Known(e.x) => Remembered(e.x) = Answer(e))

PartFails(e) ==
  Clause("total", e.out = "ok" \/ e.out \in Refusal)
  \cup Clause("partial", Known(e.x) => Remembered(e.x).out = e.out
                         /\ (e.out = "ok" => Remembered(e.x).dg = e.dg))

Fails(e) == IF e.op = "ask" THEN AskFails(e) ELSE PartFails(e)
Judge(e) == LET f == Fails(e) IN
  IF f = {} THEN TRUE
  ELSE PrintT("BAD " \o ToJson([trace |-> Traces[t].id, at |-> l, clauses |-> f,
                                event |-> e,
                                before |-> IF Known(e.x) THEN Remembered(e.x)
                                           ELSE [out |-> "", dg |-> ""]]))

TraceInit == t \in DOMAIN Traces /\ l = 1 /\ memo = {}
TraceNext == /\ l <= Len(Traces[t].events)
             /\ Judge(Ev)
             /\ l' = l + 1 /\ t' = t
             /\ memo' = IF Ev.op # "ask" \/ Known(Ev.x) THEN memo
                        ELSE memo \cup {[x |-> Ev.x, answer |-> Answer(Ev)]}
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
