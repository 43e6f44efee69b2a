------------------------------ MODULE EqTrace ------------------------------
(***************************************************************************)
(* code -> spec: comparisons of real parameters and signatures.  A trace   *)
(* starts with the terms of a group of objects and continues with one      *)
(* event per ordered pair: what ==, != and hash said.                      *)
(***************************************************************************)
EXTENDS Types, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES t, l, objects
vars == <<t, l, objects>>

Ev == Traces[t].events[l]
Bool(b) == IF b THEN "T" ELSE "F"
Clause(name, ok) == IF ok THEN {} ELSE {name}

PairFails(e) ==
  LET same == SameObject(objects[e.i], objects[e.j])
  IN Clause(IF e.i = e.j THEN "C07.reflexive"
            ELSE IF same THEN "C07.same" ELSE "C07.separates", e.eq = Bool(same))
     \cup Clause("C07.not_equal", e.ne = Bool(~ same))
     \cup Clause("C07.hash", same => e.hash)
     \cup Clause("C07.stable", e.stable)

(* comparison with an object that is no parameter or signature             *)
ForeignFails(e) == Clause("C07.foreign", e.eq = "F" /\ e.ne = "T")

(* an object that came back from a copy, pickle or repr round trip of the   *)
(* i-th object, compared with the j-th                                     *)
TripFails(e) ==
  LET same == SameObject(objects[e.i], objects[e.j])
  IN Clause("C08.works", e.out = "ok")
     \cup Clause("C08.equal", e.out = "ok" => (e.eq = Bool(same) /\ e.qe = e.eq))
     \cup Clause("C08.hash", (e.out = "ok" /\ same) => e.hash)
     \cup Clause("C08.answers", e.out = "ok" => e.same)

Fails(e) == CASE e.op = "objects" -> Clause("C07.built", e.built)
              [] e.op = "pair" -> PairFails(e)
              [] e.op = "trip" -> TripFails(e)
              [] e.op = "foreign" -> ForeignFails(e)

Judge(e) == LET f == Fails(e) IN
  IF f = {} THEN TRUE
  ELSE PrintT("BAD " \o ToJson(
         [trace |-> Traces[t].id, at |-> l, clauses |-> f, event |-> e,
          left |-> IF e.op \in {"pair", "trip"} THEN objects[e.i] ELSE <<>>,
          right |-> IF e.op \in {"pair", "trip"} THEN objects[e.j] ELSE <<>>]))

TraceInit == t \in DOMAIN Traces /\ l = 1 /\ objects = <<>>
TraceNext == /\ l <= Len(Traces[t].events) /\ Judge(Ev)
             /\ l' = l + 1 /\ t' = t
             /\ objects' = IF Ev.op = "objects" THEN Ev.terms ELSE objects
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
