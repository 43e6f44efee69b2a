----------------------------- MODULE StubTrace -----------------------------
(***************************************************************************)
(* code -> spec: answers of the real code for callables described by       *)
(* stubs, judged by Stubs.  VP_WORLDS: one world per line, [w, rt, env];   *)
(* VP_TRACE: traces [id, w, events], w the number of the world.            *)
(***************************************************************************)
EXTENDS Stubs, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VP_TRACE)
Raw == ndJsonDeserialize(IOEnv.VP_WORLDS)
Worlds == [i \in DOMAIN Raw |-> Compile(Raw[i].w, Raw[i].env)]

VARIABLES t, l
vars == <<t, l>>

Ev == Traces[t].events[l]
W == Worlds[Traces[t].w]
RT == Raw[Traces[t].w].rt
Clause(name, ok) == IF ok THEN {} ELSE {name}

(* what the stubs say about the object, by the places where it is found:    *)
(* the set of signatures it may have                                        *)
Wanted(e) == {SignaturesAt(W, RT, e.locs[i].m, e.locs[i].p, e.how)
              : i \in DOMAIN e.locs} \ {None}

(* an object of a user that only claims the name: when the stubs define     *)
(* nothing of that name, the answer is about the object itself              *)
Claims(e) == "sp" \in DOMAIN e
Absent(e) == \A i \in DOMAIN e.locs : At(W, e.locs[i].m, e.locs[i].p) = NotFound
OwnShape(e) == Len(e.alts) = 1 /\ IF e.how = "type" THEN e.alts[1].ps = <<>>
               ELSE [i \in DOMAIN e.alts[1].ps |-> e.alts[1].ps[i].k]
                    = <<"VP", "VK">>

AskFails(e) ==
  LET want == Wanted(e)
      shaped == {w \in want : EachMatches(w, e.alts, ShapeMatches)}
      filled == {w \in shaped : EachMatches(w, e.alts, DefaultsMatch)}
      typed == {w \in filled : EachMatches(w, e.alts, TypesMatch)}
  IN IF e.out \notin {"ok", "error:TypeError", "error:ValueError"} THEN {"total"}
     ELSE IF Claims(e) /\ Absent(e)
     THEN Clause("absent", e.out = "ok" /\ OwnShape(e))
     ELSE IF want = {} THEN {}
     ELSE IF e.out # "ok" THEN {"answered"}
     ELSE IF e.alts = <<>> THEN {"answered"}
     ELSE IF {w \in want : Len(w) = Len(e.alts)} = {} THEN {"overloads"}
     ELSE IF shaped = {} THEN {"parameters"}
     ELSE IF filled = {} THEN {"defaults"}
     ELSE Clause("types", typed # {})

(* the object is not described by the stubs                                 *)
Undescribed(e) == ~ (Claims(e) /\ Absent(e)) /\ Wanted(e) = {}

Judge(e) == LET f == AskFails(e) IN
  /\ IF f = {} THEN TRUE
     ELSE PrintT("BAD " \o ToJson([trace |-> Traces[t].id, at |-> l,
                                   clauses |-> f, event |-> e,
                                   want |-> Wanted(e)]))
  /\ IF Undescribed(e) THEN PrintT("OPEN " \o ToJson([trace |-> Traces[t].id,
                                                      id |-> e.id])) ELSE TRUE

TraceInit == t \in DOMAIN Traces /\ l = 1
TraceNext == /\ l <= Len(Traces[t].events)
             /\ Judge(Ev)
             /\ l' = l + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
