------------------------------ MODULE LifeTrace -----------------------------
(***************************************************************************)
(* code -> spec: questions about real callables of random programs that    *)
(* change in between, judged by Life: the program evolves by the           *)
(* transitions of the specification, answers have to be the ones for what  *)
(* it is, and nothing but the recorded statements may have changed it.     *)
(***************************************************************************)
EXTENDS Life, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VP_TRACE)

VARIABLES t, l, P, held, told
vars == <<t, l, P, held, told>>

Ev == Traces[t].events[l]
Bool(b) == IF b THEN "T" ELSE "F"
Clause(name, ok) == IF ok THEN {} ELSE {name}
Empty == [fs |-> <<>>, cs |-> <<>>]

Refusals == {"error:TypeError", "error:ValueError"}

Answered(want, e) ==
  Clause("C21.answered", want.ok => e.out = "ok")
  \cup Clause("C21.missing", ~ want.ok => e.out \in Refusals)
  \cup Clause("C21.current", (want.ok /\ e.out = "ok")
                => e.rep.cls = "plain" /\ e.rep.alts = <<want.sig>>)
  \cup Clause("C21.called", e.called = 0)
  \cup Clause("C21.touched", e.touched = "F")

Subject(e) == IF e.h = 0 THEN e.x ELSE held[e.h]

Fails(e) ==
  CASE e.op \in {"ask", "final"} -> Answered(Rep(Eff(P), Subject(e)), e)
    [] e.op = "passing" ->   \* a callable made, asked about and dropped
         Answered(Rep(Eff(NewFunction(Empty, e.to)), [e |-> "func", f |-> 1]), e)
    [] e.op = "inherited" -> \* from a builtin class
         Clause("SPEC.inherited", ~ Exists(P, e.x))
         \cup Clause("C21.inherited", e.out = "ok" /\ e.rep = e.base)
         \cup Clause("C21.called", e.called = 0)
         \cup Clause("C21.touched", e.touched = "F")
    [] e.op = "leaves" ->    \* a module or class whose attributes were asked about
         Clause("C21.touched", e.touched = "F")
    [] e.op = "recall" ->    \* a signature answered before
         Clause("C21.earlier", e.rep = told[e.k])
    [] e.op = "gone" ->      \* dropped by everybody else
         Clause("C21.kept", e.dead = "T")
    [] e.op = "rebase" ->
         Clause("SPEC.mro", e.made = Bool(Legal(Rebase(P, e.c, e.bases))))
    [] OTHER -> {}

Do(Q, e) ==
  CASE e.op = "start" -> [fs |-> [i \in DOMAIN e.fs |-> Fn(e.fs[i])], cs |-> e.cs]
    [] e.op = "redefine" -> Redefine(Q, e.f, e.to)
    [] e.op = "wrap" -> Wrap(Q, e.f, e.g)
    [] e.op = "unwrap" -> Wrap(Q, e.f, None)
    [] e.op = "set" -> SetMember(Q, e.c, [name |-> e.name, sort |-> e.sort, f |-> e.f])
    [] e.op = "del" -> DelMember(Q, e.c, e.name)
    [] e.op = "rebase" -> IF Legal(Rebase(Q, e.c, e.bases))
                          THEN Rebase(Q, e.c, e.bases) ELSE Q
    [] e.op = "new" -> NewFunction(Q, e.to)
    [] e.op = "subclass" -> NewClass(Q, e.bases)
    [] OTHER -> Q

Judge(e) == LET f == Fails(e) IN
  IF f = {} THEN TRUE
  ELSE PrintT("BAD " \o ToJson([trace |-> Traces[t].id, at |-> l,
                                clauses |-> f, event |-> e]))

TraceInit == t \in DOMAIN Traces /\ l = 1 /\ P = Empty /\ held = <<>> /\ told = <<>>
TraceNext ==
  /\ l <= Len(Traces[t].events)
  /\ Judge(Ev)
  /\ l' = l + 1 /\ t' = t
  /\ P' = Do(P, Ev)
  /\ held' = IF Ev.op = "hold" THEN Append(held, Denote(P, Ev.x)) ELSE held
  /\ told' = IF Ev.op = "ask" /\ Ev.out = "ok" THEN Append(told, Ev.rep) ELSE told
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
