------------------------------ MODULE CallTrace -----------------------------
(***************************************************************************)
(* code -> spec: signatures of real callables of random programs, real     *)
(* calls of them, and partials and bound methods of standard library       *)
(* callables, judged by Callables.                                         *)
(***************************************************************************)
EXTENDS Callables, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VP_TRACE)

VARIABLES t, l, P
vars == <<t, l, P>>

Ev == Traces[t].events[l]
Bool(b) == IF b THEN "T" ELSE "F"
Clause(name, ok) == IF ok THEN {} ELSE {name}
Tags(x) == CASE x.e = "part" -> {"C11"}
             [] x.e = "get" -> {"C10", "C11"}
             [] OTHER -> {"C10"}
Tagged(x, name, ok) == IF ok THEN {} ELSE {tag \o "." \o name : tag \in Tags(x)}

(* the class statements of the program worked iff the bases have an order   *)
ProgFails(e) ==
  Clause("SPEC.mro", e.made = Bool(\A c \in DOMAIN e.cs :
                                      Mro([fs |-> e.fs, cs |-> e.cs], c).ok))

(* methods without a parameter for the receiver may be refused either way    *)
RECURSIVE Refusals(_)
Refusals(x) == CASE x.e \in {"get", "class"} -> {"error:TypeError", "error:ValueError"}
                 [] x.e = "part" /\ ~ Rep(P, x.x).ok -> Refusals(x.x)
                 [] "how" \in DOMAIN x -> {"error:TypeError", "error:ValueError"}
                 [] OTHER -> {"error:TypeError"}

AskFails(e) ==
  LET want == Rep(P, e.x)
  IN Tagged(e.x, "answered", want.ok => e.out = "ok")
     \cup Tagged(e.x, "missing", ~ want.ok => e.out \in Refusals(e.x))
     \cup Tagged(e.x, "parameters", (want.ok /\ e.out = "ok")
                   => /\ e.rep.cls = "plain"
                      /\ e.rep.alts[1].ps = want.sig.ps)
     \cup Tagged(e.x, "returns", (want.ok /\ e.out = "ok")
                   => Len(e.rep.alts) = 1 /\ e.rep.alts[1].r = want.sig.r)
     \cup Tagged(e.x, "equal", e.out = "ok" => e.same)

CallFails(e) ==
  LET K == ToSet(e.K)
      calls == Calls(P, e.x, e.n, K)
  IN Clause("SPEC.python", e.py = Bool(calls))
     \cup Tagged(e.x, "all_set", K \cap ForgottenBy(P, e.x) = {}
                                  => e.all = Bool(calls))

(* binding law of overloaded signatures of callables found anywhere         *)
LawFails(e) ==
  LET K == PairNames(e.kv)
      fits == AnyCanComplete(e.base, e.n, K)
      want == BindAlternatives(e.base, e.n, e.kv)
  IN Clause("C11.fits", fits => e.out = "ok")
     \cup Clause("C11.unfit", ~ fits => e.out = "error:TypeError")
     \cup Clause("C11.bound", (fits /\ e.out = "ok") => e.rep.alts = want)
     \cup Clause("C11.class", (fits /\ e.out = "ok")
                   => e.rep.cls = (IF Len(want) = 1 THEN "plain" ELSE "over"))
     \cup Clause("C11.same", e.out = "ok" => e.same)

Fails(e) == CASE e.op = "prog" -> ProgFails(e)
              [] e.op = "ask" -> AskFails(e)
              [] e.op = "call" -> CallFails(e)
              [] e.op = "law" -> LawFails(e)

Judge(e) == LET f == Fails(e) IN
  IF f = {} THEN TRUE
  ELSE PrintT("BAD " \o ToJson([trace |-> Traces[t].id, at |-> l,
                                clauses |-> f, event |-> e]))

TraceInit == t \in DOMAIN Traces /\ l = 1 /\ P = [fs |-> <<>>, cs |-> <<>>]
TraceNext == /\ l <= Len(Traces[t].events)
             /\ Judge(Ev)
             /\ l' = l + 1 /\ t' = t
             /\ P' = IF Ev.op = "prog" THEN [fs |-> Ev.fs, cs |-> Ev.cs] ELSE P
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
