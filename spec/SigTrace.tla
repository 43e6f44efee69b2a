------------------------------ MODULE SigTrace -----------------------------
(***************************************************************************)
(* code -> spec: histories of real signature objects recorded by           *)
(* driver/sig_*.py are checked to be behaviours of the signature life      *)
(* cycle.  Every event is consumed whatever it says; clauses that fail are *)
(* printed as BAD lines, prefixed with the property they belong to.  After *)
(* a failing event the state follows the recorded object, so that the rest *)
(* of the history is still judged.                                         *)
(***************************************************************************)
EXTENDS Signature, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VP_TRACE)

VARIABLES t, l,
          cls,      \* "plain" or "over": class of the current object
          alts,     \* its alternatives
          orig,     \* the plain parameter list the history started from
          accn, accK,  \* what functools.partial would have accumulated
          linked    \* whether orig/accn/accK describe the current object

vars == <<t, l, cls, alts, orig, accn, accK, linked>>

Ev == Traces[t].events[l]
Bool(b) == IF b THEN "T" ELSE "F"
Clause(name, ok) == IF ok THEN {} ELSE {name}

SameRep(rep, c, a) == rep.cls = c /\ rep.alts = a

(* --------------------------------------------------------------- events *)
NewFails(e) ==
  LET legal == IF e.cls = "plain" THEN LegalList(e.alts[1].ps)
               ELSE Len(e.alts) >= 2
                    /\ \A i \in DOMAIN e.alts : LegalList(e.alts[i].ps)
  IN Clause("C01.accept", legal => e.out = "ok")
     \cup Clause("C01.reject", ~ legal => e.out # "ok")
     \cup Clause("C01.faithful", (legal /\ e.out = "ok")
                                   => SameRep(e.rep, e.cls, e.alts))

(* arguments that are not parameters, kinds or plain signatures at all     *)
MisuseFails(e) == Clause("C01.misuse", e.out # "ok")

ParamFails(e) ==
  Clause("C01.param_accept", LegalParameter(e.p) => e.out = "ok")
  \cup Clause("C01.param_reject", ~ LegalParameter(e.p) => e.out # "ok")
  \cup Clause("C01.param_faithful", (LegalParameter(e.p) /\ e.out = "ok")
                                      => e.rep = e.p)

ProbeFails(e) ==
  LET K == ToSet(e.K)
      all == AnyCanCall(alts, e.n, K)
      exp == AnyCanComplete(alts, e.n, K)
      prop == IF cls = "plain" THEN <<"C02.all_set", "C03.expects">>
              ELSE <<"C06.all_set", "C06.expects">>
      asked == linked /\ K \cap Forgotten(orig, accn) = {}
  IN Clause(prop[1], e.all = Bool(all))
     \cup Clause(prop[2], e.exp = Bool(exp))
     \cup Clause("C04.law_all_set",
                 asked => e.all = Bool(CanCall(orig, accn + e.n, accK \cup K)))
     \cup Clause("C04.law_expects",
                 asked => e.exp = Bool(CanComplete(orig, accn + e.n,
                                                   accK \cup K)))
     \cup Clause("C02.pure", e.keep)
     (* the same call made on a real Python function: keeps PyCall honest *)
     \cup Clause("SPEC.python", ("py" \in DOMAIN e /\ cls = "plain")
                                   => e.py = Bool(all))

BindFails(e) ==
  LET K == PairNames(e.kv)
      fits == AnyCanComplete(alts, e.n, K)
      want == BindAlternatives(alts, e.n, e.kv)
      single == cls = "plain"
      sort(a) == IF single THEN a.ps ELSE a
  IN Clause(IF single THEN "C04.accept" ELSE "C06.accept", fits => e.out = "ok")
     \cup Clause(IF single THEN "C04.reject" ELSE "C06.reject",
                 ~ fits => e.out = "error:TypeError")
     \cup Clause(IF single THEN "C05.content" ELSE "C06.content",
                 (fits /\ e.out = "ok") => e.rep.alts = want)
     \cup Clause(IF single THEN "C05.class" ELSE "C06.collapse",
                 (fits /\ e.out = "ok")
                   => e.rep.cls = (IF Len(want) = 1 THEN "plain" ELSE "over"))
     \cup Clause("C04.unchanged", e.keep)
     \cup Clause("C05.nothing", (e.n = 0 /\ K = {} /\ single) => e.eq)

TripFails(e) ==
  Clause("C08.works", e.out = "ok")
  \cup Clause("C08.state", e.out = "ok" => SameRep(e.rep, cls, alts))
  \cup Clause("C08.equal", e.out = "ok" => e.eq)
  \cup Clause("C08.hash", e.out = "ok" => e.hash)
  \cup Clause("C08.text", e.out = "ok" => e.text)

StrFails(e) == Clause("C09.text", e.str = Render(alts, e.texts))

Fails(e) == CASE e.op = "new" -> NewFails(e)
              [] e.op = "param" -> ParamFails(e)
              [] e.op = "misuse" -> MisuseFails(e)
              [] e.op = "probe" -> ProbeFails(e)
              [] e.op = "bind" -> BindFails(e)
              [] e.op = "trip" -> TripFails(e)
              [] e.op = "str" -> StrFails(e)

Judge(e) == LET f == Fails(e) IN
  IF f = {} THEN TRUE
  ELSE PrintT("BAD " \o ToJson([trace |-> Traces[t].id, at |-> l,
                                clauses |-> f, event |-> e]))

(* --------------------------------------------------------------- states *)
TraceInit == /\ t \in DOMAIN Traces /\ l = 1
             /\ cls = "none" /\ alts = <<>> /\ orig = <<>>
             /\ accn = 0 /\ accK = {} /\ linked = FALSE

New(e) == IF e.out = "ok"
          THEN /\ cls' = e.rep.cls /\ alts' = e.rep.alts
               /\ linked' = (e.rep.cls = "plain" /\ LegalList(e.rep.alts[1].ps))
               /\ orig' = e.rep.alts[1].ps /\ accn' = 0 /\ accK' = {}
          ELSE UNCHANGED <<cls, alts, orig, accn, accK, linked>>

Bound(e) ==
  IF e.out = "ok"
  THEN /\ cls' = e.rep.cls /\ alts' = e.rep.alts
       /\ accn' = accn + e.n /\ accK' = accK \cup PairNames(e.kv)
       (* the law speaks about acceptable binds that name nothing forgotten *)
       /\ linked' = /\ linked
                    /\ CanComplete(alts[1].ps, e.n, PairNames(e.kv))
                    /\ PairNames(e.kv) \cap Forgotten(orig, accn) = {}
       /\ UNCHANGED orig
  ELSE UNCHANGED <<cls, alts, orig, accn, accK, linked>>

Tripped(e) == /\ IF e.out = "ok" THEN cls' = e.rep.cls /\ alts' = e.rep.alts
                 ELSE UNCHANGED <<cls, alts>>
              /\ UNCHANGED <<orig, accn, accK, linked>>

Same == UNCHANGED <<cls, alts, orig, accn, accK, linked>>

TraceNext == /\ l <= Len(Traces[t].events)
             /\ Judge(Ev)
             /\ l' = l + 1 /\ t' = t
             /\ CASE Ev.op = "new" -> New(Ev)
                  [] Ev.op = "bind" -> Bound(Ev)
                  [] Ev.op = "trip" -> Tripped(Ev)
                  [] OTHER -> Same
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
