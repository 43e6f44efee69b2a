----------------------------- MODULE Signature -----------------------------
(***************************************************************************)
(* Vocabulary shared by the signature specifications: what a parameter    *)
(* list is, which ones are legal Python, what a call binds, what partial   *)
(* application does to a parameter list, how a signature prints.           *)
(*                                                                         *)
(* A parameter is a record                                                 *)
(*   n  name            k  kind: PO PK VP KO VK                            *)
(*   o  "R" required / "O" optional                                        *)
(*   d  token of the default value, NoDefault when there is none           *)
(*   a  token of the annotation                                            *)
(* A parameter list is a sequence of parameters; a plain signature is a    *)
(* record [ps, r] with r the token of the return annotation.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

NoDefault == "-"
Kinds == {"PO", "PK", "VP", "KO", "VK"}
Rank(k) == CASE k = "PO" -> 0 [] k = "PK" -> 1 [] k = "VP" -> 2
             [] k = "KO" -> 3 [] k = "VK" -> 4
IsVariadic(k) == k \in {"VP", "VK"}
IsPositional(k) == k \in {"PO", "PK"}
IsKeyword(k) == k \in {"PK", "KO"}

Least(x, y) == IF x <= y THEN x ELSE y

NamesOf(S) == {S[i].n : i \in DOMAIN S}
HasKind(S, k) == \E i \in DOMAIN S : S[i].k = k
Positionals(S) == SelectSeq(S, LAMBDA p : IsPositional(p.k))

(***************************************************************************)
(* C01: single parameters and parameter lists that Python could define.    *)
(***************************************************************************)
LegalParameter(p) ==
  /\ p.k \in Kinds
  /\ IsVariadic(p.k) => p.o = "O" /\ p.d = NoDefault
  /\ p.o = "R" => p.d = NoDefault

LegalList(S) ==
  /\ \A i \in DOMAIN S : LegalParameter(S[i])
  /\ \A i, j \in DOMAIN S : i < j =>
       /\ S[i].n # S[j].n
       /\ Rank(S[i].k) <= Rank(S[j].k)
       /\ (IsVariadic(S[i].k) => S[i].k # S[j].k)
       /\ ~ (IsPositional(S[i].k) /\ IsPositional(S[j].k)
             /\ S[i].o = "O" /\ S[j].o = "R")

(***************************************************************************)
(* C02: the call f(<n positional>, **{k: ... : k \in K}) of a function     *)
(* defined with the parameters S binds without an error.                   *)
(***************************************************************************)
FilledNames(S, n) == LET pos == Positionals(S)
                     IN {pos[i].n : i \in 1..Least(n, Len(pos))}

TooManyPositionals(S, n) == n > Len(Positionals(S)) /\ ~ HasKind(S, "VP")

(* keyword k given next to n positional arguments finds a place            *)
KeywordFits(S, n, k) ==
  LET pos == Positionals(S)
      m == Least(n, Len(pos))
  IN \/ \E i \in (m + 1)..Len(pos) : pos[i].k = "PK" /\ pos[i].n = k
     \/ \E i \in DOMAIN S : S[i].k = "KO" /\ S[i].n = k
     \/ /\ HasKind(S, "VK")
        /\ ~ \E i \in 1..m : pos[i].k = "PK" /\ pos[i].n = k

MissingNames(S, n, K) ==
  {S[i].n : i \in {j \in DOMAIN S :
      /\ S[j].o = "R"
      /\ S[j].n \notin FilledNames(S, n)
      /\ ~ (IsKeyword(S[j].k) /\ S[j].n \in K)}}

CanCall(S, n, K) == /\ ~ TooManyPositionals(S, n)
                    /\ \A k \in K : KeywordFits(S, n, k)
                    /\ MissingNames(S, n, K) = {}

(***************************************************************************)
(* C03: some completion of the call succeeds.  The definition quantifies   *)
(* over completions; the closed form is what traces are checked with, and  *)
(* SigLife's invariant CompletionLaw has TLC compare the two.              *)
(***************************************************************************)
Completable(S, n, K) ==
  \E m \in 0..Len(S) : \E K2 \in SUBSET (NamesOf(S) \ K) :
     CanCall(S, n + m, K \cup K2)

CanComplete(S, n, K) == /\ ~ TooManyPositionals(S, n)
                        /\ \A k \in K : KeywordFits(S, n, k)

(***************************************************************************)
(* C05: the parameter list left after binding n positional arguments and   *)
(* the keywords kv, a sequence of pairs <<name, value token>>.             *)
(***************************************************************************)
PairNames(kv) == {kv[i][1] : i \in DOMAIN kv}
PairValue(kv, name) == kv[CHOOSE i \in DOMAIN kv : kv[i][1] = name][2]

DropPositionals(S, n) ==
  LET m == Least(n, Len(Positionals(S))) IN SubSeq(S, m + 1, Len(S))

BindList(S, n, kv) ==
  LET rest == DropPositionals(S, n)
      named == {i \in DOMAIN rest : /\ IsKeyword(rest[i].k)
                                    /\ rest[i].n \in PairNames(kv)}
      first == IF named = {} THEN Len(rest) + 1
               ELSE CHOOSE i \in named : \A j \in named : i <= j
      Rebound(p) ==
        IF ~ IsKeyword(p.k) THEN p
        ELSE IF p.n \in PairNames(kv)
             THEN [p EXCEPT !.k = "KO", !.o = "O", !.d = PairValue(kv, p.n)]
             ELSE [p EXCEPT !.k = "KO"]
      tail == SelectSeq(SubSeq(rest, first, Len(rest)),
                        LAMBDA p : p.k # "VP")
  IN SubSeq(rest, 1, first - 1) \o [i \in DOMAIN tail |-> Rebound(tail[i])]

(* names a bound signature no longer knows although the call does: they    *)
(* were consumed positionally and variadic keywords would swallow them     *)
Forgotten(S, n) ==
  IF HasKind(S, "VK")
  THEN LET pos == Positionals(S)
       IN {pos[i].n : i \in {j \in 1..Least(n, Len(pos)) : pos[j].k = "PK"}}
  ELSE {}

(***************************************************************************)
(* C06: signatures with alternatives are sequences of plain ones.          *)
(***************************************************************************)
AnyCanCall(alts, n, K) == \E i \in DOMAIN alts : CanCall(alts[i].ps, n, K)
AnyCanComplete(alts, n, K) ==
  \E i \in DOMAIN alts : CanComplete(alts[i].ps, n, K)
BindPlain(sig, n, kv) == [ps |-> BindList(sig.ps, n, kv), r |-> sig.r]
BindAlternatives(alts, n, kv) ==
  LET kept == SelectSeq(alts, LAMBDA s : CanComplete(s.ps, n, PairNames(kv)))
  IN [i \in DOMAIN kept |-> BindPlain(kept[i], n, kv)]

(***************************************************************************)
(* C09: text of a signature, given the texts of annotations and defaults.  *)
(***************************************************************************)
RECURSIVE JoinWith(_, _)
JoinWith(parts, sep) ==
  IF Len(parts) = 0 THEN ""
  ELSE IF Len(parts) = 1 THEN parts[1]
  ELSE parts[1] \o sep \o JoinWith(Tail(parts), sep)

RenderParameter(p, text) ==
  (CASE p.k = "VP" -> "*" [] p.k = "VK" -> "**" [] OTHER -> "")
  \o p.n \o ": " \o text[p.a]
  \o (IF p.d = NoDefault THEN "" ELSE " = " \o text[p.d])

(* parts of the parameter list, separators included                        *)
RenderParts(S, text) ==
  LET lastPO == Cardinality({i \in DOMAIN S : S[i].k = "PO"})
      KOs == {i \in DOMAIN S : S[i].k = "KO"}
      firstKO == IF KOs = {} THEN 0
                 ELSE CHOOSE i \in KOs : \A j \in KOs : i <= j
      Piece(i) ==
        (IF i = firstKO /\ ~ HasKind(S, "VP") THEN <<"*">> ELSE <<>>)
        \o <<RenderParameter(S[i], text)>>
        \o (IF i = lastPO THEN <<"/">> ELSE <<>>)
  IN FlattenSeq([i \in DOMAIN S |-> Piece(i)])

RenderPlain(sig, text) ==
  "(" \o JoinWith(RenderParts(sig.ps, text), ", ") \o ") -> " \o text[sig.r]

Render(alts, text) ==
  JoinWith([i \in DOMAIN alts |-> RenderPlain(alts[i], text)], " | ")
=============================================================================
