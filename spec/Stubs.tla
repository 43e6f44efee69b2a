------------------------------- MODULE Stubs -------------------------------
(***************************************************************************)
(* Type stubs: what names in them mean and which signatures they give.     *)
(*                                                                         *)
(* A world W maps module names to records [p, pkg, b]: the parts of the    *)
(* name, whether the module is a package, its statements.  Statements are  *)
(*   [k |-> "def", n, ps, r, dec]     parameters, return annotation and    *)
(*                                    decorators of a function             *)
(*   [k |-> "class", n, b, body]      base expressions, statements         *)
(*   [k |-> "import", n, m, as]       import m / import m as n             *)
(*   [k |-> "from", n, of, lv, m]     from <lv dots><m> import of as n     *)
(*   [k |-> "star", n, lv, m]         from <lv dots><m> import *           *)
(*   [k |-> "assign", n, v]           n = v                                *)
(*   [k |-> "var", n, a, v]           n: a                                 *)
(*   [k |-> "if", c, t, f]            condition on version and platform    *)
(* A definition is identified by its location [m, p]: module and path; a   *)
(* module by [m, <<>>].                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

NotFound == [m |-> "", p |-> <<>>]
Loc(m, p) == [m |-> m, p |-> p]
Nil == [e |-> "nil"]

RECURSIVE Dotted(_)
Dotted(parts) == IF parts = <<>> THEN ""
                 ELSE IF Len(parts) = 1 THEN parts[1]
                 ELSE Dotted(SubSeq(parts, 1, Len(parts) - 1)) \o "."
                      \o parts[Len(parts)]
Text(loc) == loc.m \o ":" \o Dotted(loc.p)

(* -------------------------------------------------------------- conditions *)
(* lexicographic comparison of Python tuples of numbers: -1, 0, 1           *)
RECURSIVE Compare(_, _)
Compare(x, y) == CASE x = <<>> /\ y = <<>> -> 0
                   [] x = <<>> -> -1
                   [] y = <<>> -> 1
                   [] x[1] < y[1] -> -1
                   [] x[1] > y[1] -> 1
                   [] OTHER -> Compare(Tail(x), Tail(y))
Holds(op, c) == CASE op = "Gt" -> c > 0 [] op = "GtE" -> c >= 0
                  [] op = "Lt" -> c < 0 [] op = "LtE" -> c <= 0
                  [] op = "Eq" -> c = 0 [] op = "NotEq" -> c # 0

(* E: [version, platform]; versions go on after the numbers written out, so *)
(* a version is longer than any tuple it is compared with                   *)
RECURSIVE Condition(_, _)
Condition(c, E) ==
  CASE c.c = "ver" -> Holds(c.op, Compare(E.version, c.v))
    [] c.c = "veritem" -> Holds(c.op, Compare(<<E.version[c.i]>>, <<c.v>>))
    [] c.c = "plat" -> (c.op = "Eq") = (E.platform = c.v[1])
    [] c.c = "and" -> \A i \in DOMAIN c.a : Condition(c.a[i], E)
    [] c.c = "or" -> \E i \in DOMAIN c.a : Condition(c.a[i], E)
    [] c.c = "not" -> ~ Condition(c.a[1], E)
    [] c.c = "const" -> c.v = "T"

(* statements that take effect, in order, classes with such bodies          *)
RECURSIVE Effective(_, _)
Effective(b, E) ==
  FlattenSeq([i \in DOMAIN b |->
    CASE b[i].k = "if" -> Effective(IF Condition(b[i].c, E) THEN b[i].t
                                    ELSE b[i].f, E)
      [] b[i].k = "class" -> <<[b[i] EXCEPT !.body = Effective(b[i].body, E)]>>
      [] OTHER -> <<b[i]>>])
Compile(W, E) == [m \in DOMAIN W |-> [p |-> W[m].p, pkg |-> W[m].pkg,
                                      b |-> Effective(W[m].b, E)]]

(* ------------------------------------------------------- names in a scope *)
Binding(b, n) == {i \in DOMAIN b : b[i].n = n}
Binds(b, n) == \E i \in DOMAIN b : b[i].n = n
LastOf(S) == CHOOSE i \in S : \A j \in S : j <= i

(* body of the class at the path of the module, the module body for <<>>    *)
RECURSIVE BodyIn(_, _)
BodyIn(b, p) == IF p = <<>> THEN b
                ELSE BodyIn(b[LastOf({i \in Binding(b, p[1])
                                      : b[i].k = "class"})].body, Tail(p))
Body(W, loc) == BodyIn(W[loc.m].b, loc.p)
Parent(loc) == Loc(loc.m, SubSeq(loc.p, 1, Len(loc.p) - 1))
(* the last statement that defines the location                             *)
Statement(W, loc) == LET b == Body(W, Parent(loc))
                     IN b[LastOf(Binding(b, loc.p[Len(loc.p)]))]
(* a function may have several: overloads                                   *)
Statements(W, loc) == LET b == Body(W, Parent(loc))
                          n == loc.p[Len(loc.p)]
                      IN SelectSeq(b, LAMBDA s : s.n = n)
IsModule(loc) == loc.p = <<>> /\ loc.m # ""
IsClass(W, loc) == loc.p # <<>> /\ Statement(W, loc).k = "class"

(* module named by an import with lv leading dots inside module m           *)
Target(W, m, lv, path) ==
  IF lv = 0 THEN Dotted(path)
  ELSE LET parts == W[m].p
           keep == Len(parts) - lv + (IF W[m].pkg = "T" THEN 1 ELSE 0)
       IN Dotted(SubSeq(parts, 1, keep) \o path)
Sub(m, n) == IF m = "" THEN n ELSE m \o "." \o n
ModuleLoc(W, m) == IF m \in DOMAIN W THEN Loc(m, <<>>) ELSE NotFound

(* names a star import takes: those without a leading underscore            *)
Public(n) == n # "" /\ SubSeq(n, 1, 1) # "_"

(***************************************************************************)
(* Resolution.  seen: the names whose meaning is being determined, so      *)
(* cycles of imports and aliases that lead nowhere end in NotFound.        *)
(***************************************************************************)
RECURSIVE InModule(_, _, _, _), Follow(_, _, _, _, _), InStars(_, _, _, _, _),
          Resolve(_, _, _, _), Walk(_, _, _, _), Member(_, _, _, _),
          Mro(_, _, _), InScope(_, _, _, _)

(* meaning of the binding statement s of the scope                          *)
Follow(W, scope, s, n, seen) ==
  LET here == Loc(scope.m, scope.p \o <<n>>)
  IN CASE s.k \in {"def", "class", "var"} -> here
       [] s.k = "assign" ->
            IF s.v.e # "name" THEN here
            ELSE Resolve(W, scope, s.v.p, seen)
       [] s.k = "import" -> ModuleLoc(W, IF s.as = "T" THEN s.m ELSE n)
       [] s.k = "from" ->
            LET target == Target(W, scope.m, s.lv, s.m)
                e == InModule(W, target, s.of, seen)
            IN IF e = NotFound THEN ModuleLoc(W, Sub(target, s.of)) ELSE e

(* the star imports of the module, the last one that has the name wins      *)
InStars(W, m, n, from, seen) ==
  LET b == W[m].b
      stars == {i \in DOMAIN b : b[i].k = "star" /\ i > from}
  IN IF stars = {} \/ ~ Public(n) THEN NotFound
     ELSE LET meaning == TLCEval([i \in stars |->
                           InModule(W, Target(W, m, b[i].lv, b[i].m), n, seen)])
              having == {i \in stars : meaning[i] # NotFound}
          IN IF having = {} THEN NotFound ELSE meaning[LastOf(having)]

(* meaning of the name as an attribute of the module                        *)
InModule(W, m, n, seen) ==
  IF m \notin DOMAIN W \/ <<m, <<>>, n>> \in seen THEN NotFound
  ELSE LET b == W[m].b
           own == Binding(b, n)
           at == IF own = {} THEN 0 ELSE LastOf(own)
           now == seen \cup {<<m, <<>>, n>>}
           e == InStars(W, m, n, at, now)
       IN IF e # NotFound THEN e
          ELSE IF own = {} THEN NotFound
          ELSE Follow(W, Loc(m, <<>>), b[at], n, now)

(* meaning of a name written in the scope: class, then module, then builtins *)
InScope(W, scope, n, seen) ==
  LET inClass == scope.p # <<>> /\ Binds(Body(W, scope), n)
                 /\ <<scope.m, scope.p, n>> \notin seen
      b == Body(W, scope)
  IN IF inClass
     THEN Follow(W, scope, b[LastOf(Binding(b, n))], n,
                 seen \cup {<<scope.m, scope.p, n>>})
     ELSE LET e == InModule(W, scope.m, n, seen)
          IN IF e # NotFound THEN e ELSE InModule(W, "builtins", n, seen)

Resolve(W, scope, path, seen) ==
  Walk(W, InScope(W, scope, path[1], seen), Tail(path), seen)
Walk(W, e, path, seen) ==
  IF e = NotFound \/ path = <<>> THEN e
  ELSE Walk(W, Member(W, e, path[1], seen), Tail(path), seen)

(* attribute of a module or a class                                         *)
Member(W, e, n, seen) ==
  IF IsModule(e)
  THEN LET x == InModule(W, e.m, n, seen)
       IN IF x = NotFound THEN ModuleLoc(W, Sub(e.m, n)) ELSE x
  ELSE IF ~ IsClass(W, e) \/ Len(e.p) > 20 THEN NotFound
  ELSE LET order == Mro(W, e, seen)
           having == {i \in DOMAIN order : Binds(Body(W, order[i]), n)}
       IN IF having = {} THEN NotFound
          ELSE LET c == order[CHOOSE i \in having : \A j \in having : i <= j]
                   b == Body(W, c)
                   key == <<c.m, c.p, n>>
               IN IF key \in seen THEN NotFound
                  ELSE Follow(W, c, b[LastOf(Binding(b, n))], n, seen \cup {key})

(* ------------------------------------------------ method resolution order *)
Origin(x) == IF x.e = "sub" THEN x.v ELSE x
BaseLocs(W, c, seen) == TLCEval(
  LET key == <<c.m, c.p, "bases">>
      bases == Statement(W, c).b
      found == [i \in DOMAIN bases |->
                  IF Origin(bases[i]).e # "name" THEN NotFound
                  ELSE Resolve(W, Parent(c), Origin(bases[i]).p,
                               seen \cup {key})]
  IN IF key \in seen THEN <<>>
     ELSE SelectSeq(found, LAMBDA e : e # NotFound /\ IsClass(W, e) /\ e # c))

NonEmpty(seqs) == SelectSeq(seqs, LAMBDA s : Len(s) > 0)
InTail(c, s) == \E j \in 2..Len(s) : s[j] = c
RECURSIVE Merge(_)
Merge(sequences) ==
  LET seqs == TLCEval(NonEmpty(sequences))
      good == {i \in DOMAIN seqs : \A j \in DOMAIN seqs :
                                      ~ InTail(Head(seqs[i]), seqs[j])}
  IN IF seqs = <<>> THEN <<>>
     ELSE LET i == IF good = {} THEN 1
                   ELSE CHOOSE i \in good : \A j \in good : i <= j
              c == Head(seqs[i])
          IN <<c>> \o Merge([j \in DOMAIN seqs |->
                               SelectSeq(seqs[j], LAMBDA x : x # c)])

ObjectLoc == Loc("builtins", <<"object">>)
Mro(W, c, seen) == TLCEval(
  LET bases == BaseLocs(W, c, seen)
      now == seen \cup {<<c.m, c.p, "bases">>}
      all == IF bases = <<>> /\ c # ObjectLoc THEN <<ObjectLoc>> ELSE bases
  IN <<c>> \o Merge([i \in DOMAIN all |->
                       IF all[i] = ObjectLoc THEN <<ObjectLoc>>
                       ELSE Mro(W, all[i], now)] \o <<all>>))

(* meaning of a path from outside, as users spell it                        *)
At(W, m, path) == IF m \notin DOMAIN W THEN NotFound
                  ELSE Walk(W, Loc(m, <<>>), path, {})

(***************************************************************************)
(* Types: terms [o, a], o the operator, a the sequence of arguments.       *)
(* RT maps locations of definitions that exist when running to the terms   *)
(* of the objects found there.  "?" stands for what is not modelled.       *)
(***************************************************************************)
T0(o) == [o |-> o, a |-> <<>>]
Unknown == T0("?")
NoneTerm == T0("none")
AnyTerm == T0("any")
SelfTerm == T0("self")
Starts(s, prefix) == Len(s) >= Len(prefix) /\ SubSeq(s, 1, Len(prefix)) = prefix

RECURSIVE MkUnion(_)
MkUnion(terms) ==
  LET ts == TLCEval(terms)       \* TLC: not again for every use
      flat == TLCEval(FlattenSeq([i \in DOMAIN ts |->
                 IF ts[i].o = "union" THEN ts[i].a ELSE <<ts[i]>>]))
      unique == SelectSeq([i \in DOMAIN flat |-> [i |-> i, t |-> flat[i]]],
                          LAMBDA x : \A j \in 1..(x.i - 1) : flat[j] # x.t)
  IN IF Len(unique) = 1 THEN unique[1].t
     ELSE [o |-> "union", a |-> [i \in DOMAIN unique |-> unique[i].t]]

(* type variables of a term in order of appearance                          *)
RECURSIVE Vars(_)
Vars(term) == IF Starts(term.o, "var|") THEN <<term.o>>
              ELSE LET all == FlattenSeq([i \in DOMAIN term.a |-> Vars(term.a[i])])
                   IN SelectSeq([i \in DOMAIN all |-> [i |-> i, t |-> all[i]]],
                                LAMBDA x : \A j \in 1..(x.i - 1) : all[j] # x.t)
Unique(s) == LET kept == SelectSeq([i \in DOMAIN s |-> [i |-> i, t |-> s[i]]],
                           LAMBDA x : \A j \in 1..(x.i - 1) : s[j] # x.t)
             IN [i \in DOMAIN kept |-> kept[i].t]
RECURSIVE VarsOf(_)
VarsOf(term) == Unique(IF Starts(term.o, "var|") THEN <<term.o>>
                       ELSE FlattenSeq([i \in DOMAIN term.a
                                        |-> VarsOf(term.a[i])]))

RECURSIVE Put(_, _)
Put(term, S) == TLCEval(
  IF term.o \in DOMAIN S THEN S[term.o]
  ELSE IF term.o = "union"
       THEN MkUnion([i \in DOMAIN term.a |-> Put(term.a[i], S)])
       ELSE IF term.a = <<>> THEN term
       ELSE [term EXCEPT !.a = [i \in DOMAIN term.a |-> Put(term.a[i], S)]])
Bindings(vars, args) == TLCEval(
  [v \in {vars[i] : i \in DOMAIN vars} |->
     LET i == CHOOSE i \in DOMAIN vars : vars[i] = v
     IN IF i <= Len(args) THEN args[i] ELSE Unknown])

IsTyping(e, n) == e.p = <<n>> /\ e.m \in {"typing", "typing_extensions"}

(* methods are not types, so they do not hide names of the module           *)
InTypes(W, scope, path) ==
  LET own == IF scope.p = <<>> THEN {} ELSE Binding(Body(W, scope), path[1])
      hidden == own # {} /\ Body(W, scope)[LastOf(own)].k = "def"
  IN Resolve(W, IF hidden THEN Loc(scope.m, <<>>) ELSE scope, path, {})

RECURSIVE Eval(_, _, _, _, _), TermOf(_, _, _, _), Subscript(_, _, _),
          VariableTerm(_, _, _, _, _)

(* type variables have a variance, a bound and constraints                  *)
VariableTerm(W, RT, e, s, busy) ==
  LET Of(x) == IF x.e = "const" THEN Unknown
               ELSE Eval(W, RT, Parent(e), x, busy \cup {e})
  IN [o |-> "var|" \o s.n,
      a |-> <<T0(s.v.v), IF s.v.b = Nil THEN T0("nobound") ELSE Of(s.v.b)>>
            \o [i \in 1..(Len(s.v.a) - 1) |-> Of(s.v.a[i + 1])]]

(* term of the object the location stands for                               *)
TermOf(W, RT, e, busy) ==
  IF IsModule(e) THEN T0("mod|" \o e.m)
  ELSE IF e = Loc("_typeshed", <<"Self">>) THEN SelfTerm
  ELSE IF Text(e) \in DOMAIN RT THEN RT[Text(e)]
  ELSE LET s == Statement(W, e)
       IN CASE s.k = "class" -> T0("s|" \o Dotted(e.p))
            [] s.k = "assign" ->
                 IF e \in busy THEN T0("fwd|" \o Dotted(e.p))
                 ELSE IF s.v.e = "call"
                 THEN IF s.v.f.e = "name"
                      THEN LET f == Resolve(W, Parent(e), s.v.f.p, {})
                           IN IF IsTyping(f, "TypeVar")
                              THEN VariableTerm(W, RT, e, s, busy)
                              ELSE IF IsTyping(f, "ParamSpec")
                              THEN T0("var|" \o s.n)
                              ELSE Unknown
                      ELSE Unknown
                 ELSE Eval(W, RT, Parent(e), s.v, busy \cup {e})
            [] OTHER -> Unknown

Subscript(head, args, tup) ==
  CASE head.o = "?" -> Unknown
    [] args = <<>> -> [o |-> head.o, a |-> <<T0("list")>>]
    [] head.o = "Union" -> MkUnion(args)
    [] head.o = "Optional" -> MkUnion(<<args[1], NoneTerm>>)
    [] head.o = "Literal" ->
         [o |-> "literal",
          a |-> FlattenSeq([i \in DOMAIN args |->
                   IF args[i].o = "literal" THEN args[i].a ELSE <<args[i]>>])]
    [] head.o = "Annotated" -> args[1]
    [] Starts(head.o, "s|") \/ Starts(head.o, "n|") -> head
    [] Starts(head.o, "x|") -> Unknown
    [] VarsOf(head) # <<>> -> Put(head, Bindings(VarsOf(head), args))
    [] head.a # <<>> -> head
    [] OTHER -> [o |-> head.o, a |-> args]

Eval(W, RT, scope, x, busy) == TLCEval(
  CASE x.e = "nil" -> AnyTerm
    [] x.e = "none" -> NoneTerm
    [] x.e = "dots" -> T0("dots")
    [] x.e = "const" -> IF x.s = "T" THEN Unknown ELSE T0("const|" \o x.c)
    [] x.e = "name" ->
         LET e == InTypes(W, scope, x.p)
             owner == IF Len(x.p) = 1 THEN NotFound
                      ELSE InTypes(W, scope, SubSeq(x.p, 1, Len(x.p) - 1))
             direct == Text(Loc(owner.m, owner.p \o <<x.p[Len(x.p)]>>))
         IN IF owner # NotFound /\ direct \in DOMAIN RT THEN RT[direct]
            ELSE IF e = NotFound THEN Unknown ELSE TermOf(W, RT, e, busy)
    [] x.e = "or" -> MkUnion([i \in DOMAIN x.a |->
                                Eval(W, RT, scope, x.a[i], busy)])
    [] x.e \in {"list", "tuple"} ->
         [o |-> "list", a |-> [i \in DOMAIN x.a |->
                                 Eval(W, RT, scope, x.a[i], busy)]]
    [] x.e = "sub" ->
         LET head == Eval(W, RT, scope, x.v, busy)
             Arg(i) == IF head.o = "Literal" /\ x.a[i].e = "const"
                       THEN T0("const|" \o x.a[i].c)
                       ELSE Eval(W, RT, scope, x.a[i], busy)
         IN Subscript(head, TLCEval([i \in DOMAIN x.a |-> Arg(i)]), x.tup)
    [] OTHER -> Unknown)

RECURSIVE Hazy(_)
Hazy(term) == term.o = "?" \/ \E i \in DOMAIN term.a : Hazy(term.a[i])

(* want: from the stub, got: of the real object                             *)
RECURSIVE Match(_, _)
Match(want, got) ==
  CASE want.o = "?" -> TRUE
    [] want.o \in {"union", "literal"} ->
         IF Hazy(want) THEN TRUE
         ELSE /\ got.o = want.o
              /\ \A i \in DOMAIN want.a : \E j \in DOMAIN got.a :
                    Match(want.a[i], got.a[j])
              /\ \A j \in DOMAIN got.a : \E i \in DOMAIN want.a :
                    Match(want.a[i], got.a[j])
    [] Starts(want.o, "s|") -> got.o = want.o
    [] OTHER -> /\ got.o = want.o
                /\ Len(got.a) = Len(want.a)
                /\ \A i \in DOMAIN want.a : Match(want.a[i], got.a[i])

(***************************************************************************)
(* Generic classes: what the type variables of an ancestor stand for.      *)
(***************************************************************************)
IsGenericBase(W, c, x) ==
  /\ x.e = "sub" /\ x.v.e = "name"
  /\ LET e == Resolve(W, Parent(c), x.v.p, {})
     IN IsTyping(e, "Generic") \/ IsTyping(e, "Protocol")

(* the type variables of the class, in order                                *)
Parameters(W, RT, c) ==
  LET bases == Statement(W, c).b
      explicit == SelectSeq(bases, LAMBDA x : IsGenericBase(W, c, x))
      subs == SelectSeq(bases, LAMBDA x : x.e = "sub")
      from == IF explicit # <<>> THEN <<explicit[1]>> ELSE subs
  IN Unique(FlattenSeq([i \in DOMAIN from |->
        FlattenSeq([j \in DOMAIN from[i].a |->
           VarsOf(Eval(W, RT, Parent(c), from[i].a[j], {}))])]))

(* from the variables of ancestor a to terms in the scope of class c        *)
RECURSIVE Specialized(_, _, _, _)
Specialized(W, RT, c, a) == TLCEval(
  IF c = a THEN <<>>
  ELSE LET bases == Statement(W, c).b
           Of(i) == IF Origin(bases[i]).e # "name" THEN NotFound
                    ELSE Resolve(W, Parent(c), Origin(bases[i]).p, {})
           leading == {i \in DOMAIN bases : Of(i) # NotFound /\ IsClass(W, Of(i))
                         /\ Contains(Mro(W, Of(i), {}), a)}
       IN IF leading = {} THEN <<>>
          ELSE LET i == CHOOSE i \in leading : \A j \in leading : i <= j
                   base == Of(i)
                   above == Specialized(W, RT, base, a)
               IN IF bases[i].e # "sub" THEN above
                  ELSE LET here == Bindings(Parameters(W, RT, base),
                                 [j \in DOMAIN bases[i].a |->
                                    Eval(W, RT, Parent(c), bases[i].a[j], {})])
                       IN IF base = a THEN here
                          ELSE [v \in DOMAIN above |-> Put(above[v], here)])

(***************************************************************************)
(* Signatures.                                                             *)
(***************************************************************************)
Par(W, RT, scope, S, p) == [n |-> p.n, k |-> p.k, o |-> p.o, d |-> p.d,
                            a |-> Put(Eval(W, RT, scope, p.a, {}), S)]
DecoratedWith(W, scope, s, n) ==
  \E i \in DOMAIN s.dec : s.dec[i].e = "name"
      /\ Resolve(W, scope, s.dec[i].p, {}) = Loc("builtins", <<n>>)
Receiver(p, term) == [n |-> p.n, k |-> "PO", o |-> "R", d |-> "-", a |-> term]

(* how: "type" when a class is asked for, "plain" otherwise                 *)
OfDef(W, RT, scope, S, s, how) ==
  LET ps == [i \in DOMAIN s.ps |-> Par(W, RT, scope, S, s.ps[i])]
      inClass == scope.p # <<>>
      own == CASE how = "type" -> Tail(ps)
               [] DecoratedWith(W, scope, s, "classmethod") ->
                    <<Receiver(ps[1], [o |-> "c|builtins:type",
                                       a |-> <<SelfTerm>>])>> \o Tail(ps)
               [] DecoratedWith(W, scope, s, "staticmethod") -> ps
               [] inClass -> <<Receiver(ps[1], SelfTerm)>> \o Tail(ps)
               [] OTHER -> ps
  IN [ps |-> own,
      r |-> IF how = "type" /\ s.n = "__init__" THEN SelfTerm
            ELSE Put(Eval(W, RT, scope, s.r, {}), S)]
BindFirst(sig) == [sig EXCEPT !.ps = Tail(sig.ps)]

(* the fields of a named tuple are the parameters of its allocator          *)
IsNamedTuple(W, c) ==
  LET bases == Statement(W, c).b
  IN \E i \in DOMAIN bases : bases[i].e = "name"
       /\ IsTyping(Resolve(W, Parent(c), bases[i].p, {}), "NamedTuple")
OfNamedTuple(W, RT, c, S) ==
  LET fields == SelectSeq(Body(W, c), LAMBDA s : s.k = "var")
  IN [ps |-> [i \in DOMAIN fields |->
                [n |-> fields[i].n, k |-> "PO",
                 o |-> IF fields[i].v = Nil THEN "R" ELSE "O",
                 d |-> CASE fields[i].v.e = "nil" -> "-"
                         [] fields[i].v.e = "dots" -> "..."
                         [] fields[i].v.e = "none" -> "NoneType None"
                         [] fields[i].v.e = "const" -> fields[i].v.c
                         [] OTHER -> "?",
                 a |-> Put(Eval(W, RT, c, fields[i].a, {}), S)]],
      r |-> SelfTerm]

None == <<>>        \* no opinion

Defs(W, e) == SelectSeq(Statements(W, e), LAMBDA s : s.k = "def")
(* signatures of a variable whose type is the expression                    *)
RECURSIVE OfType(_, _, _, _, _), OfLoc(_, _, _, _)
OfType(W, RT, scope, x, fuel) ==
  CASE fuel = 0 -> None
    [] x.e = "name" ->
         LET e == Resolve(W, scope, x.p, {})
         IN IF e = NotFound \/ IsModule(e) THEN None
            ELSE IF IsClass(W, e)
            THEN LET c == Member(W, e, "__call__", {})
                 IN IF c = NotFound \/ Statement(W, c).k # "def" THEN None
                    ELSE LET defs == Defs(W, c)
                             S == Specialized(W, RT, e, Parent(c))
                         IN [i \in DOMAIN defs |-> BindFirst(
                               OfDef(W, RT, Parent(c), S, defs[i], "plain"))]
            ELSE LET s == Statement(W, e)
                 IN IF s.k = "var" THEN OfType(W, RT, Parent(e), s.a, fuel - 1)
                    ELSE IF s.k = "assign"
                    THEN OfType(W, RT, Parent(e), s.v, fuel - 1) ELSE None
    [] x.e = "call" /\ x.f.e = "name" ->
         IF ~ IsTyping(Resolve(W, scope, x.f.p, {}), "TypeVar") THEN None
         ELSE IF x.b.e # "nil" THEN OfType(W, RT, scope, x.b, fuel - 1)
         ELSE LET each == [i \in 1..(Len(x.a) - 1) |->
                             OfType(W, RT, scope, x.a[i + 1], fuel - 1)]
              IN IF \E i \in DOMAIN each : each[i] = None THEN None
                 ELSE FlattenSeq(each)
    [] x.e = "sub" /\ x.v.e = "name" ->
         IF ~ IsTyping(Resolve(W, scope, x.v.p, {}), "Callable") THEN None
         ELSE IF Len(x.a) # 2 THEN None
         ELSE LET r == Eval(W, RT, scope, x.a[2], {})
              IN IF x.a[1].e = "list"
                 THEN <<[ps |-> [i \in DOMAIN x.a[1].a |->
                                   [n |-> "_" \o ToString(i - 1), k |-> "PO",
                                    o |-> "R", d |-> "-",
                                    a |-> Eval(W, RT, scope, x.a[1].a[i], {})]],
                         r |-> r]>>
                 ELSE <<[ps |-> <<[n |-> "args", k |-> "VP", o |-> "O", d |-> "-",
                                   a |-> AnyTerm],
                                  [n |-> "kwargs", k |-> "VK", o |-> "O",
                                   d |-> "-", a |-> AnyTerm]>>, r |-> r]>>
    [] OTHER -> None

OfLoc(W, RT, e, how) ==
  LET s == Statement(W, e)
      scope == Parent(e)
  IN CASE s.k = "def" ->
            LET defs == Defs(W, e)
            IN [i \in DOMAIN defs |-> OfDef(W, RT, scope, <<>>, defs[i], how)]
       [] s.k = "var" -> OfType(W, RT, scope, s.a, 6)
       [] s.k = "assign" -> OfType(W, RT, scope, s.v, 6)
       [] OTHER -> None

(* where the class gets its parameters from: nearest initializer, else      *)
(* allocator, in the method resolution order                                *)
BuilderOf(W, c) ==
  LET order == Mro(W, c, {})
      Has(i, n) == Binds(Body(W, order[i]), n)
      having == {i \in DOMAIN order : Has(i, "__init__") \/ Has(i, "__new__")
                                      \/ IsNamedTuple(W, order[i])}
      i == CHOOSE i \in having : \A j \in having : i <= j
      name == IF Has(i, "__init__") THEN "__init__" ELSE "__new__"
  IN IF having = {} THEN [c |-> NotFound, n |-> ""]
     ELSE [c |-> order[i],
           n |-> IF IsNamedTuple(W, order[i]) /\ ~ Has(i, "__init__")
                    /\ ~ Has(i, "__new__") THEN "fields" ELSE name]

OfClass(W, RT, c) ==
  LET builder == BuilderOf(W, c)
  IN IF builder.n = "" THEN None
     ELSE IF builder.n = "fields"
     THEN <<OfNamedTuple(W, RT, builder.c, Specialized(W, RT, c, builder.c))>>
     ELSE LET e == Loc(builder.c.m, builder.c.p \o <<builder.n>>)
              defs == Defs(W, e)
              S == Specialized(W, RT, c, builder.c)
          IN [i \in DOMAIN defs |->
                OfDef(W, RT, builder.c, S, defs[i], "type")]

(* the class that binds the name of the member                              *)
BinderOf(W, c, n) ==
  LET order == Mro(W, c, {})
      having == {i \in DOMAIN order : Binds(Body(W, order[i]), n)}
  IN IF having = {} THEN NotFound
     ELSE order[CHOOSE i \in having : \A j \in having : i <= j]

(* signatures of an object of the sort (how) that is found at the path of   *)
(* the module; inherited members see the type arguments of the class, while *)
(* an alias of a member of another class is that member as it stands        *)
SignaturesAt(W, RT, m, path, how) == TLCEval(
  LET e == At(W, m, path)
      owner == At(W, m, SubSeq(path, 1, Len(path) - 1))
  IN IF e = NotFound \/ IsModule(e) THEN None
     ELSE IF IsClass(W, e) THEN OfClass(W, RT, e)
     ELSE IF how = "type" THEN None
     ELSE LET sigs == IF Statement(W, e).k = "def" /\ Len(e.p) > 1
                         /\ owner # Parent(e) /\ IsClass(W, owner)
                         /\ BinderOf(W, owner, Last(path)) = Parent(e)
                      THEN LET defs == Defs(W, e)
                               S == Specialized(W, RT, owner, Parent(e))
                           IN [i \in DOMAIN defs |->
                                 OfDef(W, RT, Parent(e), S, defs[i], "plain")]
                      ELSE OfLoc(W, RT, e, "plain")
          IN IF how = "bound" THEN [i \in DOMAIN sigs |-> BindFirst(sigs[i])]
             ELSE sigs)

(***************************************************************************)
(* Comparison of the signatures of the stub with an answer.                *)
(***************************************************************************)
SameDefault(want, got) == CASE want = "..." -> got = "-"
                            [] SubSeq(want, 1, 1) = "?" -> TRUE
                            [] OTHER -> got = want
ShapeMatches(want, got) ==
  /\ Len(want.ps) = Len(got.ps)
  /\ \A i \in DOMAIN want.ps :
       /\ want.ps[i].n = got.ps[i].n
       /\ want.ps[i].k = got.ps[i].k
       /\ want.ps[i].o = got.ps[i].o
DefaultsMatch(want, got) ==
  \A i \in DOMAIN want.ps : SameDefault(want.ps[i].d, got.ps[i].d)
TypesMatch(want, got) ==
  /\ \A i \in DOMAIN want.ps : Match(want.ps[i].a, got.ps[i].a)
  /\ Match(want.r, got.r)
EachMatches(want, got, M(_, _)) ==
  Len(want) = Len(got) /\ \A i \in DOMAIN want : M(want[i], got[i])
=============================================================================
