----------------------------- MODULE EvalThreads -----------------------------
(***************************************************************************)
(* Threads evaluating annotations that name each other (AliasCache), step  *)
(* by step.  The aliases being evaluated and the remembered values are     *)
(* shared; a lock is taken around every evaluation from outside, and kept  *)
(* by its owner for the nested ones.                                       *)
(*                                                                         *)
(* Locked = FALSE leaves the lock out: then answers may depend on what     *)
(* other threads are doing.                                                *)
(***************************************************************************)
EXTENDS AliasCache

CONSTANTS Threads, Locked

VARIABLES owner,        \* thread having the lock, 0 if nobody
          progress,     \* aliases being evaluated: [n, met], innermost last
          frames,       \* per thread: its evaluations, [n, i, vs], innermost last
          asking,       \* per thread: the question, 0 if none
          given         \* per thread: answers, [n, v]
tvars == <<owner, progress, frames, asking, given>>

ThreadsInit ==
  /\ Init
  /\ owner = 0 /\ progress = <<>>
  /\ frames = [t \in Threads |-> <<>>]
  /\ asking = [t \in Threads |-> 0]
  /\ given = [t \in Threads |-> {}]

Busy(n) == \E i \in DOMAIN progress : progress[i].n = n

\* a thread asks once about each node at most
Begin(t) == \E n \in Nodes :
  /\ asking[t] = 0 /\ \A g \in given[t] : g.n # n
  /\ asking' = [asking EXCEPT ![t] = n]
  /\ UNCHANGED <<vars, owner, progress, frames, given>>

Enter(t) == LET n == asking[t] IN
  /\ n # 0 /\ frames[t] = <<>>
  /\ Locked => owner = 0
  /\ owner' = IF Locked THEN t ELSE owner
  /\ IF n \in DOMAIN cache
     THEN \* the outermost frame only returns what is known
          frames' = [frames EXCEPT ![t] = <<[n |-> n, i |-> 0, vs |-> <<>>]>>]
          /\ progress' = progress
     ELSE IF Busy(n)
     THEN frames' = [frames EXCEPT ![t] = <<[n |-> n, i |-> -1, vs |-> <<>>]>>]
          /\ progress' = [progress EXCEPT ![Len(progress)].met = @ \cup {n}]
     ELSE frames' = [frames EXCEPT ![t] = <<[n |-> n, i |-> 1, vs |-> <<>>]>>]
          /\ progress' = Append(progress, [n |-> n, met |-> {}])
  /\ UNCHANGED <<vars, asking, given>>

Answer(t, v) ==
  /\ given' = [given EXCEPT ![t] = @ \cup {[n |-> asking[t], v |-> v]}]
  /\ asking' = [asking EXCEPT ![t] = 0]
  /\ frames' = [frames EXCEPT ![t] = <<>>]
  /\ owner' = IF Locked THEN 0 ELSE owner

\* the value of the innermost evaluation goes to the enclosing one
Deliver(t, v) ==
  IF Len(frames[t]) = 1 THEN Answer(t, v)
  ELSE LET rest == Front(frames[t])
           outer == Last(rest)
       IN /\ frames' = [frames EXCEPT ![t] = Append(Front(rest),
                          [outer EXCEPT !.i = @ + 1, !.vs = Append(@, v)])]
          /\ UNCHANGED <<owner, asking, given>>

Step(t) ==
  /\ frames[t] # <<>>
  /\ LET f == Last(frames[t]) IN
     CASE f.i = 0 -> Answer(t, cache[f.n]) /\ UNCHANGED <<vars, progress>>
       [] f.i = -1 -> Answer(t, Value("fwd", f.n, <<>>)) /\ UNCHANGED <<vars, progress>>
       [] f.i > Len(refs[f.n]) ->
            LET v == Value("alias", f.n, f.vs)
                met == Last(progress).met
                left == met \ {f.n}
            IN /\ Deliver(t, v)
               /\ cache' = IF Keeps(f.n, met) THEN cache @@ (f.n :> v) ELSE cache
               /\ progress' = IF Len(progress) > 1 /\ left # {}
                              THEN [Front(progress) EXCEPT
                                      ![Len(progress) - 1].met = @ \cup left]
                              ELSE Front(progress)
               /\ UNCHANGED <<refs, kind, asked, answers>>
       [] OTHER ->
            LET n == refs[f.n][f.i] IN
            IF n \in DOMAIN cache
            THEN /\ frames' = [frames EXCEPT ![t] = Append(Front(frames[t]),
                               [f EXCEPT !.i = @ + 1, !.vs = Append(@, cache[n])])]
                 /\ UNCHANGED <<vars, progress, owner, asking, given>>
            ELSE IF Busy(n)
            THEN /\ frames' = [frames EXCEPT ![t] = Append(Front(frames[t]),
                               [f EXCEPT !.i = @ + 1,
                                         !.vs = Append(@, Value("fwd", n, <<>>))])]
                 /\ progress' = [progress EXCEPT ![Len(progress)].met = @ \cup {n}]
                 /\ UNCHANGED <<vars, owner, asking, given>>
            ELSE /\ frames' = [frames EXCEPT ![t] =
                               Append(@, [n |-> n, i |-> 1, vs |-> <<>>])]
                 /\ progress' = Append(progress, [n |-> n, met |-> {}])
                 /\ UNCHANGED <<vars, owner, asking, given>>

Done == \A t \in Threads : asking[t] = 0 /\ Cardinality(given[t]) = N
ThreadsNext == \/ \E t \in Threads : Begin(t) \/ Enter(t) \/ Step(t)
               \/ Done /\ UNCHANGED <<vars, tvars>>
ThreadsSpec == ThreadsInit /\ [][ThreadsNext]_<<vars, tvars>>
               /\ \A t \in Threads : SF_<<vars, tvars>>(Begin(t) \/ Enter(t) \/ Step(t))

Alike == \A t \in Threads : \A g \in given[t] : g.v = Alone(refs, kind, g.n)
Exclusive == Locked => \A t \in Threads : frames[t] # <<>> => owner = t
Quiet == (\A t \in Threads : frames[t] = <<>>) => progress = <<>>
Ends == <>Done
=============================================================================
