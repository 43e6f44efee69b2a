----------------------------- MODULE CacheFiles -----------------------------
(***************************************************************************)
(* The tables kept on disk: processes importing the package read each of   *)
(* the files, build what cannot be read and save it.                       *)
(*                                                                         *)
(* A file is two halves, the second one having the version: each half      *)
(* tells who wrote it.  Every process writes its own text (the order of    *)
(* entries differs between processes), so halves of different writers do   *)
(* not make a table even when they can be read together.                   *)
(*                                                                         *)
(* Atomic: saving writes a file of its own and puts it in place of the     *)
(* old one in one step; otherwise it writes in place.                      *)
(* Processes may be killed, and saving may fail, at any step; files may be *)
(* damaged while nobody runs.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Procs,        \* positive numbers
          Atomic, Faults, Damages, Runs

Files == <<"stubs", "modules">>
F == {1, 2}
None == 0               \* absent half
Old == 100              \* a complete file of another version
Bad == 101              \* unreadable contents
Blocked == 102          \* something that cannot be replaced is in place
Absent == <<None, None>>
Kinds == [absent |-> Absent, old |-> <<Old, Old>>, broken |-> <<Bad, Bad>>,
          partial |-> <<Old, None>>, blocked |-> <<Blocked, Blocked>>,
          complete |-> <<99, 99>>]

VARIABLES disk,         \* per file: its halves
          own,          \* per process: its temporary file
          pc, at,       \* per process: where it is, which file
          seen,         \* per process: the halves read
          tables,       \* per process and file: the halves in use, Absent if none
          failed,       \* per process: files whose saving failed
          touched,      \* per process: whether it wrote anything
          ready,        \* per process: everything was complete when it started
          runs,         \* per process: times it may start
          faults, damages,
          log           \* what happened, for replaying (single process)
vars == <<disk, own, pc, at, seen, tables, failed, touched, ready, runs, faults,
          damages, log>>

Complete(c) == c[1] = c[2] /\ c[1] \notin {None, Old, Bad, Blocked}
Readable(c) == /\ c[1] \notin {None, Bad, Blocked} /\ c[2] \notin {None, Bad, Blocked}
               /\ c[2] # Old
AllComplete == \A f \in F : Complete(disk[f])

Init == /\ \E k1, k2 \in DOMAIN Kinds :
             /\ disk = [f \in F |-> Kinds[IF f = 1 THEN k1 ELSE k2]]
             /\ log = << [op |-> "damage", at |-> k1, f |-> Files[1]],
                         [op |-> "damage", at |-> k2, f |-> Files[2]] >>
        /\ own = [p \in Procs |-> Absent]
        /\ pc = [p \in Procs |-> "idle"] /\ at = [p \in Procs |-> 1]
        /\ seen = [p \in Procs |-> Absent]
        /\ tables = [p \in Procs |-> [f \in F |-> Absent]]
        /\ failed = [p \in Procs |-> {}] /\ touched = [p \in Procs |-> FALSE]
        /\ ready = [p \in Procs |-> FALSE] /\ runs = [p \in Procs |-> Runs]
        /\ faults = Faults /\ damages = Damages

Go(p, place) == pc' = [pc EXCEPT ![p] = place]
Idle == {"idle", "done", "dead"}

Start(p) ==
  /\ pc[p] \in Idle /\ runs[p] > 0
  /\ runs' = [runs EXCEPT ![p] = @ - 1]
  /\ Go(p, "read")
  /\ at' = [at EXCEPT ![p] = 1]
  /\ own' = [own EXCEPT ![p] = Absent]
  /\ tables' = [tables EXCEPT ![p] = [f \in F |-> Absent]]
  /\ failed' = [failed EXCEPT ![p] = {}] /\ touched' = [touched EXCEPT ![p] = FALSE]
  /\ ready' = [ready EXCEPT ![p] = AllComplete]
  /\ UNCHANGED <<disk, seen, faults, damages, log>>

\* an open file is read as it was, unless somebody writes into it
Read(p) ==
  /\ pc[p] = "read"
  /\ Go(p, "read more")
  /\ seen' = [seen EXCEPT ![p] = disk[at[p]]]
  /\ UNCHANGED <<disk, own, at, tables, failed, touched, ready, runs, faults, damages, log>>
ReadMore(p) ==
  /\ pc[p] = "read more"
  /\ LET c == IF Atomic THEN seen[p] ELSE <<seen[p][1], disk[at[p]][2]>> IN
     IF Readable(c)
     THEN /\ tables' = [tables EXCEPT ![p][at[p]] = c]
          /\ Go(p, "next")
     ELSE Go(p, "build") /\ UNCHANGED tables
  /\ UNCHANGED <<disk, own, at, seen, failed, touched, ready, runs, faults, damages, log>>
Build(p) ==
  /\ pc[p] = "build"
  /\ tables' = [tables EXCEPT ![p][at[p]] = <<p, p>>]
  /\ Go(p, "create")
  /\ UNCHANGED <<disk, own, at, seen, failed, touched, ready, runs, faults, damages, log>>

\* writing: create (or empty), first half, second half, put in place
Place(p) == IF Atomic THEN own[p] ELSE disk[at[p]]
Put(p, c) == IF Atomic
             THEN own' = [own EXCEPT ![p] = c] /\ disk' = disk
             ELSE own' = own /\ disk' = [disk EXCEPT ![at[p]] = c]
Write(p) ==
  /\ \/ /\ pc[p] = "create"
        /\ Atomic \/ disk[at[p]] # Kinds.blocked
        /\ Put(p, Absent) /\ Go(p, "half")
     \/ pc[p] = "half" /\ Put(p, <<p, Place(p)[2]>>) /\ Go(p, "full")
     \/ pc[p] = "full" /\ Put(p, <<Place(p)[1], p>>)
        /\ Go(p, IF Atomic THEN "replace" ELSE "next")
     \/ /\ pc[p] = "replace" /\ disk[at[p]] # Kinds.blocked
        /\ disk' = [disk EXCEPT ![at[p]] = own[p]]
        /\ own' = [own EXCEPT ![p] = Absent] /\ Go(p, "next")
  /\ touched' = [touched EXCEPT ![p] = TRUE]
  /\ UNCHANGED <<at, seen, tables, failed, ready, runs, faults, damages, log>>
Saving(p) == pc[p] \in {"create", "half", "full", "replace"}
Stuck(p) == Saving(p) /\ disk[at[p]] = Kinds.blocked
            /\ pc[p] = IF Atomic THEN "replace" ELSE "create"
GiveUp(p) ==
  /\ failed' = [failed EXCEPT ![p] = @ \cup {at[p]}]
  /\ own' = [own EXCEPT ![p] = Absent]
  /\ Go(p, "next")
  /\ UNCHANGED <<disk, at, seen, tables, touched, ready, runs, damages>>
Fail(p) ==
  \/ Stuck(p) /\ GiveUp(p) /\ UNCHANGED <<faults, log>>
  \/ /\ Saving(p) /\ faults > 0 /\ ~Stuck(p)
     /\ faults' = faults - 1
     /\ log' = Append(log, [op |-> "error", at |-> pc[p], f |-> Files[at[p]]])
     /\ GiveUp(p)
Kill(p) ==
  /\ pc[p] \notin Idle /\ faults > 0
  /\ faults' = faults - 1
  /\ Go(p, "dead")
  /\ log' = Append(log, [op |-> "kill", at |-> pc[p], f |-> Files[at[p]]])
  /\ UNCHANGED <<disk, own, at, seen, tables, failed, touched, ready, runs, damages>>
Next1(p) ==
  /\ pc[p] = "next"
  /\ IF at[p] = 2 THEN Go(p, "done") /\ UNCHANGED at
     ELSE Go(p, "read") /\ at' = [at EXCEPT ![p] = 2]
  /\ log' = IF at[p] = 2 THEN Append(log, [op |-> "import", at |-> "", f |-> ""]) ELSE log
  /\ UNCHANGED <<disk, own, seen, tables, failed, touched, ready, runs, faults, damages>>
Damage ==
  /\ damages > 0 /\ \A p \in Procs : pc[p] \in Idle
  /\ damages' = damages - 1
  /\ \E f \in F, k \in DOMAIN Kinds :
       /\ disk' = [disk EXCEPT ![f] = Kinds[k]]
       /\ log' = Append(log, [op |-> "damage", at |-> k, f |-> Files[f]])
  /\ UNCHANGED <<own, pc, at, seen, tables, failed, touched, ready, runs, faults>>

Advance(p) == Start(p) \/ Read(p) \/ ReadMore(p) \/ Build(p) \/ Write(p) \/ Fail(p)
              \/ Next1(p)
Over == \A p \in Procs : pc[p] \in Idle /\ runs[p] = 0
Step == (\E p \in Procs : Advance(p) \/ Kill(p)) \/ Damage
Spec == Init /\ [][Step]_vars /\ \A p \in Procs : WF_vars(Advance(p))

\* what is used is always right, wherever it came from
TablesRight == \A p \in Procs, f \in F :
  tables[p][f] # Absent => Complete(tables[p][f])
\* nothing readable is wrong
Detected == \A f \in F : Readable(disk[f]) => Complete(disk[f])
\* complete tables are used as they are
Reused == \A p \in Procs : Atomic /\ ready[p] /\ damages = Damages => ~touched[p]
\* one uninterrupted import is enough
Usable == Damages = 0 =>
  \A p \in Procs : pc[p] = "done" /\ failed[p] = {} => AllComplete
Terminates == \A p \in Procs : <>(pc[p] \in {"done", "dead"})

\* histories of one process for replaying
Emit == Over => PrintT("HISTORY " \o ToJson([log |-> log]))
Quiet == [disk |-> disk, own |-> own, pc |-> pc, at |-> at, tables |-> tables,
          failed |-> failed, touched |-> touched, ready |-> ready, runs |-> runs,
          faults |-> faults, damages |-> damages, seen |-> seen]
=============================================================================
