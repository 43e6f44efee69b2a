---------------------------- MODULE BuildProcess ----------------------------
(***************************************************************************)
(* Building the tables: the importing process starts a child, which        *)
(* imports modules one by one and sends the table through a pipe.          *)
(*                                                                         *)
(* A module may be fine, raise an exception (and is skipped) or end the    *)
(* process.  The work itself may raise an error, which is sent instead of  *)
(* the table.  The child may be killed at any step.  While the child is    *)
(* being started the main module is another one.  After a failed import    *)
(* there may be another attempt, with modules healed.                      *)
(*                                                                         *)
(* Inline = TRUE: modules are imported by the importing process;            *)
(* Closing = FALSE: the parent keeps its copy of the end to write into;    *)
(* Restoring = FALSE: the main module is restored after success only.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Attempts, Closing, Restoring, Inline
Behaviours == {"ok", "raise", "die"}

VARIABLES modules,      \* behaviour of each
          work,         \* "ok" or "error": the work apart from modules
          parent,       \* "idle", "starting", "waiting", "joining", "ok", "failed"
          why,          \* what was raised
          main,         \* "own" or "other"
          loaded,       \* modules loaded by the importing process
          child,        \* "none", "running", "sent", "dead"
          at,           \* module being imported by the child
          table,        \* modules indexed by the child
          pipe,         \* messages
          got,          \* table received
          writers,      \* processes having the end to write into
          left,         \* attempts
          killed,       \* whether the child was killed in this attempt
          log
vars == <<modules, work, parent, why, main, loaded, child, at, table, pipe, got,
          writers, left, killed, log>>

Init == /\ modules \in [1..N -> Behaviours] /\ work \in {"ok", "error"}
        /\ parent = "idle" /\ why = "" /\ main = "own" /\ loaded = {}
        /\ child = "none" /\ at = 0 /\ table = {} /\ pipe = <<>> /\ got = {}
        /\ writers = {} /\ left = Attempts /\ killed = FALSE /\ log = <<>>

Begin == /\ parent \in {"idle", "failed"} /\ left > 0
         /\ left' = left - 1 /\ parent' = "starting" /\ main' = "other"
         /\ child' = "none" /\ pipe' = <<>> /\ table' = {} /\ got' = {} /\ killed' = FALSE
         /\ writers' = {"parent"} /\ why' = ""
         /\ UNCHANGED <<modules, work, loaded, at, log>>
Fork == /\ parent = "starting" /\ child = "none"
        /\ child' = "running" /\ at' = 1
        /\ writers' = IF Closing THEN {"child"} ELSE {"parent", "child"}
        /\ parent' = "waiting"
        /\ UNCHANGED <<modules, work, why, main, loaded, table, pipe, got, left, killed,
                       log>>

Die == child' = "dead" /\ writers' = writers \ {"child"}
Import == /\ child = "running" /\ at <= N
          /\ CASE modules[at] = "ok" -> table' = table \cup {at} /\ UNCHANGED <<child, writers>>
               [] modules[at] = "raise" -> UNCHANGED <<child, writers, table>>
               [] OTHER -> Die /\ UNCHANGED table
          /\ at' = at + 1
          /\ loaded' = IF Inline THEN loaded \cup {at} ELSE loaded
          /\ UNCHANGED <<modules, work, parent, why, main, pipe, got, left,
                         killed, log>>
Send == /\ child = "running" /\ at > N
        /\ pipe' = Append(pipe, IF work = "ok" THEN [table |-> table, error |-> FALSE]
                                ELSE [table |-> {}, error |-> TRUE])
        /\ child' = "sent" /\ at' = at
        /\ UNCHANGED <<modules, work, parent, why, main, loaded, table, got, writers,
                       left, killed, log>>
End == /\ child = "sent" /\ Die
       /\ UNCHANGED <<modules, work, parent, why, main, loaded, at, table, pipe, got,
                      left, killed, log>>
Kill == /\ child \in {"running", "sent"} /\ ~killed /\ left > 0
        /\ killed' = TRUE /\ Die
        /\ UNCHANGED <<modules, work, parent, why, main, loaded, at, table, pipe, got,
                       left, log>>

Receive == /\ parent = "waiting" /\ pipe # <<>>
           /\ got' = Head(pipe).table /\ pipe' = Tail(pipe)
           /\ why' = IF Head(pipe).error THEN "error" ELSE ""
           /\ parent' = "joining"
           /\ UNCHANGED <<modules, work, main, loaded, child, at, table, writers, left,
                          killed, log>>
\* reading ends when nobody can write
Notice == /\ parent = "waiting" /\ pipe = <<>> /\ writers = {}
          /\ why' = "died" /\ parent' = "joining"
          /\ UNCHANGED <<modules, work, main, loaded, child, at, table, pipe, got,
                         writers, left, killed, log>>
Join == /\ parent = "joining" /\ child = "dead"
        /\ parent' = IF why = "" THEN "ok" ELSE "failed"
        /\ main' = IF why = "" \/ Restoring THEN "own" ELSE main
        /\ log' = Append(log, [m |-> modules, w |-> work, k |-> killed, why |-> why])
        /\ UNCHANGED <<modules, work, why, loaded, child, at, table, pipe, got, writers,
                       left, killed>>
Heal == /\ parent = "failed" /\ left > 0
        /\ work' = "ok" /\ modules' \in [1..N -> {"ok", "raise"}]
        /\ \A i \in 1..N : modules[i] # "die" => modules'[i] = modules[i]
        /\ <<work', modules'>> # <<work, modules>>
        /\ UNCHANGED <<parent, why, main, loaded, child, at, table, pipe, got, writers,
                       left, killed, log>>

Parent == Begin \/ Fork \/ Receive \/ Notice \/ Join
Child == Import \/ Send \/ End
Spec == Init /\ [][Parent \/ Child \/ Kill \/ Heal]_vars /\ WF_vars(Parent) /\ WF_vars(Child)

Contained == loaded = {}
MainKept == parent \in {"idle", "ok", "failed"} => main = "own"
Skipped == parent = "ok" => got = {i \in 1..N : modules[i] = "ok"}
Raised == parent = "ok" => work = "ok" /\ \A i \in 1..N : modules[i] # "die"
Ends == (parent = "starting") ~> (parent \in {"ok", "failed"})
Recovers == (parent = "failed" /\ left > 0) ~> (parent = "ok" \/ left = 0)
Emit == parent \in {"ok", "failed"} /\ (left = 0 \/ parent = "ok") =>
        PrintT("HISTORY " \o ToJson(log))
=============================================================================
