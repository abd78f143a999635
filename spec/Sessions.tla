------------------------------ MODULE Sessions ------------------------------
(* Translations that share a process. Each is a job: an input, a configuration,*)
(* a way to ask for it, and possibly a mistake in the input. A job runs in     *)
(* quanta; the scheduler may run any job that is open. What a job produces is  *)
(* made of what it reads of the tables that it works with: the parsing fixes   *)
(* them for its target, the generation reads them. The requirement is that the *)
(* product is that of the job alone in a new process.                          *)
(* SharedTables tells whether all jobs work on one set of tables, as class     *)
(* attributes or module globals would be; the requirement does not hold then,  *)
(* which TLC shows.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS
  Units,        \* how many inputs there are
  Configs,      \* the configurations
  Entries,      \* the ways to ask for a translation
  Faults,       \* mistakes that may be in the input ("none" is among them)
  Quanta,       \* how many quanta a job has
  MaxJobs,      \* jobs in a history
  MaxOpen,      \* jobs that are open at the same time
  SharedTables, \* TRUE: the design that the requirement excludes
  Random        \* simulation: pick the next job at random

VARIABLES
  jobs,     \* the jobs so far, in the order in which they start
  done,     \* how many quanta each of them has run
  reads,    \* what each of them has read
  tables,   \* the contents of each set of tables
  loaded,   \* the jobs whose product was loaded as a module, in their order
  history,  \* what happened
  over
vars == <<jobs, done, reads, tables, loaded, history, over>>

None == "empty"
Slot(j) == IF SharedTables THEN 1 ELSE j
Open == {j \in 1..Len(jobs) : done[j] < Quanta}
Closed == {j \in 1..Len(jobs) : done[j] = Quanta}
Failed(j) == jobs[j].fault # "none"
Some(S) == IF Random THEN IF S = {} THEN {} ELSE RandomSubset(1, S) ELSE S
Rnd(k) == IF Random THEN Len(history) >= 0 /\ \E x \in RandomSubset(1, 1..100) : x <= k ELSE TRUE

Init ==
  /\ jobs = <<>> /\ done = <<>> /\ reads = <<>>
  /\ tables = [s \in 1..MaxJobs |-> None]
  /\ loaded = <<>> /\ history = <<>> /\ over = FALSE

(* own: the job has its configuration object for itself *)
Start ==
  /\ Len(jobs) < MaxJobs /\ Cardinality(Open) < MaxOpen /\ (Rnd(50) \/ Open = {})
  /\ \E u \in Some(1..Units), c \in Some(Configs), e \in Some(Entries), f \in Some(Faults), own \in Some(BOOLEAN) :
       jobs' = Append(jobs, [unit |-> u, cfg |-> c, entry |-> e, fault |-> f, own |-> own])
  /\ done' = Append(done, 0)
  /\ reads' = Append(reads, {})
  /\ history' = Append(history, [op |-> "start", job |-> Len(jobs) + 1])
  /\ UNCHANGED <<tables, loaded>>

(* The first quantum fixes the tables, the others read them. A job with a      *)
(* mistake in its input ends somewhere on its way, and produces nothing.       *)
Effect(j) ==
  /\ tables' = IF done[j] = 0 THEN [tables EXCEPT ![Slot(j)] = jobs[j].cfg] ELSE tables
  /\ reads' = IF done[j] = 0 THEN reads ELSE [reads EXCEPT ![j] = @ \cup {tables[Slot(j)]}]
Run ==
  \E j \in Some(Open) :
    /\ Effect(j)
    /\ done' = [done EXCEPT ![j] = @ + 1]
    /\ history' = Append(history, [op |-> "run", job |-> j])
    /\ UNCHANGED <<jobs, loaded>>
(* several quanta in one go, to the end; the ones in between change no more    *)
Finish ==
  \E j \in Some({k \in Open : done[k] > 0}) :
    /\ Rnd(30) /\ Random
    /\ Effect(j)
    /\ done' = [done EXCEPT ![j] = Quanta]
    /\ history' = Append(history, [op |-> "finish", job |-> j])
    /\ UNCHANGED <<jobs, loaded>>
(* The product is loaded as a module, which lives on in the process.           *)
Load ==
  /\ Rnd(40) /\ Random
  /\ \E j \in Some({k \in Closed : ~Failed(k) /\ \A i \in 1..Len(loaded) : loaded[i] # k}) :
       /\ loaded' = Append(loaded, j)
       /\ history' = Append(history, [op |-> "load", job |-> j])
  /\ UNCHANGED <<jobs, done, reads, tables>>
End ==
  /\ Len(jobs) = MaxJobs /\ Open = {} /\ ~over
  /\ over' = TRUE
  /\ UNCHANGED <<jobs, done, reads, tables, loaded, history>>
Next == ~over /\ (((Start \/ Run \/ Finish \/ Load) /\ UNCHANGED over) \/ End)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Product(j) == IF Failed(j) THEN {"refused"} ELSE reads[j]
Alone(j) == IF Failed(j) THEN {"refused"} ELSE IF Quanta > 1 THEN {jobs[j].cfg} ELSE {}
(* the requirement: whatever ran before and meanwhile *)
Independent == \A j \in Closed : Product(j) = Alone(j)
SessionsOK ==
  /\ \A i \in 1..Len(loaded) : loaded[i] \in Closed /\ ~Failed(loaded[i])
  /\ Cardinality(Open) <= MaxOpen
Emit == over => PrintT("CASE " \o ToJson([jobs |-> jobs, history |-> history, product |-> [j \in 1..Len(jobs) |-> Product(j)]]))
=============================================================================
