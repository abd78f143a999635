--------------------------- MODULE EmissionDesign ---------------------------
(* The design question: whatever records refer to each other in whatever way C *)
(* allows (by value only to records that can be completed first, by pointer to *)
(* any), is there always an order of statements that ends with everything      *)
(* bound and complete, and can an emitter that respects the clauses never get  *)
(* stuck? One class statement per record, its members later (as generated).    *)
EXTENDS Emission

CONSTANTS Tags, Eager  \* Eager: the members are set in the class statement itself
VARIABLES byvalue, byptr
dvars == <<want, bound, set, byvalue, byptr>>

RECURSIVE Reach(_, _)
Reach(S, k) == IF k = 0 THEN S ELSE Reach(S \cup {x \in Tags : \E y \in S : x \in byvalue[y]}, k - 1)
Acyclic == \A t \in Tags : t \notin Reach(byvalue[t], Cardinality(Tags))

DInit ==
  /\ EmissionInit
  /\ byvalue \in [Tags -> SUBSET Tags]
  /\ byptr \in [Tags -> SUBSET Tags]
  /\ \E op \in SUBSET Tags :
       /\ want = [complete |-> Tags \ op, opaque |-> op, names |-> {}]
       /\ \A t \in Tags : byvalue[t] \cap op = {}
       /\ \A t \in op : byvalue[t] = {} /\ byptr[t] = {}
  /\ Acyclic

EmitHead(t) == t \notin bound /\ Bind({t}) /\ UNCHANGED <<byvalue, byptr>>
EmitBody(t) ==
  /\ t \in bound /\ t \in want.complete /\ t \notin set
  /\ byvalue[t] \subseteq set /\ byptr[t] \subseteq bound
  /\ SetMembers(t, byvalue[t])
  /\ UNCHANGED <<byvalue, byptr>>
(* class and members in one statement: what the generator could do for some *)
EmitWhole(t) ==
  /\ t \notin bound /\ t \in want.complete
  /\ byvalue[t] \subseteq set /\ byptr[t] \subseteq bound \cup {t}
  /\ bound' = bound \cup {t} /\ set' = set \cup {t} /\ UNCHANGED <<want, byvalue, byptr>>
DNext == \E t \in Tags : IF Eager THEN EmitWhole(t) \/ (t \in want.opaque /\ EmitHead(t))
                         ELSE EmitHead(t) \/ EmitBody(t)
DSpec == DInit /\ [][DNext]_dvars /\ WF_dvars(DNext)

SetInv == set \subseteq bound /\ set \cap want.opaque = {}
           /\ \A t \in set : byvalue[t] \subseteq set /\ byptr[t] \subseteq bound \cup {t}
Done == want.complete \subseteq set /\ want.opaque \subseteq bound
NeverStuck == Done \/ ENABLED DNext
Finishes == <>Done
=============================================================================
