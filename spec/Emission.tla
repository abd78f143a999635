------------------------------ MODULE Emission ------------------------------
(* How a module comes into being, statement by statement, when it is executed: *)
(* names are bound, the members of classes are set. What C declares determines *)
(* what must have happened in the end; Python and ctypes determine what can    *)
(* happen when: a class is final once its members are set, and its size is     *)
(* that of its members at that time.                                           *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
  want,     \* what the unit declares: [complete |-> tags, opaque |-> tags, names |-> names]
  bound,    \* the names bound so far
  set       \* the classes whose members are set
evars == <<want, bound, set>>

EmissionInit == bound = {} /\ set = {}

(* the clauses, each with its name, so that a refusal can be explained *)
BindClauses(new) ==
  [once |-> new \cap bound = {}]
SetClauses(cls, needs) ==
  [bound_before_set |-> cls \in bound,
   set_once |-> cls \notin set,
   members_known |-> needs \subseteq set,
   not_opaque |-> cls \notin want.opaque]
EndClauses(exported) ==
  [all_complete |-> want.complete \subseteq set,
   opaque_bound |-> want.opaque \subseteq bound,
   exported_bound |-> exported \subseteq bound,
   declared_bound |-> want.names \subseteq bound]
Holds(c) == \A k \in DOMAIN c : c[k]
Refused(c) == {k \in DOMAIN c : ~c[k]}

Bind(new) == Holds(BindClauses(new)) /\ bound' = bound \cup new /\ UNCHANGED <<want, set>>
SetMembers(cls, needs) ==
  /\ Holds(SetClauses(cls, needs))
  /\ set' = set \cup {cls}
  /\ UNCHANGED <<want, bound>>
Ended == Holds(EndClauses({}))
=============================================================================
