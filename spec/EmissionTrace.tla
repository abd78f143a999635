--------------------------- MODULE EmissionTrace ----------------------------
(* Are recorded executions of generated modules behaviours of Emission? The    *)
(* traces are in traces.json: a sequence of [want, events, exported], an event *)
(* being what one statement did: the names it bound, the classes whose members *)
(* it set, each with the classes that it holds by value.                       *)
(* Every trace ends with one verdict, which names the clauses that fail.       *)
EXTENDS Emission, Json, TLC

Traces == JsonDeserialize("traces.json")
ToSet(s) == {s[i] : i \in DOMAIN s}

VARIABLES tr, l, verdict
tvars == <<want, bound, set, tr, l, verdict>>

TInit ==
  /\ EmissionInit
  /\ tr \in 1..Len(Traces)
  /\ l = 1 /\ verdict = {}
  /\ want = [complete |-> ToSet(Traces[tr].want.complete), opaque |-> ToSet(Traces[tr].want.opaque),
             names |-> ToSet(Traces[tr].want.names)]

Event == Traces[tr].events[l]
More == verdict = {} /\ l <= Len(Traces[tr].events)
TBind ==
  /\ More /\ Event.e = "bind"
  /\ IF Holds(BindClauses(ToSet(Event.names)))
     THEN Bind(ToSet(Event.names)) /\ l' = l + 1 /\ UNCHANGED <<tr, verdict>>
     ELSE verdict' = Refused(BindClauses(ToSet(Event.names))) /\ UNCHANGED <<want, bound, set, tr, l>>
TSet ==
  /\ More /\ Event.e = "set"
  /\ IF Holds(SetClauses(Event.cls, ToSet(Event.needs)))
     THEN SetMembers(Event.cls, ToSet(Event.needs)) /\ l' = l + 1 /\ UNCHANGED <<tr, verdict>>
     ELSE verdict' = Refused(SetClauses(Event.cls, ToSet(Event.needs))) /\ UNCHANGED <<want, bound, set, tr, l>>
TEnd ==
  /\ verdict = {} /\ l = Len(Traces[tr].events) + 1
  /\ verdict' = (IF Holds(EndClauses(ToSet(Traces[tr].exported))) THEN {"accepted"}
                 ELSE Refused(EndClauses(ToSet(Traces[tr].exported))))
  /\ UNCHANGED <<want, bound, set, tr, l>>
TSpec == TInit /\ [][TBind \/ TSet \/ TEnd]_tvars

Verdict == verdict # {} =>
  PrintT("CASE " \o ToJson([id |-> Traces[tr].id, at |-> l, verdict |-> verdict]))
=============================================================================
