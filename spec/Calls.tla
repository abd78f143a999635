------------------------------- MODULE Calls -------------------------------
(* Calls of the translator, by every way to ask for a translation, as a        *)
(* pipeline of stages: any of them may refuse. The files that a call leaves,   *)
(* what it writes and how it ends are part of the state; sequences of calls    *)
(* share them. The checks of C14 (refusals) and C15 (all ways are equivalent)  *)
(* replay the sequences.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS
  Units,     \* how many inputs there are
  Configs,   \* the options
  Entries,   \* the ways to ask: string, file, list (API), command, stdin
  Outs,      \* where the module goes: stdout, file (command), stream, namespace (API)
  Faults,    \* what is wrong, "none" and warnings among them
  MaxCalls,
  Random

VARIABLES
  calls,   \* the calls so far, each with how it ended
  stage,   \* of the call that runs, "idle" between calls
  temps,   \* temporary files
  file,    \* the contents of the output file: nothing, empty, module
  stdout,  \* what the call wrote there: nothing, module
  message  \* whether it said what is wrong
vars == <<calls, stage, temps, file, stdout, message>>

Stages == <<"args", "libraries", "input", "output", "parse", "generate", "end">>
Commands == {"command", "stdin"}
Fits(e, o) == IF e \in Commands THEN o \in {"stdout", "file"} ELSE o \in {"stream", "namespace"}
Warnings == {"warning", "pragma", "overflow", "redefined macro", "extern initialised", "no name", "unused", "empty record"}
ArgFaults == {"kind", "option", "depth", "no files", "missing file", "directory", "missing second"}
LibFaults == {"library", "preload", "module", "regex"}
OutFaults == {"no such directory", "output is a directory"}
EndFaults == {"full device"}
ParseFaults == {"target", "standard", "flag"}
(* mistakes of the source, somewhere in it *)
SourceFaults == {"syntax", "unknown type", "conflict", "error directive", "missing include", "incomplete member", "assertion", "negative array",
                 "unfinished record", "unfinished if", "unfinished comment", "unfinished string", "redefinition", "same member", "same enumerator",
                 "unbalanced", "bad character", "bad octal", "bit-field alone", "wide bit-field", "in a header", "in the second file"}
None == {"none"}
Ok(f) == f \in None \cup Warnings
StageOf(f) ==
  CASE f \in ArgFaults -> "args"
    [] f \in LibFaults -> "libraries"
    [] f \in OutFaults -> "output"
    [] f \in EndFaults -> "end"
    [] Ok(f) -> "never"
    [] OTHER -> "parse"
(* what can be wrong with a call of this kind *)
Possible(e, o, f) ==
  /\ f \in ArgFaults \cup OutFaults \cup EndFaults => e \in Commands
  /\ f \in LibFaults => e \in Commands
  /\ f \in OutFaults \cup EndFaults => o = "file"
  /\ f \in {"missing file", "directory", "missing second", "in the second file", "no files"} => e # "stdin"
  /\ f = "in the second file" => e \in {"command", "list"}
  /\ f = "in a header" => e # "string"

Some(S) == IF Random THEN IF S = {} THEN {} ELSE RandomSubset(1, S) ELSE S
Cur == calls[Len(calls)]
Init == calls = <<>> /\ stage = "idle" /\ temps = {} /\ file = "nothing" /\ stdout = "nothing" /\ message = FALSE

Combos == {c \in Entries \X Outs \X Faults : Fits(c[1], c[2]) /\ Possible(c[1], c[2], c[3])}
(* at: where in the source the mistake is, in quarters; proc: the command has a process of its own *)
Begin ==
  /\ stage = "idle" /\ Len(calls) < MaxCalls
  /\ \E u \in Some(1..Units), c \in Some(Configs), e \in Some({x[1] : x \in Combos}) :
     \E f \in IF Random /\ RandomSubset(1, 1..5) \subseteq {1, 2} THEN {"none"} ELSE Some({x[3] : x \in {y \in Combos : y[1] = e}}) :
     \E o \in Some({x[2] : x \in {y \in Combos : y[1] = e /\ y[3] = f}}), q \in Some(IF Random THEN 0..4 ELSE {2}), p \in Some(IF Random THEN {TRUE, FALSE} ELSE {e \in Commands}) :
       calls' = Append(calls, [unit |-> u, cfg |-> c, entry |-> e, out |-> o, fault |-> f, at |-> q,
                               proc |-> p /\ e \in Commands, end |-> "open"])
  /\ stage' = IF \E e \in Commands : e = calls'[Len(calls')].entry THEN "args" ELSE "parse"
  /\ stdout' = "nothing" /\ message' = FALSE
  /\ UNCHANGED <<temps, file>>

After(s) == CASE s = "args" -> "libraries" [] s = "libraries" -> "input" [] s = "input" -> "output" [] s = "output" -> "parse"
              [] s = "parse" -> "generate" [] s = "generate" -> "end"
Fails == StageOf(Cur.fault) = stage
(* a stage does its part *)
Step ==
  /\ stage \notin {"idle", "end"} /\ ~Fails
  /\ stage' = After(stage)
  /\ temps' = IF stage = "input" /\ Cur.entry = "stdin" THEN temps \cup {Len(calls)} ELSE temps
  /\ file' = IF stage = "output" /\ Cur.out = "file" THEN IF Cur.fault \in EndFaults THEN file ELSE "empty" ELSE file
  /\ UNCHANGED <<calls, stdout, message>>
(* it refuses: what was opened is closed, temporary files are removed          *)
Refuse ==
  /\ stage \notin {"idle"} /\ Fails
  /\ stage' = "idle"
  /\ temps' = temps \ {Len(calls)}
  /\ message' = TRUE
  /\ calls' = [calls EXCEPT ![Len(calls)].end = "refused"]
  /\ UNCHANGED <<file, stdout>>
Succeed ==
  /\ stage = "end" /\ ~Fails
  /\ stage' = "idle"
  /\ temps' = temps \ {Len(calls)}
  /\ file' = IF Cur.out = "file" THEN "module" ELSE file
  /\ stdout' = IF Cur.out = "stdout" THEN "module" ELSE "nothing"
  /\ calls' = [calls EXCEPT ![Len(calls)].end = "ok"]
  /\ UNCHANGED message
Next == Begin \/ Step \/ Refuse \/ Succeed
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Ended == stage = "idle" /\ calls # <<>>
CallsOK ==
  Ended =>
    /\ (Cur.end = "ok") <=> Ok(Cur.fault)
    /\ Cur.end = "refused" => stdout = "nothing" /\ message
    /\ Cur.end = "ok" /\ Cur.out = "file" => file = "module"
    /\ temps = {}
OldFileKept == Ended /\ Cur.fault \in ArgFaults \cup LibFaults /\ Len(calls) > 1 /\ calls[Len(calls) - 1].out = "file" /\ calls[Len(calls) - 1].end = "ok"
                 => file = "module"
TempsOK == temps \subseteq {Len(calls)}
Ends == []<>(stage = "idle")
Emit == Ended /\ Len(calls) = MaxCalls => PrintT("CASE " \o ToJson([calls |-> calls, file |-> file]))
=============================================================================
