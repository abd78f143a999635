-------------------------------- MODULE Notes --------------------------------
(* A translation unit with comments, and the options that decide what is       *)
(* written about the declarations: source comments (-c), docstrings (-d),      *)
(* locations (-e), verbosity. They are neutral: the module means the same for  *)
(* any comments and any of these options; and they say what they promise. The  *)
(* check of C17 replays the units with and without them.                       *)
EXTENDS Unit

VARIABLES
  notes,   \* of each declaration: the comment with it, [style, text]
  inner,   \* the comments within the records, and the way of the lines
  opts,    \* what is asked for
  place    \* the name of the source and how the command runs
nvars == <<notes, inner, opts, place>>

Options == {"c", "d", "e", "v", "q", "debug"}
DocStyles == {"block", "qt", "line", "lines"}
Styles == DocStyles \cup {"after", "plain", "slashes", "none"}
Texts == {"plain", "quotes", "triple", "backslash", "hash", "long", "unicode", "newlines", "percent", "braces", "coding", "empty", "command",
          "code", "html", "parts", "marks", "tabs"}
Places == [path : {"plain", "quote", "triple", "backslash", "percent", "accent", "hash", "space", "braces"}, flags : {"line", "lines"}, ascii : BOOLEAN]

RECURSIVE RandomNotes(_)
RandomNotes(k) == IF k = 0 THEN <<>> ELSE Append(RandomNotes(k - 1), [style |-> Rnd(Styles), text |-> Rnd(Texts)])
Annotate ==
  /\ phase = "done"
  /\ \E o \in IF Sim THEN Pick(SUBSET Options) ELSE SUBSET {"c", "d", "e"} :
     \E a \in IF Sim THEN {RandomNotes(Len(decls))} ELSE {[i \in 1..Len(decls) |-> [style |-> s, text |-> "plain"]] : s \in Styles} :
     \E i \in IF Sim THEN Pick({"none", "after", "before", "plain"}) ELSE {"none"} :
     \E p \in IF Sim THEN Pick(Places) ELSE {[path |-> "plain", flags |-> "line", ascii |-> FALSE]} :
       /\ opts' = o /\ notes' = a /\ inner' = i
       /\ place' = [p EXCEPT !.ascii = @ /\ p.path # "accent"]
  /\ phase' = "noted"
  /\ UNCHANGED <<target, env, decls, stack, n>>
Start == phase = "open" /\ Next /\ UNCHANGED nvars
Rest == phase \in {"noted", "rest", "dropped"} /\ phase' = "rest" /\ UNCHANGED <<target, env, decls, stack, n>> /\ UNCHANGED nvars
NNext == Start \/ Annotate \/ Rest
NSpec == Init /\ notes = <<>> /\ inner = "none" /\ opts = {} /\ place = [path |-> "plain", flags |-> "line", ascii |-> FALSE] /\ [][NNext]_<<vars, nvars>>

-----------------------------------------------------------------------------
NameOf(d) == CASE d.d \in {"rec", "fwd", "inner"} -> d.u \o "_" \o d.tag [] d.d = "en" -> d.tag [] OTHER -> d.name
(* the only declaration of its name: there is no doubt about its comment and   *)
(* its location                                                                *)
Alone(i) == \A j \in 1..Len(decls) : j # i => NameOf(decls[j]) # NameOf(decls[i])
Documented(i) == notes[i].style \in DocStyles /\ notes[i].text # "empty" /\ Alone(i)
Ordinary(i) == notes[i].style \in {"plain", "slashes"}
Pragma(i) == decls[i].d = "rec" /\ env.rec[decls[i].tag].pack > 1
(* the comments that must be in the module, and those that must not            *)
Said == IF "c" \in opts THEN {i \in 1..Len(decls) : decls[i].d \in {"rec", "fn", "td", "en", "var"} /\ Documented(i) /\ ~Pragma(i)} ELSE {}
Silent == IF "c" \in opts THEN {i \in 1..Len(decls) : decls[i].d # "mac" /\ Ordinary(i)} ELSE 1..Len(decls)
(* the declarations whose lines must be in the module, the functions that must *)
(* have docstrings                                                             *)
Located == IF "e" \in opts THEN {i \in 1..Len(decls) : decls[i].d \in {"rec", "fn", "td", "en", "var"} /\ Alone(i)} ELSE {}
Described == IF "d" \in opts THEN {i \in 1..Len(decls) : decls[i].d = "fn" /\ Alone(i)} ELSE {}
NotesOK == phase = "noted" => Said \cap Silent = {} /\ Described \subseteq {i \in 1..Len(decls) : decls[i].d = "fn"}
NEmit == phase = "noted" =>
  PrintT("CASE " \o ToJson(Case @@ [notes |-> notes, inner |-> inner, opts |-> opts, place |-> place, said |-> Said, silent |-> Silent,
                                    located |-> Located, described |-> Described]))
=============================================================================
