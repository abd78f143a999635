-------------------------------- MODULE Funcs --------------------------------
(* Libraries, what they export, and the functions and variables of a header    *)
(* that is translated against them: which library each is bound to, and which  *)
(* libraries the generated module loads. The check of C10 builds the libraries *)
(* of each behaviour, generates, loads and calls.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sim, FnNames, VarNames, Ways, Exports, Dirs, Bases, MaxLibs, MaxDecls, Deps, DepFiles

VARIABLES
  libs,     \* the libraries given (-l), in order
  pre,      \* the libraries to preload (-p), in order
  files,    \* the names of the files of those that may be preloaded
  decls,    \* the declarations of the header
  n, phase
vars == <<libs, pre, files, decls, n, phase>>

Rnd(S) == IF n > 0 THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE
Pick(S) == IF Sim /\ S # {} THEN {Rnd(S)} ELSE S
Chance(p) == ~Sim \/ Rnd(1..100) <= p

(* How a library is given: its path, read with nm ("nm") or opened ("dl"), or  *)
(* the name of a system library ("m", "c"). What a library does with a name:   *)
(*   global, weak, alias, ifunc, versioned, protected: exports it              *)
(*   static, hidden, undefined, old (a version that is not the default): not   *)
Exporting == {"global", "weak", "alias", "ifunc", "versioned", "protected", "data", "bss", "const"}
SystemNames(way) == IF way = "m" THEN {"cos", "abs"} ELSE {"abs"}
Has(lib, name) ==
  IF lib.way \in {"m", "c"} THEN name \in SystemNames(lib.way)
  ELSE name \in DOMAIN lib.sym /\ lib.sym[name] \in Exporting
Holders(name) == {i \in 1..Len(libs) : Has(libs[i], name)}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
(* a static variable of the header has internal linkage: it is no library's *)
Internal(name) == \E i \in 1..Len(decls) : decls[i].name = name /\ decls[i].form = "static"
Bind(name) == IF Holders(name) = {} \/ Internal(name) THEN 0 ELSE Min(Holders(name))
(* the file of a library: the same one may be given twice *)
File(i) == <<libs[i].way \in {"m", "c"}, IF libs[i].way \in {"m", "c"} THEN libs[i].way ELSE libs[i].dir, libs[i].base>>

Init == libs = <<>> /\ pre = <<>> /\ files = [d \in Deps |-> d] /\ decls = <<>> /\ n = 1 /\ phase = "libs"

Symbols(S) ==
  IF Sim THEN LET D == {x \in S : Rnd(1..100) <= 60}
              IN {[x \in D |-> Rnd(IF x \in VarNames THEN {"data", "bss", "const", "hidden", "weak"} ELSE Exports)]}
  ELSE UNION {[D -> Exports] : D \in SUBSET S}
AddLib ==
  /\ phase = "libs" /\ Len(libs) < MaxLibs
  /\ \E way \in Pick(Ways), dir \in Pick(Dirs), base \in Pick(Bases) :
     \E sym \in IF way \in {"m", "c"} THEN {[x \in {} |-> ""]} ELSE Symbols((FnNames \ {"cos"}) \cup VarNames) :
     \E need \in IF way \in {"m", "c"} \/ ~Sim THEN {{}} ELSE Pick(SUBSET Deps) :
       LET l == [way |-> way, dir |-> dir, base |-> base, sym |-> sym, need |-> need]
       IN /\ \A i \in 1..Len(libs) : File(i) # <<way \in {"m", "c"}, IF way \in {"m", "c"} THEN way ELSE dir, base>>
          /\ libs' = Append(libs, l)
  /\ n' = n + 1 /\ UNCHANGED <<pre, files, decls, phase>>
(* the same library once more: it changes nothing *)
AddAgain ==
  /\ phase = "libs" /\ libs # <<>> /\ Len(libs) < MaxLibs /\ Chance(15)
  /\ \E i \in Pick(1..Len(libs)) : libs' = Append(libs, libs[i])
  /\ n' = n + 1 /\ UNCHANGED <<pre, files, decls, phase>>
(* a library with undefined symbols can only be loaded after those that have   *)
(* them, and those are only seen when they are preloaded. d2 itself needs d1.  *)
Needed == UNION {libs[i].need : i \in 1..Len(libs)}
Closed(S) == IF "d2" \in S THEN S \cup {"d1"} ELSE S
Preload ==
  /\ phase = "libs"
  /\ pre' = IF Closed(Needed) = {"d1", "d2"} THEN <<"d1", "d2">> ELSE IF "d1" \in Needed THEN <<"d1">>
            ELSE IF Sim /\ Deps # {} /\ Rnd(1..5) = 1 THEN <<"d1">> ELSE <<>>
  /\ files' \in Pick({f \in [Deps -> DepFiles] : \A x, y \in Deps : x # y => f[x] # f[y]})
  /\ phase' = "decls"
  /\ n' = n + 1 /\ UNCHANGED <<libs, decls>>

Form == {"plain", "extern", "noargs", "defined"}
VarForm == {"plain", "static", "defined", "tentative"}
Declare ==
  /\ phase = "decls" /\ Len(decls) < MaxDecls
  /\ \E name \in Pick(FnNames \cup VarNames), form \in Pick(IF Sim THEN Form ELSE {"plain"}), vf \in Pick(IF Sim THEN VarForm ELSE {"plain"}) :
       decls' = Append(decls, [name |-> name, var |-> name \in VarNames,
                   form |-> IF name \in {"cos", "abs"} \/ \E i \in 1..Len(decls) : decls[i].name = name
                            THEN "plain" ELSE IF name \in VarNames THEN vf ELSE form])
  /\ n' = n + 1 /\ UNCHANGED <<libs, pre, files, phase>>
Finish ==
  /\ phase = "decls" /\ decls # <<>>
  /\ Sim => Len(decls) >= MaxDecls
  /\ phase' = "done" /\ n' = n + 1 /\ UNCHANGED <<libs, pre, files, decls>>
Next == AddLib \/ AddAgain \/ Preload \/ Declare \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Declared == {decls[i].name : i \in 1..Len(decls)}
Used == {Bind(name) : name \in Declared} \ {0}
(* whatever is bound is exported there, and by no library given before *)
BindOK == \A name \in Declared : LET b == Bind(name)
          IN IF b = 0 THEN Holders(name) = {} \/ Internal(name) ELSE Has(libs[b], name) /\ \A i \in 1..(b - 1) : ~Has(libs[i], name)
(* giving a library twice never makes it used under its second number *)
OnceOK == \A i \in Used : \A j \in 1..(i - 1) : File(i) # File(j)
(* what the used libraries need is loaded before them, in an order that works *)
PreOK == phase # "libs" => Closed(Needed) \subseteq {pre[i] : i \in 1..Len(pre)}
Case == [libs |-> libs, pre |-> pre, files |-> files, decls |-> decls, bind |-> [name \in Declared |-> Bind(name)], used |-> Used]
Emit == phase = "done" => PrintT("CASE " \o ToJson(Case))
=============================================================================
