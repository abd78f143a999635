------------------------------- MODULE Files -------------------------------
(* A translation unit spread over files that include each other, and a choice  *)
(* of the files to translate. The check of C12 compares what is generated from *)
(* those files with and without the declarations of the others.                *)
EXTENDS Select

CONSTANTS MaxFiles
VARIABLES
  at,      \* the file of each declaration
  bodies,  \* of each file: its declarations and inclusions in their order
  opened,  \* the files being read, innermost last; file 1 is the main file
  sources  \* the files to translate
fvars == <<svars, at, bodies, opened, sources>>
Cur == opened[Len(opened)]
DeclAt(i) == [k |-> "d", i |-> i]
Include(f) == [k |-> "i", i |-> f]

-----------------------------------------------------------------------------
(* Values that come from the names of earlier declarations, of any file.       *)
MacroNames == {i \in 1..Len(decls) : decls[i].d = "mac"}
DefMacroOf ==
  /\ Has("macroof") /\ Idle /\ Chance(60)
  /\ \E i \in Pick(MacroNames) :
       decls' = Append(decls, [d |-> "mac", name |-> Name("MAC"), val |-> decls[i].val + 1, of |-> decls[i].name,
                               text |-> "(" \o decls[i].name \o " + 1)"])
  /\ n' = n + 1
  /\ UNCHANGED <<target, env, stack, phase>>
DeclVarOf ==
  /\ Has("varof") /\ Idle /\ Chance(60)
  /\ \E i \in Pick({j \in 1..Len(decls) : decls[j].d \in {"mac", "en"}}) :
       LET x == IF decls[i].d = "mac" THEN decls[i] ELSE decls[i].items[1]
       IN decls' = Append(decls, [d |-> "var", name |-> Name("var"), ty |-> B("int"), val |-> x.val,
                                  of |-> IF decls[i].d = "mac" THEN x.name ELSE decls[i].tag, text |-> x.name])
  /\ n' = n + 1
  /\ UNCHANGED <<target, env, stack, phase>>

(* The declarations go to the file that is being read.                         *)
Declare ==
  /\ (Next \/ DefMacroOf \/ DeclVarOf) /\ phase' \in {"open", "done"}
  /\ LET k == Len(decls') IN
     /\ at' = [i \in 1..k |-> IF i <= Len(at) THEN at[i] ELSE Cur]
     /\ bodies' = [bodies EXCEPT ![Cur] =
          SelectSeq(@, LAMBDA e : e.k = "i" \/ e.i <= k) \o [j \in 1..(IF k > Len(at) THEN k - Len(at) ELSE 0) |-> DeclAt(Len(at) + j)]]
  /\ UNCHANGED <<sel, opened, sources>>
(* #include "new file" *)
OpenFile ==
  /\ Idle /\ Len(bodies) < MaxFiles /\ Len(opened) <= 3
  /\ Chance(35)
  /\ opened' = Append(opened, Len(bodies) + 1)
  /\ bodies' = Append([bodies EXCEPT ![Cur] = Append(@, Include(Len(bodies) + 1))], <<>>)
  /\ UNCHANGED <<svars, at, sources>>
CloseFile ==
  /\ phase = "open" /\ stack = <<>> /\ Len(opened) > 1 /\ bodies[Cur] # <<>>
  /\ Chance(40)
  /\ opened' = SubSeq(opened, 1, Len(opened) - 1)
  /\ UNCHANGED <<svars, at, bodies, sources>>
(* a file once more: the guards leave nothing of it *)
OpenAgain ==
  /\ Idle /\ Len(bodies) > 1 /\ Chance(30)
  /\ \E f \in Pick((2..Len(bodies)) \ {Cur}) : bodies' = [bodies EXCEPT ![Cur] = Append(@, Include(f))]
  /\ UNCHANGED <<svars, at, opened, sources>>

-----------------------------------------------------------------------------
(* What each file is by itself.                                                *)
RECURSIVE WalkFile(_, _), WalkBody(_, _, _)
WalkFile(f, st) == IF f \in st.seen THEN st ELSE WalkBody(f, 1, [st EXCEPT !.seen = @ \cup {f}])
WalkBody(f, j, st) ==
  IF j > Len(bodies[f]) THEN st
  ELSE LET e == bodies[f][j]
       IN WalkBody(f, j + 1, IF e.k = "d" THEN [st EXCEPT !.order = Append(@, e.i)] ELSE WalkFile(e.i, st))
(* the declarations of its translation unit, in their order *)
UnitOf(f) == WalkFile(f, [order |-> <<>>, seen |-> {}]).order
Range(s) == {s[i] : i \in 1..Len(s)}

(* What a declaration needs before it: types by value, types in prototypes,    *)
(* the names of typedefs and enumerations. A pointer may be the first mention. *)
(* "def": complete, "fn": mentioned before, "ptr": nothing                      *)
RECURSIVE Uses(_, _, _)
Uses(T, whole, infn) ==
  CASE T.k \in {"b", "v"} -> {}
    [] T.k = "p" -> Uses(T.to, FALSE, infn)
    [] T.k = "a" -> Uses(T.of, TRUE, infn)
    [] T.k = "f" -> Uses(T.res, FALSE, TRUE) \cup UNION {Uses(T.args[i], FALSE, TRUE) : i \in 1..Len(T.args)}
    [] T.k = "r" -> {<<IF whole THEN "def" ELSE IF infn THEN "fn" ELSE "ptr", T.tag>>}
    [] T.k = "e" -> {<<"e", T.tag>>}
    [] T.k = "t" -> {<<"t", T.name>>} \cup IF whole THEN Uses(env.td[T.name], TRUE, infn) ELSE {}
    [] T.k = "x" -> UNION {Uses(env.anon[T.id].fields[i].ty, TRUE, FALSE) : i \in 1..Len(env.anon[T.id].fields)}
DeclUses(d) ==
  CASE d.d \in {"rec", "inner"} -> UNION {Uses(env.rec[d.tag].fields[i].ty, TRUE, FALSE) : i \in 1..Len(env.rec[d.tag].fields)}
    [] d.d = "td" -> Uses(d.ty, Canon(d.ty, env).k \notin {"r", "v"}, FALSE)
    [] d.d = "fn" -> Uses(d.res, FALSE, TRUE) \cup UNION {Uses(d.args[i], FALSE, TRUE) : i \in 1..Len(d.args)}
    [] d.d = "obj" -> Uses(d.ty, ~d.ext, FALSE)
    [] "of" \in DOMAIN d -> {<<"o", d.of>>}
    [] OTHER -> {}
Gives(d) ==
  CASE d.d \in {"rec", "inner"} -> {<<"def", d.tag>>, <<"fn", d.tag>>} \cup {<<"fn", x[2]>> : x \in {y \in DeclUses(d) : y[1] = "ptr"}}
    [] d.d = "fwd" -> {<<"fn", d.tag>>}
    [] d.d = "td" -> {<<"t", d.name>>} \cup {<<"fn", x[2]>> : x \in {y \in DeclUses(d) : y[1] = "ptr"}}
    [] d.d = "obj" -> {<<"fn", x[2]>> : x \in {y \in DeclUses(d) : y[1] = "ptr"}}
    [] d.d = "en" -> {<<"e", d.tag>>, <<"o", d.tag>>}
    [] d.d = "mac" -> {<<"o", d.name>>}
    [] OTHER -> {}
Given(s, i) == UNION {Gives(decls[s[j]]) : j \in 1..i}
(* the tags that a declaration itself mentions, with those of the records      *)
(* around an inner one                                                         *)
Own(d) == {<<"fn", x[2]>> : x \in {y \in DeclUses(d) : y[1] = "ptr"}} \cup IF d.d \in {"rec", "inner"} THEN {<<"fn", d.tag>>} ELSE {}
RECURSIVE Around(_, _)
Around(s, i) == Own(decls[s[i]]) \cup IF decls[s[i]].d = "inner" /\ i < Len(s) THEN Around(s, i + 1) ELSE {}
Alone(f) ==
  LET s == UnitOf(f)
  IN s # <<>> /\ \A i \in 1..Len(s) : {x \in DeclUses(decls[s[i]]) : x[1] # "ptr"} \subseteq Given(s, i - 1) \cup Around(s, i)
Whole == Alone(1) /\ UnitOf(1) = [i \in 1..Len(decls) |-> i]

-----------------------------------------------------------------------------
ChooseSources ==
  /\ phase = "done"
  /\ phase' = "chosen"
  /\ LET able == {f \in 1..Len(bodies) : Alone(f)} IN
     \E a \in Pick(able), b \in Pick(able \cup {0}), c \in Pick(able \cup {0}) :
       sources' = SelectSeq(<<a, b, c>>, LAMBDA x : x > 0)
  /\ UNCHANGED <<target, env, decls, stack, n, sel, at, bodies, opened>>

Picked == {f \in Range(sources) : TRUE}
Units == UNION {Range(UnitOf(f)) : f \in Picked}
Mine == {i \in Units : at[i] \in Picked}
Defined(S) == {decls[i].tag : i \in {j \in S : decls[j].d \in {"rec", "inner"}}}
(* everything that some declarations need, with the records that are complete  *)
RootsOf(d) ==
  CASE d.d \in {"fwd", "rec", "inner"} -> {<<"r", d.u, d.tag>>}
    [] d.d = "td" -> {<<"t", "", d.name>>}
    [] d.d = "en" -> {<<"e", "", d.tag>>}
    [] d.d = "fn" -> Deps(d.res) \cup UNION {Deps(d.args[j]) : j \in 1..Len(d.args)}
    [] OTHER -> {}
StepIn(S, def) == S \cup UNION {IF x[1] = "r" /\ x[3] \in def THEN Names(env.rec[x[3]].fields)
                                 ELSE IF x[1] = "t" THEN Deps(env.td[x[3]]) ELSE {} : x \in S}
RECURSIVE FixIn(_, _)
FixIn(S, def) == LET N == StepIn(S, def) IN IF N = S THEN S ELSE FixIn(N, def)
NeededIn(S, def) == FixIn(UNION {RootsOf(decls[i]) : i \in S}, def)
(* a declaration is read with the first of the sources that includes it: the    *)
(* records that are complete there have to be complete                         *)
New(k) == {i \in Range(UnitOf(sources[k])) : at[i] \in Picked} \ UNION {Range(UnitOf(sources[j])) : j \in 1..(k - 1)}
Needed(k) == NeededIn(New(k), Defined(Range(UnitOf(sources[k]))))
MustTypes == UNION {Needed(k) : k \in 1..Len(sources)}
MayTypes == NeededIn(Mine, Defined(Units)) \cup
            FixIn(UNION {Deps(decls[i].ty) : i \in {j \in Mine : decls[j].d = "obj"}}, Defined(Units))
(* but what is complete already is not read again for the sake of its members   *)
RECURSIVE FullUpTo(_)
FullUpTo(k) ==
  IF k = 0 THEN {}
  ELSE LET before == FullUpTo(k - 1)
           def == Defined(Range(UnitOf(sources[k])))
       IN before \cup ({x[3] : x \in {y \in NeededIn(New(k), def \ before) : y[1] = "r"}} \cap def)
Full == FullUpTo(Len(sources))
OwnNames == {ItemOf(decls[i]).name : i \in Mine} \cup UNION {{decls[i].items[j].name : j \in 1..Len(decls[i].items)} : i \in {k \in Mine : decls[k].d = "en"}}
TypeNames(S) == UNION {{PyName(x)} \cup Constants(x) : x \in S}

FInit == SInit /\ at = <<>> /\ bodies = <<<<>>>> /\ opened = <<1>> /\ sources = <<>>
FNext == Declare \/ OpenFile \/ CloseFile \/ OpenAgain \/ ChooseSources
FSpec == FInit /\ [][FNext]_fvars

-----------------------------------------------------------------------------
FilesOK ==
  phase = "chosen" =>
    /\ Len(at) = Len(decls)
    /\ Whole
    /\ MustTypes \subseteq MayTypes
    /\ 1 \in Picked => Units = 1..Len(decls)
FCase == [files |-> bodies, at |-> at, sources |-> sources, units |-> Units, mine |-> Mine,
          must |-> OwnNames \cup TypeNames({x \in MustTypes : x[1] # "t"}),
          may |-> OwnNames \cup TypeNames(MayTypes), full |-> Full, defined |-> Defined(Units)]
FEmit == phase = "chosen" => PrintT("CASE " \o ToJson(FCase @@ Case))
=============================================================================
