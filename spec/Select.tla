------------------------------- MODULE Select -------------------------------
(* Selections of a translation unit: by kind (-k), by name (-s), by regular    *)
(* expression (-r), and what the selected declarations need. The check of C11  *)
(* translates each unit with and without the selection.                        *)
EXTENDS Unit

CONSTANTS MaxPatterns
VARIABLES sel      \* [kinds, names, pats]
svars == <<vars, sel>>

-----------------------------------------------------------------------------
(* The declarations that can be selected, with their kind letter.              *)
ItemOf(d) ==
  CASE d.d \in {"fwd", "rec", "inner"} -> [name |-> d.u \o "_" \o d.tag, kind |-> IF d.u = "union" THEN "u" ELSE "s"]
    [] d.d = "td" -> [name |-> d.name, kind |-> "t"]
    [] d.d = "en" -> [name |-> d.tag, kind |-> "e"]
    [] d.d = "fn" -> [name |-> d.name, kind |-> "f"]
    [] d.d \in {"var", "ext", "obj"} -> [name |-> d.name, kind |-> "d"]
    [] d.d = "mac" -> [name |-> d.name, kind |-> "m"]
Items == {ItemOf(decls[i]) : i \in 1..Len(decls)}

(* Patterns: a literal, anchored or not at its ends; it is searched for.       *)
Infix(s, t) == \E i \in 1..(Len(t) - Len(s) + 1) : SubSeq(t, i, i + Len(s) - 1) = s
Matches(p, t) ==
  /\ Len(p.s) <= Len(t)
  /\ CASE p.start /\ p.end -> p.s = t
       [] p.start -> SubSeq(t, 1, Len(p.s)) = p.s
       [] p.end -> SubSeq(t, Len(t) - Len(p.s) + 1, Len(t)) = p.s
       [] OTHER -> Infix(p.s, t)
Selected ==
  {it \in Items : /\ it.kind \in sel.kinds
                  /\ \/ sel.names = {} /\ sel.pats = {}
                     \/ it.name \in sel.names
                     \/ \E p \in sel.pats : Matches(p, it.name)}

-----------------------------------------------------------------------------
(* What a type needs: the names of records, enumerations and typedefs.         *)
RECURSIVE Names(_), Deps(_)
Names(fs) == UNION {Deps(fs[i].ty) : i \in 1..Len(fs)}
Deps(T) ==
  CASE T.k \in {"b", "v"} -> {}
    [] T.k = "p" -> Deps(T.to)
    [] T.k = "a" -> Deps(T.of)
    [] T.k = "f" -> Deps(T.res) \cup UNION {Deps(T.args[i]) : i \in 1..Len(T.args)}
    [] T.k = "r" -> {<<"r", T.u, T.tag>>}
    [] T.k = "e" -> {<<"e", "", T.tag>>}
    [] T.k = "t" -> {<<"t", "", T.name>>} \cup Deps(env.td[T.name])
    [] T.k = "x" -> Names(env.anon[T.id].fields)
Step(S) == S \cup UNION {IF x[1] = "r" /\ x[3] \in DOMAIN env.rec THEN Names(env.rec[x[3]].fields)
                          ELSE IF x[1] = "t" THEN Deps(env.td[x[3]]) ELSE {} : x \in S}
RECURSIVE Fix(_)
Fix(S) == LET N == Step(S) IN IF N = S THEN S ELSE Fix(N)
Roots(it) ==
  CASE it.kind \in {"s", "u"} -> {<<"r", p[1], p[2]>> : p \in {q \in Records \cup env.inc : q[1] \o "_" \o q[2] = it.name}}
    [] it.kind = "e" -> {<<"e", "", it.name>>}
    [] it.kind = "t" -> {<<"t", "", it.name>>}
    [] it.kind = "f" -> UNION {Deps(decls[i].res) \cup UNION {Deps(decls[i].args[j]) : j \in 1..Len(decls[i].args)} :
                                 i \in {j \in 1..Len(decls) : decls[j].d = "fn" /\ decls[j].name = it.name}}
    [] OTHER -> {}
Closure == Fix(UNION {Roots(it) : it \in Selected})
PyName(x) == IF x[1] = "r" THEN x[2] \o "_" \o x[3] ELSE x[3]
Constants(x) == IF x[1] = "e" THEN {env.en[x[3]].items[i].name : i \in 1..Len(env.en[x[3]].items)} ELSE {}
(* Typedefs on the way may be named or replaced by what they stand for.        *)
Must == {it.name : it \in Selected} \cup UNION {{PyName(x)} \cup Constants(x) : x \in {y \in Closure : y[1] # "t"}}
(* What an object needs depends on what it becomes: it may be there.           *)
OfObjects == UNION {Deps(decls[i].ty) : i \in {j \in 1..Len(decls) : decls[j].d = "obj" /\ ItemOf(decls[j]) \in Selected}}
May == Must \cup UNION {{PyName(x)} \cup Constants(x) : x \in Fix(Closure \cup OfObjects)}

-----------------------------------------------------------------------------
SInit == Init /\ sel = [kinds |-> {}, names |-> {}, pats |-> {}]
AllKinds == {"s", "u", "t", "e", "f", "d", "m"}
Draw(S, k) == {x \in S : Rnd(1..k) = 1}
ItemNames == {it.name : it \in Items}
Slice(t, a, b) == SubSeq(t, Min2(a, Len(t)), Min2(Len(t), a + b))
Pattern == [s |-> Slice(Rnd(ItemNames \cup {"struct_", "fun", "nothing", "MAC", "T1", "S1"}), Rnd(1..9), Rnd(0..9)),
            start |-> Rnd(1..3) = 1, end |-> Rnd(1..3) = 1]
Choose ==
  /\ phase = "done"
  /\ phase' = "chosen"
  /\ \E kinds \in IF Sim THEN {IF Rnd(1..2) = 1 THEN AllKinds ELSE Draw(AllKinds, 2)} ELSE SUBSET {"s", "u", "t"} :
     \E names \in IF Sim THEN {IF Rnd(1..2) = 1 THEN {} ELSE Draw(ItemNames, 4)} ELSE {{}} \cup {{x} : x \in ItemNames} :
     \E pats \in IF Sim THEN {IF Rnd(1..2) = 1 THEN {} ELSE {Pattern : i \in 1..Rnd(1..MaxPatterns)}} ELSE {{}} :
       sel' = [kinds |-> kinds, names |-> names, pats |-> pats]
  /\ UNCHANGED <<target, env, decls, stack, n>>
SNext == (Next /\ UNCHANGED sel) \/ Choose
SSpec == SInit /\ [][SNext]_svars

(* sanity: a selection never needs more than the whole, and without a selection everything is there *)
SelectOK ==
  phase = "chosen" =>
    /\ Closure = Step(Closure)
    /\ sel.kinds = AllKinds /\ sel.names = {} /\ sel.pats = {} => ItemNames \subseteq Must
    /\ May \subseteq ItemNames \cup {p[1] \o "_" \o p[2] : p \in env.inc} \cup UNION {{env.en[e].items[i].name : i \in 1..Len(env.en[e].items)} : e \in DOMAIN env.en}
SEmit == phase = "chosen" => PrintT("CASE " \o ToJson(Case @@ [sel |-> sel, must |-> Must, may |-> May, picked |-> {it.name : it \in Selected}]))
=============================================================================
