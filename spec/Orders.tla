------------------------------- MODULE Orders -------------------------------
(* The same translation unit, written in another way: its declarations in any  *)
(* order that C allows, records declared before they are defined or not, and   *)
(* declarations made more than once. A behaviour makes a unit (Unit.tla), and  *)
(* then spells it a second time, one declaration after the other. Both must    *)
(* give modules that mean the same (C18).                                      *)
EXTENDS Unit

CONSTANT MaxExtra   \* bound on the declarations that are added

VARIABLES
  out,      \* the second spelling so far
  placed,   \* the declarations (indexes of decls) that are in it, or left out
  tags,     \* the tags that have been mentioned in it at file scope, as <<u, tag>>
  order     \* the order in which kinds of declarations are asked for
ovars == <<out, placed, tags, order>>

-----------------------------------------------------------------------------
(* What a type needs to have been declared: names of typedefs, enumerations    *)
(* and complete records (by), tags of records whose first mention must not be  *)
(* in a prototype (proto), tags that it mentions itself (says).                *)
Nothing == [by |-> {}, proto |-> {}, says |-> {}, def |-> {}]
(* C comes after A *)
Join(A, C) == [by |-> A.by \cup C.by, proto |-> A.proto \cup (C.proto \ A.says), says |-> A.says \cup C.says, def |-> A.def \cup C.def]
RECURSIVE Behind(_)
(* the records by value behind a typedef *)
Behind(T) == CASE T.k = "r" -> {<<"rec", T.tag>>} [] T.k = "a" -> Behind(T.of) [] T.k = "t" -> Behind(env.td[T.name]) [] OTHER -> {}
RECURSIVE NeedsOf(_, _), NeedsOfAll(_, _), NeedsOfFields(_, _)
(* whole: the type must be complete here *)
NeedsOf(T, whole) ==
  CASE T.k = "r" -> [Nothing EXCEPT !.says = {<<T.u, T.tag>>}, !.by = IF whole THEN {<<"rec", T.tag>>} ELSE {}]
    [] T.k = "e" -> [Nothing EXCEPT !.by = {<<"en", T.tag>>}]
    [] T.k = "t" -> [Nothing EXCEPT !.by = {<<"td", T.name>>} \cup IF whole THEN Behind(T) ELSE {}]
    [] T.k = "p" -> NeedsOf(T.to, FALSE)
    [] T.k = "a" -> NeedsOf(T.of, TRUE)
    [] T.k = "f" -> LET a == NeedsOfAll(T.args, 1)
                    IN Join(NeedsOf(T.res, FALSE), [a EXCEPT !.proto = @ \cup a.says, !.says = {}])
    [] T.k = "x" -> NeedsOfFields(env.anon[T.id].fields, 1)
    [] OTHER -> Nothing
NeedsOfAll(s, i) == IF i > Len(s) THEN Nothing ELSE Join(NeedsOf(s[i], FALSE), NeedsOfAll(s, i + 1))
RECURSIVE TagIn(_)
TagIn(T) == CASE T.k = "a" -> TagIn(T.of) [] T.k = "p" -> TagIn(T.to) [] OTHER -> T.tag
NeedsOfFields(s, i) ==
  IF i > Len(s) THEN Nothing
  ELSE LET f == s[i]
           here == IF f.def
                   THEN LET t == TagIn(f.ty)
                        IN Join([Nothing EXCEPT !.says = {<<env.rec[t].u, t>>}, !.def = {<<"rec", t>>}], NeedsOfFields(env.rec[t].fields, 1))
                   ELSE Nothing
       IN Join(Join(here, NeedsOf(f.ty, TRUE)), NeedsOfFields(s, i + 1))

(* typedef struct S { ... } T; *)
Tagged(d) == "def" \in DOMAIN d
NeedsOfDecl(d) ==
  CASE d.d = "rec" -> Join([Nothing EXCEPT !.says = {<<d.u, d.tag>>}, !.def = {<<"rec", d.tag>>}],
                           NeedsOfFields(env.rec[d.tag].fields, 1))
    [] d.d = "fwd" -> [Nothing EXCEPT !.says = {<<d.u, d.tag>>}]
    [] d.d = "en" -> [Nothing EXCEPT !.def = {<<"en", d.tag>>}]
    [] d.d = "td" -> LET r == [NeedsOf(d.ty, FALSE) EXCEPT !.def = @ \cup {<<"td", d.name>>}]
                     IN IF Tagged(d) THEN LET t == TagIn(d.ty)
                                              s == [Nothing EXCEPT !.says = {<<env.rec[t].u, t>>}, !.def = {<<"rec", t>>}]
                                          IN Join(Join(s, NeedsOfFields(env.rec[t].fields, 1)), r)
                        ELSE r
    [] d.d = "fn" -> NeedsOf(Fn(d.res, d.args), FALSE)
    [] d.d \in {"var", "ext"} -> NeedsOf(d.ty, TRUE)
    [] d.d = "obj" -> NeedsOf(d.ty, ~d.ext)
    [] OTHER -> Nothing
(* what has been defined by a sequence of declarations *)
Given(s) == UNION {NeedsOfDecl(s[i]).def : i \in 1..Len(s)}
Mentioned(s) == UNION {NeedsOfDecl(s[i]).says : i \in 1..Len(s)}
Ready(d) == LET r == NeedsOfDecl(d) IN (r.by \ r.def) \subseteq Given(out) /\ r.proto \subseteq tags

Put(d) == out' = Append(out, d) /\ tags' = tags \cup NeedsOfDecl(d).says

-----------------------------------------------------------------------------
Begin ==
  /\ phase = "done"
  (* what is defined in another declaration goes with it *)
  /\ placed' = {i \in 1..Len(decls) : decls[i].d = "inner"}
  /\ \E o \in IF Sim THEN Pick({"cdefmstu", "utsmfedc", "mfeutdsc", "dtucsmef", "fcdtesmu"}) ELSE {"utsmfedc"} : order' = o
  /\ phase' = "spell"
  /\ UNCHANGED <<target, env, decls, stack, n, out, tags>>
Left == {i \in 1..Len(decls) : i \notin placed}
Place ==
  /\ phase = "spell"
  /\ \E i \in Pick({j \in Left : Ready(decls[j])}) : Put(decls[i]) /\ placed' = placed \cup {i}
  /\ n' = n + 1
  /\ UNCHANGED <<target, env, decls, stack, phase, order>>
(* a declaration that another makes superfluous is left out *)
Superfluous(i) ==
  \/ /\ decls[i].d = "fwd" /\ decls[i].tag \in DOMAIN env.rec
     /\ LET p == <<decls[i].u, decls[i].tag>> IN p \in tags \/ \A j \in 1..Len(decls) : p \notin NeedsOfDecl(decls[j]).proto
  \/ /\ decls[i].d \in {"ext", "obj", "fn", "td"} /\ ~Tagged(decls[i])
     /\ \E j \in 1..Len(decls) : j # i /\ (j \in placed => \E k \in 1..Len(out) : out[k] = decls[j])
                                 /\ decls[j].d \in {decls[i].d, "var"} /\ decls[j].name = decls[i].name
                                 /\ (decls[i].d = "obj" => decls[i].ext /\ (j < i \/ ~decls[j].ext))
LeaveOut ==
  /\ phase = "spell" /\ Chance(40)
  /\ \E i \in Pick({j \in Left : Superfluous(j)}) : placed' = placed \cup {i}
  /\ n' = n + 1
  /\ UNCHANGED <<target, env, decls, stack, phase, out, tags, order>>
(* what is there more often than needed *)
Extras == Len(out) + Cardinality({i \in placed : decls[i].d # "inner" /\ \A k \in 1..Len(out) : out[k] # decls[i]})
          - Cardinality({i \in placed : decls[i].d # "inner"})
MayAdd == phase = "spell" /\ Extras < MaxExtra /\ Chance(25)
(* struct S; before or after its definition *)
Mention ==
  /\ MayAdd
  /\ \E p \in Pick(Records \cup Incomplete) : Put([d |-> "fwd", u |-> p[1], tag |-> p[2]])
  /\ n' = n + 1
  /\ UNCHANGED <<target, env, decls, stack, phase, placed, order>>
(* a declaration of a function, a typedef or an object once more; an object    *)
(* also before its definition                                                  *)
Twice ==
  /\ MayAdd
  /\ \E i \in Pick({j \in 1..Len(decls) : \/ decls[j].d \in {"fn", "td"} /\ j \in placed
                                         \/ decls[j].d \in {"var", "obj"}}) :
     LET d == decls[i]
         e == CASE d.d = "var" -> [d |-> "ext", name |-> d.name, ty |-> d.ty] [] d.d = "obj" -> [d EXCEPT !.ext = TRUE]
                [] d.d = "td" -> [d |-> "td", name |-> d.name, ty |-> d.ty] [] OTHER -> d
     IN (d.d = "td" => d.ty.k # "x") /\ Ready(e) /\ Put(e)
  /\ n' = n + 1
  /\ UNCHANGED <<target, env, decls, stack, phase, placed, order>>
Spelled ==
  /\ phase = "spell" /\ Left = {}
  /\ phase' = "spelled"
  /\ UNCHANGED <<target, env, decls, stack, n>> /\ UNCHANGED ovars
Start == phase = "open" /\ Next /\ UNCHANGED ovars
Rest == phase \in {"spelled", "rest", "dropped"} /\ phase' = "rest" /\ UNCHANGED <<target, env, decls, stack, n>> /\ UNCHANGED ovars
ONext == Start \/ Begin \/ Place \/ LeaveOut \/ Mention \/ Twice \/ Spelled \/ Rest
OSpec == Init /\ out = <<>> /\ placed = {} /\ tags = {} /\ order = "" /\ [][ONext]_<<vars, ovars>>

-----------------------------------------------------------------------------
(* C allows the first spelling and the second                                  *)
LegalOrder(s) ==
  \A i \in 1..Len(s) : LET r == NeedsOfDecl(s[i]) before == SubSeq(s, 1, i - 1)
                       IN (r.by \ r.def) \subseteq Given(before) /\ r.proto \subseteq Mentioned(before)
NamesIn(s) == {<<IF s[i].d \in {"rec", "fwd"} THEN <<"tag", s[i].tag>> ELSE IF s[i].d = "en" THEN <<"enum", s[i].tag>> ELSE <<"name", s[i].name>>>>
               : i \in {j \in 1..Len(s) : s[j].d # "inner"}}
OrderOK == phase = "spelled" =>
  /\ LegalOrder(SelectSeq(decls, LAMBDA d : d.d # "inner")) /\ LegalOrder(out)
  /\ NamesIn(out) \cup {<<<<"tag", p[2]>>>> : p \in Mentioned(out)} = NamesIn(decls) \cup {<<<<"tag", p[2]>>>> : p \in Mentioned(decls)}
  /\ Given(out) = Given(decls)
(* there is a way on until all is said *)
NotStuck == phase = "spell" /\ Left # {} => \E i \in Left : Ready(decls[i]) \/ Superfluous(i)
OEmit == phase = "spelled" => PrintT("CASE " \o ToJson(Case @@ [out |-> out, order |-> order]))
=============================================================================
