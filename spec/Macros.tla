------------------------------- MODULE Macros -------------------------------
(* A source file as a preprocessor reads it: definitions of macros, in force,   *)
(* undone, redefined or skipped, and declarations that use them. env is the      *)
(* value that each name has after the lines so far.                              *)
EXTENDS Expr, FiniteSets, TLC, Json

CONSTANTS Sim, MaxDefs, Anchors, Forms, Sufs, Kinds, Junk, MaxNodes, Target

VARIABLES lines, env, frozen, stk, n, phase
vars == <<lines, env, frozen, stk, n, phase>>

Rnd(S) == IF n > 0 THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE
Pick(S) == IF Sim /\ S # {} THEN {Rnd(S)} ELSE S
Anchor(x) == IF x[1] = 0 THEN W(x[2]) ELSE Add(Pow2(x[1]), W(x[2]))
RandBytes == [i \in 1..N |-> IF i <= 8 THEN Rnd(0..255) ELSE 0]

Init == lines = <<>> /\ env = <<>> /\ frozen = {} /\ stk = <<>> /\ n = 1 /\ phase = "open"

Names == DOMAIN env
OfKind(k) == {x \in Names : env[x].k = k}
None == [k |-> "none", t |-> "", v |-> <<>>, m |-> <<>>, open |-> FALSE]
IntV(t, v) == [k |-> "int", t |-> t, v |-> v, m |-> <<>>, open |-> FALSE]
FloatV(neg, m, e) == [k |-> "float", t |-> "", v |-> <<>>, m |-> <<IF neg THEN 1 ELSE 0, m, e>>, open |-> FALSE]
CharV(c) == [k |-> "char", t |-> "", v |-> <<>>, m |-> <<c>>, open |-> FALSE]
StrV(s, open) == [k |-> "str", t |-> "", v |-> <<>>, m |-> s, open |-> open]
EmptyV == [k |-> "empty", t |-> "", v |-> <<>>, m |-> <<>>, open |-> FALSE]

Line(name, kind, guard, form, suf, sign, paren, v, m, tree, pieces) ==
  [name |-> name, kind |-> kind, guard |-> guard, form |-> form, suf |-> suf, sign |-> sign, paren |-> paren,
   v |-> v, m |-> m, tree |-> tree, pieces |-> pieces]
NoTree == [op |-> "", name |-> "", form |-> "", suf |-> "", v |-> <<>>, kids |-> <<>>]

(* the name that the next definition gives a meaning, and how it stands there:  *)
(* new, again, again after an #undef; skipped by a condition, or kept by one     *)
Slots ==
  {[name |-> "M" \o ToString(n), guard |-> g] : g \in {"", "ifndef", "else"}}
  \cup {[name |-> x, guard |-> g] : x \in Names \ frozen, g \in {"again", "undef"}}
  \cup {[name |-> "M" \o ToString(n), guard |-> "if0"]}
  \cup {[name |-> x, guard |-> "skip"] : x \in Names}
Slot == IF Sim THEN {IF Rnd(1..4) > 1 THEN [name |-> "M" \o ToString(n), guard |-> ""] ELSE Rnd(Slots)}
        ELSE {[name |-> "M" \o ToString(n), guard |-> ""]}
Active(s) == s.guard \notin {"if0", "skip"}

Room(kind) == phase = "open" /\ kind \in Kinds /\ Len(lines) < MaxDefs
Define(s, line, val, refs) ==
  /\ lines' = Append(lines, line)
  /\ env' = IF ~Active(s) THEN env
            ELSE [x \in Names \cup {s.name} |-> IF x = s.name THEN val ELSE env[x]]
  /\ frozen' = frozen \cup refs
  /\ n' = n + 1
  /\ UNCHANGED phase

IntLit ==
  /\ Room("int") /\ stk = <<>>
  /\ \E s \in Slot, form \in Pick(Forms), suf \in Pick(Sufs), sign \in Pick({"", "-", "+"}), paren \in Pick({0, 1, 2}), a \in Pick(Anchors) :
     \E v \in {IF Sim /\ Rnd(1..6) = 1 THEN RandBytes ELSE Anchor(a)} :
       /\ LitOk(form = "dec", suf, v)
       /\ LET t == LitType(form = "dec", suf, v)
              w == IF sign = "-" THEN Neg(v) ELSE v
          IN /\ Fit(t, w)
             /\ Define(s, Line(s.name, "int", s.guard, form, suf, sign, paren, v, <<>>, NoTree, <<>>), IntV(t, w), {})
  /\ UNCHANGED stk

(* (-1)^neg * m * 10^e *)
FloatLit ==
  /\ Room("float") /\ stk = <<>>
  /\ \E s \in Slot, form \in Pick({"point", "exp", "lead", "trail", "hex"}), suf \in Pick({"", "l", "f"}), sign \in Pick({"", "-", "+"}),
        paren \in Pick({0, 1}), m \in Pick({0, 1, 5, 25, 75, 125, 1536, 31415927}), e \in Pick({-7, -3, -2, -1, 0, 1, 5, 20}) :
       (* what a float holds is what the decimal says only for some numbers *)
       /\ suf = "f" => <<m, e>> \in ({0, 1, 5, 25, 75, 125, 1536} \X {0, 1}) \cup {<<5, -1>>, <<25, -2>>, <<75, -2>>, <<125, -3>>, <<25, -1>>, <<75, -1>>}
       /\ form = "lead" => e < 0 /\ ((e = -1 /\ m < 10) \/ (e = -2 /\ m < 100) \/ (e = -3 /\ m < 1000) \/ (e = -7 /\ m < 10000000))
       /\ form = "trail" => e \in 0..5
       /\ form = "hex" => <<m, e>> \in ({0, 1, 5, 25, 75, 125, 1536} \X {0, 1, 5}) \cup {<<5, -1>>, <<25, -2>>, <<75, -2>>, <<125, -3>>}
       /\ Define(s, Line(s.name, "float", s.guard, form, suf, sign, paren, <<>>, <<m, e>>, NoTree, <<>>),
                 FloatV(sign = "-", m, e), {})
  /\ UNCHANGED stk

Codes == {97, 66, 48, 32, 34, 92, 39, 10, 9, 0, 7, 27, 63, 37, 35, 47, 42, 40, 41, 44, 123}
CharLit ==
  /\ Room("char") /\ stk = <<>>
  /\ \E s \in Slot, c \in Pick(Codes), suf \in Pick({"", "L"}), paren \in Pick({0, 1}) :
       Define(s, Line(s.name, "char", s.guard, "", suf, "", paren, <<>>, <<c>>, NoTree, <<>>), CharV(c), {})
  /\ UNCHANGED stk

(* a string: literal pieces, and earlier macros that are strings *)
Text(k) == [i \in 1..k |-> Rnd(Codes \cup {233, 20013})]
RECURSIVE Flat(_)
Flat(ps) == IF ps = <<>> THEN <<>>
            ELSE (IF Head(ps).name = "" THEN Head(ps).m ELSE env[Head(ps).name].m) \o Flat(Tail(ps))
LitPiece(m) == [name |-> "", m |-> m]
RefPiece(x) == [name |-> x, m |-> <<>>]
StrLit ==
  /\ Room("str") /\ stk = <<>>
  /\ \E s \in Slot, k \in Pick(1..3), suf \in Pick({"", "", "L"}), paren \in Pick({0, 0, 1}) :
     \E ps \in {[i \in 1..k |-> LET can == {x \in OfKind("str") \ {s.name} : env[x].open} IN
                                IF can # {} /\ suf = "" /\ Rnd(1..2) = 1 THEN RefPiece(Rnd(can))
                                ELSE LitPiece(IF Sim THEN Text(Rnd(0..5)) ELSE <<97, 66>>)]} :
       Define(s, Line(s.name, "str", s.guard, "", suf, "", paren, <<>>, <<>>, NoTree, ps),
              StrV(Flat(ps), paren = 0 /\ suf = ""), {ps[i].name : i \in 1..k} \ {""})
  /\ UNCHANGED stk

Alias ==
  /\ Room("alias") /\ stk = <<>>
  /\ \E s \in Slot : \E x \in Pick({y \in Names \ {s.name} : env[y].k # "none"}), paren \in Pick({0, 1}) :
       /\ env[x].k = "empty" => paren = 0
       /\ Define(s, Line(s.name, "alias", s.guard, "", "", "", paren, <<>>, <<>>, RefTo(x), <<>>),
                 [env[x] EXCEPT !.open = @ /\ paren = 0], {x})
  /\ UNCHANGED stk
Empty ==
  /\ Room("empty") /\ stk = <<>>
  /\ \E s \in Slot : Define(s, Line(s.name, "empty", s.guard, "", "", "", 0, <<>>, <<>>, NoTree, <<>>), EmptyV, {})
  /\ UNCHANGED stk
(* a body that has no value *)
NoValue ==
  /\ Room("junk") /\ stk = <<>>
  /\ \E s \in Slot, j \in Pick(Junk) :
       Define(s, Line(s.name, "junk", s.guard, j, "", "", 0, <<>>, <<>>, NoTree, <<>>), None, {})
  /\ UNCHANGED stk

(* a parenthesised expression, built from the leaves up *)
RECURSIVE Size(_)
Size(x) == 1 + (IF x.kids = <<>> THEN 0 ELSE Size(x.kids[1]) + (IF Len(x.kids) > 1 THEN Size(x.kids[2]) ELSE 0))
Building == Room("expr") /\ phase = "open"
Nodes == IF stk = <<>> THEN 0 ELSE LET F[i \in 0..Len(stk)] == IF i = 0 THEN 0 ELSE F[i - 1] + Size(stk[i].tree) IN F[Len(stk)]
Push(tree, t, v) == /\ stk' = Append(stk, [tree |-> tree, t |-> t, v |-> v])
                    /\ n' = n + 1
                    /\ UNCHANGED <<lines, env, frozen, phase>>
PushLit ==
  /\ Building /\ Nodes < MaxNodes /\ Len(stk) < 3
  /\ \E form \in Pick(Forms), suf \in Pick(Sufs), a \in Pick(Anchors) :
     \E v \in {IF Sim /\ Rnd(1..2) = 1 THEN W(Rnd(0..70)) ELSE Anchor(a)} :
       /\ LitOk(form = "dec", suf, v)
       /\ Push(Lit(form, suf, v), LitType(form = "dec", suf, v), v)
PushRef ==
  /\ Building /\ Nodes < MaxNodes /\ Len(stk) < 3
  /\ \E x \in Pick(OfKind("int")) : Push(RefTo(x), env[x].t, env[x].v)
Top == stk[Len(stk)]
Next1 == stk[Len(stk) - 1]
UnStep ==
  /\ Building /\ stk # <<>> /\ Nodes < MaxNodes
  /\ \E op \in Pick(UnOps) :
       /\ UnOk(op, Top)
       /\ LET r == UnValue(op, Top)
          IN stk' = [stk EXCEPT ![Len(stk)] = [tree |-> Un(op, Top.tree), t |-> r.t, v |-> r.v]]
       /\ n' = n + 1
       /\ UNCHANGED <<lines, env, frozen, phase>>
BinStep ==
  /\ Building /\ Len(stk) > 1
  /\ \E op \in Pick(BinOps) :
       /\ BinOk(op, Next1, Top)
       /\ LET r == BinValue(op, Next1, Top)
          IN stk' = Append(SubSeq(stk, 1, Len(stk) - 2), [tree |-> Bin(op, Next1.tree, Top.tree), t |-> r.t, v |-> r.v])
       /\ n' = n + 1
       /\ UNCHANGED <<lines, env, frozen, phase>>
(* an operand that no operator accepts is left out *)
Drop ==
  /\ Sim /\ Len(stk) > 0 /\ phase = "open"
  /\ stk' = SubSeq(stk, 1, Len(stk) - 1) /\ n' = n + 1
  /\ UNCHANGED <<lines, env, frozen, phase>>
Expression ==
  /\ Building /\ Len(stk) = 1
  /\ Sim => (Size(Top.tree) > 2 \/ Rnd(1..5) = 1)
  /\ \E s \in Slot, paren \in Pick({1, 2}) :
       /\ s.name \notin RefsOf(Top.tree)
       /\ Define(s, Line(s.name, "expr", s.guard, "", "", "", paren, <<>>, <<>>, Top.tree, <<>>), IntV(Top.t, Top.v), RefsOf(Top.tree))
  /\ stk' = <<>>

(* declarations that need the value in force here *)
Use ==
  /\ Room("use") /\ stk = <<>>
  /\ \E x \in Pick(OfKind("int")), how \in Pick({"enum", "array", "var", "bits"}) :
       /\ how = "array" => Lt(Zero, env[x].v) /\ Lt(env[x].v, W(5000))
       /\ how = "bits" => Lt(Zero, env[x].v) /\ Lt(env[x].v, W(33))
       /\ how = "enum" => Fit("i", env[x].v) \/ (LongBits = 64 /\ Lt(env[x].v, Pow2(63)))
       /\ Define([name |-> "", guard |-> "if0"],
                 Line("U" \o ToString(n), "use", "", how, "", "", 0, env[x].v, <<>>, RefTo(x), <<>>), None, {})
  /\ UNCHANGED stk

Finish ==
  /\ phase = "open" /\ stk = <<>> /\ lines # <<>> /\ (Sim => Len(lines) = MaxDefs)
  /\ phase' = "done"
  /\ UNCHANGED <<lines, env, frozen, stk, n>>
Next == IntLit \/ FloatLit \/ CharLit \/ StrLit \/ Alias \/ Empty \/ NoValue \/ PushLit \/ PushRef \/ UnStep \/ BinStep
        \/ Drop \/ Expression \/ Use \/ Finish
Spec == Init /\ [][Next]_vars

(* the last active definition of a name determines its value; what it refers to is as it was then *)
LastOf(x) == LET is == {i \in 1..Len(lines) : lines[i].name = x /\ lines[i].guard \notin {"if0", "skip"}}
             IN lines[CHOOSE i \in is : \A j \in is : j <= i]
InForce ==
  \A x \in Names :
    LET l == LastOf(x) IN
    /\ l.kind = "expr" => /\ Eval(l.tree, env) = [t |-> env[x].t, v |-> env[x].v]
                          /\ Fit(env[x].t, env[x].v)
    /\ l.kind = "alias" => env[x].v = env[l.tree.name].v /\ env[x].m = env[l.tree.name].m
    /\ l.kind = "int" => env[x].v = (IF l.sign = "-" THEN Neg(l.v) ELSE l.v)
    /\ l.kind = "str" => Flat(l.pieces) = env[x].m
Emit == phase = "done" => PrintT("CASE " \o ToJson([target |-> Target, lines |-> lines, env |-> env]))
=============================================================================
