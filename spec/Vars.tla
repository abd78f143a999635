-------------------------------- MODULE Vars --------------------------------
(* A translation unit of variables: constants and macros that initialisers use, *)
(* declarations, definitions and repeated declarations in any order. objs is    *)
(* what each variable is after the lines so far; only its definition gives it    *)
(* a value, wherever the other declarations stand.                              *)
EXTENDS Expr, FiniteSets, TLC, Json

CONSTANTS Sim, MaxLines, Anchors, Forms, Sufs, Bases, Kinds, MaxNodes, MaxStk, Target, CharSigned, WcharBits

VARIABLES lines, env, objs, stk, n, phase
vars == <<lines, env, objs, stk, n, phase>>

Rnd(S) == IF n > 0 THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE
Pick(S) == IF Sim /\ S # {} THEN {Rnd(S)} ELSE S
Anchor(x) == IF x[1] = 0 THEN W(x[2]) ELSE Add(Pow2(x[1]), W(x[2]))
(* macros of a header for constants of the compiler, as those of limits.h      *)
Limit(t, v) == [k |-> "int", t |-> t, v |-> v, m |-> <<>>, chr |-> FALSE,
                tree |-> [op |-> "", name |-> "", form |-> "", suf |-> "", v |-> <<>>, kids |-> <<>>], ref |-> ""]
Limits == "LIM_INT" :> Limit("i", Add(Pow2(31), W(-1))) @@ "LIM_LONG" :> Limit("l", Add(Pow2(LongBits - 1), W(-1)))
          @@ "LIM_LLONG" :> Limit("ll", Add(Pow2(63), W(-1))) @@ "LIM_BITS" :> Limit("i", W(8)) @@ "LIM_SHRT" :> Limit("i", W(32767))
          @@ "LIM_ONE" :> Limit("i", W(1))
Init == lines = <<>> /\ env = (IF Sim THEN Limits ELSE <<>>) /\ objs = <<>> /\ stk = <<>> /\ n = 1 /\ phase = "open"

(* ------------------------------------------------------------- types *)
Chars == {"char", "uchar", "schar", "wchar"}
Texts == {"char", "uchar"}          (* Python knows their characters as such *)
Ints == {"char", "uchar", "schar", "wchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong",
         "bool", "uenum", "senum"}
Floats == {"float", "double", "ldouble"}
Windows == WcharBits = 16   (* every enumeration is an int there *)
TBits(b) == CASE b \in {"char", "uchar", "schar", "bool"} -> 8 [] b \in {"short", "ushort"} -> 16 [] b = "wchar" -> WcharBits
            [] b \in {"long", "ulong"} -> LongBits [] b \in {"llong", "ullong"} -> 64 [] OTHER -> 32
TSigned(b) == b \in {"schar", "short", "int", "long", "llong", "senum"} \/ (b = "char" /\ CharSigned) \/ (b = "wchar" /\ WcharBits = 32)
              \/ (b = "uenum" /\ Windows)
Convert(b, v) == IF b = "bool" THEN (IF v = Zero THEN Zero ELSE One) ELSE Wrap(v, TBits(b), TSigned(b))

(* ------------------------------------------ values of initialisers *)
Item(k, t, v, m, chr, tree, ref) == [k |-> k, t |-> t, v |-> v, m |-> m, chr |-> chr, tree |-> tree, ref |-> ref]
NoTree == [op |-> "", name |-> "", form |-> "", suf |-> "", v |-> <<>>, kids |-> <<>>]
IntItem(t, v, chr, tree) == Item("int", t, v, <<>>, chr, tree, "")
RECURSIVE Tens(_)
Tens(k) == IF k = 0 THEN 1 ELSE 10 * Tens(k - 1)
Trunc(m, e) == IF e >= 0 THEN m * Tens(e) ELSE m \div Tens(-e)

(* a variable of base b can be initialised with item i *)
Takes(b, i) ==
  CASE i.k = "int" -> b \in Ints \/ (b \in Floats /\ Tame(i.v))
    [] i.k = "flt" -> b \in Floats \/ (b \in Ints /\ i.m[2] < 100000 /\ i.m[3] \in -7..1 /\ Trunc(i.m[2], i.m[3]) < 100
                                       /\ (i.m[1] = 1 => TSigned(b) \/ b = "bool"))
    [] OTHER -> FALSE
(* what it holds then: as: what was written, if a module may keep that *)
Val(k, v, as, m) == [k |-> k, v |-> v, as |-> as, m |-> m]
Default == Val("int", Zero, Zero, <<>>)
Holds(b, i) ==
  CASE i.k = "int" /\ b \in Floats -> Val("int", i.v, i.v, <<>>)
    [] i.k = "int" /\ i.chr /\ b \in Texts -> Val("chr", i.v, i.v, <<>>)
    [] i.k = "int" -> LET c == Convert(b, i.v) IN Val("int", c, IF ~TSigned(b) /\ b # "bool" /\ IsNeg(i.v) THEN i.v ELSE c, <<>>)
    [] i.k = "flt" /\ b \in Floats -> Val("flt", Zero, Zero, i.m)
    [] OTHER -> LET x == W(IF i.m[1] = 1 THEN -Trunc(i.m[2], i.m[3]) ELSE Trunc(i.m[2], i.m[3]))
                    c == IF b = "bool" THEN (IF i.m[2] = 0 THEN Zero ELSE One) ELSE x
                IN Val("int", c, c, <<>>)

(* ---------------------------------------------------- expressions *)
Room(kind) == phase = "open" /\ kind \in Kinds /\ Len(lines) < MaxLines
Names == DOMAIN env
Consts(k) == {x \in Names : env[x].k = k}
RECURSIVE Size(_)
Size(x) == 1 + (IF x.kids = <<>> THEN 0 ELSE Size(x.kids[1]) + (IF Len(x.kids) > 1 THEN Size(x.kids[2]) ELSE 0))
Top == stk[Len(stk)]
Next1 == stk[Len(stk) - 1]
Building == phase = "open" /\ Len(lines) < MaxLines /\ Len(stk) < MaxStk
SameKind(k) == \A i \in 1..Len(stk) : (stk[i].k \in {"int", "flt"}) <=> (k \in {"int", "flt"})
Push(i) == /\ stk' = Append(stk, i) /\ n' = n + 1 /\ UNCHANGED <<lines, env, objs, phase>>
PushInt ==
  /\ Building /\ SameKind("int")
  /\ \E form \in Pick(Forms \cap {"dec", "hex", "oct", "bin"}), suf \in Pick(Sufs), a \in Pick(Anchors) :
     \E v \in {IF Sim /\ Rnd(1..3) = 1 THEN W(Rnd(0..300)) ELSE Anchor(a)} :
       /\ LitOk(form = "dec", suf, v)
       /\ Push(IntItem(LitType(form = "dec", suf, v), v, FALSE, Lit(form, suf, v)))
Codes == {97, 66, 48, 32, 34, 92, 39, 10, 9, 0, 7, 27, 63, 37, 35, 47, 42, 40, 44, 123}
PushChar ==
  /\ Building /\ SameKind("int") /\ "char" \in Forms
  /\ \E c \in Pick(Codes) : Push(IntItem("i", W(c), TRUE, Lit("char", "", W(c))))
PushFloat ==
  /\ Building /\ SameKind("flt") /\ "flt" \in Forms
  /\ \E form \in Pick({"point", "exp"}), suf \in Pick({"", "l"}), neg \in Pick({0, 1}),
        m \in Pick({0, 1, 5, 19, 25, 75, 125, 1536, 31415927}), e \in Pick({-7, -3, -2, -1, 0, 1, 5, 20}) :
       Push(Item("flt", "", <<>>, <<neg, m, e>>, FALSE, Lit(form, suf, <<>>), ""))
Wide16 == {233, 20013}
Text(k) == [i \in 1..k |-> Rnd(Codes \cup Wide16)]
PushStr ==
  /\ Building /\ SameKind("str") /\ "str" \in Forms
  /\ \E k \in Pick(0..4) : Push(Item("str", "", <<>>, IF Sim THEN Text(k) ELSE [i \in 1..k |-> 97], FALSE, Lit("", "", <<>>), ""))
PushRef ==
  /\ Building
  /\ \E x \in Pick({y \in Names : SameKind(env[y].k)}) :
       Push([env[x] EXCEPT !.tree = RefTo(x), !.ref = x])
UnStep ==
  /\ phase = "open" /\ stk # <<>> /\ Top.k = "int" /\ Size(Top.tree) < MaxNodes
  /\ \E op \in Pick(UnOps) :
       /\ UnOk(op, Top)
       /\ LET r == UnValue(op, Top) IN stk' = [stk EXCEPT ![Len(stk)] = IntItem(r.t, r.v, FALSE, Un(op, Top.tree))]
  /\ n' = n + 1 /\ UNCHANGED <<lines, env, objs, phase>>
BinStep ==
  /\ phase = "open" /\ Len(stk) > 1 /\ Top.k = "int" /\ Next1.k = "int" /\ Size(Top.tree) + Size(Next1.tree) < MaxNodes
  /\ \E op \in Pick(BinOps) :
       /\ BinOk(op, Next1, Top)
       /\ LET r == BinValue(op, Next1, Top)
          IN stk' = Append(SubSeq(stk, 1, Len(stk) - 2), IntItem(r.t, r.v, FALSE, Bin(op, Next1.tree, Top.tree)))
  /\ n' = n + 1 /\ UNCHANGED <<lines, env, objs, phase>>
Drop ==
  /\ Sim /\ stk # <<>> /\ phase = "open"
  /\ stk' = SubSeq(stk, 1, Len(stk) - 1) /\ n' = n + 1 /\ UNCHANGED <<lines, env, objs, phase>>

(* --------------------------------------------------------- lines *)
(* pos: the elements that each item of a list initialises; row: where the second row starts *)
Line(kind, name, form, b, dims, td, store, items, pos, row) ==
  [kind |-> kind, name |-> name, form |-> form, b |-> b, dims |-> dims, td |-> td, store |-> store,
   items |-> items, pos |-> pos, row |-> row]
Add1(line) == lines' = Append(lines, line) /\ n' = n + 1 /\ UNCHANGED phase
New(p) == p \o ToString(n)

Constant ==
  /\ Room("const") /\ Len(stk) = 1
  /\ \/ /\ Top.k = "int" /\ Fit("i", Top.v) /\ ~Top.chr
        /\ Add1(Line("enum", New("K"), "", "", <<>>, FALSE, "", <<Top>>, <<>>, 0))
        /\ env' = (New("K") :> IntItem("i", Top.v, FALSE, NoTree)) @@ env
     \/ \* a macro of the unit, or of the command line
        /\ \E where \in IF Sim THEN {Rnd({"", "", "command"})} ELSE {""} :
             Add1(Line("macro", New("M"), "", "", <<>>, FALSE, where, <<Top>>, <<>>, 0))
        /\ env' = (New("M") :> [Top EXCEPT !.tree = IF Top.k = "flt" THEN Top.tree ELSE NoTree]) @@ env
  /\ stk' = <<>> /\ UNCHANGED objs

Stores == {"", "static", "const", "static const", "volatile"}
(* the variable that a definition defines: a new one, or one that is declared only *)
Waiting(form, b, dims) == {x \in DOMAIN objs : objs[x].form = form /\ objs[x].b = b /\ ~objs[x].done
                                              /\ (objs[x].dims = dims \/ (Len(dims) = 1 /\ objs[x].dims = <<0>>))}
Slots(form, b, dims) ==
  LET w == Waiting(form, b, dims)
  IN IF w # {} /\ (~Sim \/ Rnd(1..4) > 1) THEN {[name |-> Rnd(w), store |-> ""]}
     ELSE [name : {New("v")}, store : IF Sim THEN {Rnd(Stores)} ELSE {""}]
Obj(form, b, dims, td, val, store) == [form |-> form, b |-> b, dims |-> dims, td |-> td, val |-> val, done |-> TRUE, store |-> store]
Define(s, form, b, dims, td, items, pos, row, val, unsized) ==
  LET known == s.name \in DOMAIN objs
      st == IF known THEN objs[s.name].store ELSE s.store
      tdef == IF known THEN objs[s.name].td ELSE td
  IN /\ Add1(Line("def", s.name, form, b, IF unsized THEN <<0>> ELSE dims, tdef, st, items, pos, row))
     /\ objs' = (s.name :> Obj(form, b, dims, tdef, val, st)) @@ objs
     /\ stk' = <<>> /\ UNCHANGED env

Scalar ==
  /\ Room("scalar") /\ Len(stk) = 1
  /\ \E b \in Pick(Bases \cap (Ints \cup Floats)), td \in (IF Sim THEN {Rnd({TRUE, FALSE})} ELSE {FALSE}) :
       /\ Takes(b, Top)
       /\ \E s \in Slots("num", b, <<>>) : Define(s, "num", b, <<>>, td, stk, <<>>, 0, <<Holds(b, Top)>>, FALSE)

(* the items of a list, at the positions they name *)
Last(pos) == LET m == {pos[i][2] : i \in 1..Len(pos)} IN CHOOSE x \in m : \A y \in m : y <= x
At(b, items, pos, p) ==
  LET is == {i \in 1..Len(pos) : pos[i][1] <= p /\ p <= pos[i][2]}
  IN IF is = {} THEN Default ELSE Holds(b, items[CHOOSE i \in is : \A j \in is : j <= i])
(* [lo, hi, named]: an item without designator follows the one before *)
RECURSIVE Place(_, _, _)
Place(k, i, next) ==
  IF i > k THEN <<>>
  ELSE LET named == Rnd(1..3) = 1
           lo == IF named THEN Rnd(0..4) ELSE next
           hi == IF named /\ Rnd(1..4) = 1 THEN lo + Rnd(1..2) ELSE lo
       IN <<<<lo, hi, named>>>> \o Place(k, i + 1, hi + 1)
Plain(k) == [i \in 1..k |-> <<i - 1, i - 1, FALSE>>]
List ==
  /\ Room("list") /\ stk # <<>>
  /\ \E b \in Pick(Bases \cap (Ints \cup Floats)) :
       /\ \A i \in 1..Len(stk) : Takes(b, stk[i])
       /\ \E pos \in {IF Sim /\ Rnd(1..3) = 1 THEN Place(Len(stk), 1, 0) ELSE Plain(Len(stk))}, more \in Pick({0, 0, 2}), unsized \in Pick({FALSE, TRUE}) :
            LET size == Last(pos) + 1 + (IF unsized THEN 0 ELSE more)
            IN \E s \in Slots("num", b, <<size>>) :
                 Define(s, "num", b, <<size>>, FALSE, stk, pos, 0, [p \in 1..size |-> At(b, stk, pos, p - 1)], unsized)
Matrix ==
  /\ Room("matrix") /\ Len(stk) > 1
  /\ \E b \in Pick(Bases \cap (Ints \cup Floats)), row \in Pick(1..Len(stk) - 1) :
       /\ \A i \in 1..Len(stk) : Takes(b, stk[i])
       /\ LET w == IF row > Len(stk) - row THEN row ELSE Len(stk) - row
              cell(r, c) == IF r = 1 THEN (IF c <= row THEN Holds(b, stk[c]) ELSE Default)
                            ELSE IF c <= Len(stk) - row THEN Holds(b, stk[row + c]) ELSE Default
          IN \E s \in Slots("num", b, <<2, w>>) :
               Define(s, "num", b, <<2, w>>, FALSE, stk, <<>>, row, [p \in 1..2 * w |-> cell(((p - 1) \div w) + 1, ((p - 1) % w) + 1)], FALSE)

(* strings: an array that holds one, or a pointer to one *)
Bytes(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE 3
RECURSIVE Length(_, _)
Length(m, wide) == IF m = <<>> THEN 0 ELSE (IF wide THEN 1 ELSE Bytes(Head(m))) + Length(Tail(m), wide)
StrVal(m) == Val("str", Zero, Zero, m)
ArrayOfChars ==
  /\ Room("text") /\ Len(stk) = 1 /\ Top.k = "str"
  /\ \E b \in Pick(Bases \cap Chars), more \in Pick({0, 1, 4}), unsized \in Pick({FALSE, TRUE}), brace \in Pick({0, 1}) :
       /\ b = "wchar" => Top.ref = ""
       /\ LET len == Length(Top.m, b = "wchar")  size == len + (IF unsized THEN 1 ELSE more)
          IN /\ size > 0
             /\ \E s \in Slots("chars", b, <<size>>) :
                  Define(s, "chars", b, <<size>>, FALSE, stk, <<>>, brace, <<StrVal(Top.m)>>, unsized)
PointerToChars ==
  /\ Room("text") /\ Len(stk) = 1 /\ Top.k = "str"
  /\ \E b \in Pick(Bases \cap Chars) :
       /\ b = "wchar" => Top.ref = ""
       /\ \E s \in Slots("charp", b, <<>>) :
            Define(s, "charp", b, <<>>, FALSE, stk, <<>>, 0, IF b \in Texts THEN <<StrVal(Top.m)>> ELSE <<>>, FALSE)
ListOfStrings ==
  /\ Room("text") /\ stk # <<>> /\ Top.k = "str"
  /\ \E how \in Pick({"charpp", "chars2"}), more \in Pick({0, 1}), unsized \in Pick({FALSE, TRUE}) :
       \E s \in Slots(how, "char", <<Len(stk) + (IF unsized THEN 0 ELSE more)>>) :
         Define(s, how, "char", <<Len(stk) + (IF unsized THEN 0 ELSE more)>>, FALSE, stk, <<>>, 0,
                [i \in 1..Len(stk) |-> StrVal(stk[i].m)], unsized)

(* objects: records, pointers, functions, and arrays of them *)
Shapes == {"struct", "union", "anon", "struct[]", "union[]", "anon[]", "struct[][]", "struct*", "struct**", "struct*[]", "struct(*)[]",
           "union*", "int*", "void*", "char**", "inc*", "inc*[]", "fn*", "fn*[]", "schar*", "double*"}
Inits == {"", "brace", "zero", "addr"}
InitOk(sh, i) ==
  CASE i = "brace" -> sh \in {"struct", "union", "struct[]", "union[]", "struct[][]", "anon", "anon[]"}
    [] i = "zero" -> sh \notin {"struct", "union", "struct[]", "union[]", "struct[][]", "anon", "anon[]", "struct*[]", "inc*[]", "fn*[]"}
    [] i = "addr" -> sh \notin {"struct", "union", "struct[]", "union[]", "struct[][]", "anon", "anon[]", "inc*", "inc*[]", "char**"}
    [] OTHER -> TRUE
Object ==
  /\ Room("object") /\ stk = <<>>
  /\ \E sh \in Pick(Shapes), i \in Pick(Inits) :
       /\ InitOk(sh, i)
       /\ \E s \in Slots("obj " \o sh, i, <<>>) :
            Define(s, "obj " \o sh, i, <<>>, FALSE, <<>>, <<>>, 0, <<>>, FALSE)

(* declarations without initialiser *)
Declared(ty) == [form : {"num"}, b : ty, dims : {<<>>, <<2>>, <<3>>, <<0>>, <<2, 2>>}]
DeclareOnly ==
  /\ Room("declare") /\ stk = <<>>
  /\ \E d \in Pick(Declared(Bases \cap (Ints \cup Floats)) \cup [form : {"chars"}, b : Bases \cap Chars, dims : {<<5>>, <<0>>}]
                   \cup [form : {"charp"}, b : Bases \cap Chars, dims : {<<>>}]) :
     \E st \in Pick(IF d.dims = <<0>> THEN {"extern"} ELSE {"", "extern"}), td \in Pick(IF d.form = "num" /\ d.dims = <<>> THEN {FALSE, TRUE} ELSE {FALSE}) :
       /\ Add1(Line("decl", New("v"), d.form, d.b, d.dims, td, st, <<>>, <<>>, 0))
       /\ objs' = (New("v") :> [Obj(d.form, d.b, d.dims, td, <<>>, "") EXCEPT !.done = FALSE]) @@ objs
  /\ UNCHANGED <<env, stk>>
(* a declaration again, after the definition or before it *)
Again ==
  /\ Room("again") /\ stk = <<>>
  /\ \E x \in Pick({y \in DOMAIN objs : objs[y].form \in {"num", "chars", "charp"}}) :
       LET o == objs[x]
           kept == IF o.store \in {"const", "volatile"} THEN o.store ELSE IF o.store = "static const" THEN "const" ELSE ""
       IN \E ext \in Pick(IF o.store \in {"static", "static const"} \/ o.dims = <<0>> THEN {TRUE} ELSE {TRUE, FALSE}),
             un \in Pick(IF Len(o.dims) = 1 THEN {TRUE, FALSE} ELSE {FALSE}) :
            Add1(Line("again", x, o.form, o.b, IF un /\ ext THEN <<0>> ELSE o.dims, o.td, (IF ext THEN "extern " ELSE "") \o kept, <<>>, <<>>, 0))
  /\ UNCHANGED <<env, objs, stk>>

Finish ==
  /\ phase = "open" /\ lines # <<>> /\ stk = <<>> /\ (Sim => Len(lines) = MaxLines)
  /\ phase' = "done"
  /\ UNCHANGED <<lines, env, objs, stk, n>>
Next == PushInt \/ PushChar \/ PushFloat \/ PushStr \/ PushRef \/ UnStep \/ BinStep \/ Drop \/ Constant \/ Scalar \/ List \/ Matrix
        \/ ArrayOfChars \/ PointerToChars \/ ListOfStrings \/ Object \/ DeclareOnly \/ Again \/ Finish
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------ properties *)
(* a variable is defined once, by the line that has its initialiser; the others change nothing *)
DefOf(x) == {i \in 1..Len(lines) : lines[i].kind = "def" /\ lines[i].name = x}
OneDefinition ==
  \A x \in DOMAIN objs :
    /\ Cardinality(DefOf(x)) = (IF objs[x].done THEN 1 ELSE 0)
    /\ \A i \in DefOf(x) : LET l == lines[i] IN
         /\ (l.form = "num" /\ l.dims = <<>>) =>
              /\ objs[x].val = <<Holds(l.b, l.items[1])>>
              /\ l.items[1].k = "int" => Eval(l.items[1].tree, env) = [t |-> l.items[1].t, v |-> l.items[1].v]
         /\ l.form = "num" => Len(objs[x].val) = (CASE objs[x].dims = <<>> -> 1 [] Len(objs[x].dims) = 1 -> objs[x].dims[1] [] OTHER -> objs[x].dims[1] * objs[x].dims[2])
(* what a variable holds, its type can represent *)
InRange ==
  \A x \in DOMAIN objs : (objs[x].form = "num" /\ objs[x].b \in Ints) =>
    \A i \in 1..Len(objs[x].val) : LET v == objs[x].val[i].v IN
      /\ Fits(v, TBits(objs[x].b), TSigned(objs[x].b))
      /\ objs[x].b = "bool" => v \in {Zero, One}
Emit == phase = "done" => PrintT("CASE " \o ToJson([target |-> Target, lines |-> lines, objs |-> objs]))
=============================================================================
