-------------------------------- MODULE Unit --------------------------------
(* A C translation unit as it is read: one declaration after the other, one    *)
(* member after the other. Each behaviour is one translation unit, and its     *)
(* last state determines what the generated Python module must contain         *)
(* (Expected). The checks of C01, C02, C03, C04, C05, C06, C11, C12, C13 and   *)
(* C17 replay behaviours of this module into the real generator.               *)
EXTENDS Abi, Json

CONSTANTS
  Sim,        \* TRUE: random choices (tlc -simulate); FALSE: all of them
  Targets,    \* the targets to choose from
  Features,   \* what the units may contain
  MaxDecls,   \* bound on the number of declarations
  MaxFields,  \* bound on the number of members of one record
  MaxDepth,   \* bound on the nesting of anonymous records and of types
  SmallTypes, \* the member types of the exhaustive runs
  SmallBits   \* the bit-fields <<type name, width>> of the exhaustive runs

VARIABLES
  target,     \* the target of the unit
  env,        \* what the declarations so far mean (see CTypes), and
              \*   inc: the tags declared but not yet complete, as <<u, tag>>
  decls,      \* the declarations so far
  stack,      \* the records being defined, innermost last
  n,          \* counter of names
  phase       \* "open" or "done"
vars == <<target, env, decls, stack, n, phase>>

m == DataModel(target)
(* n makes this depend on the state: TLC evaluates constant definitions once *)
Rnd(S) == IF n > 0 THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE
Pick(S) == IF Sim /\ S # {} THEN {Rnd(S)} ELSE S
Chance(p) == ~Sim \/ Rnd(1..100) <= p
Has(f) == f \in Features
Name(prefix) == prefix \o ToString(n)

-----------------------------------------------------------------------------
(* Random types. Only complete types are members; a pointer may also point to  *)
(* void, to an incomplete record, or to a function.                            *)
Records == {<<env.rec[t].u, t>> : t \in DOMAIN env.rec}
Incomplete == env.inc
Small(T) == SizeOf(T, env, m) <= 512

Builtins == BuiltinNames \cup (IF Has("int128") /\ m.ptr = 8 THEN WideNames ELSE {})
RandBase == B(Rnd(Builtins))
(* now and then something large *)
Large == Sim /\ ((Has("large") /\ Chance(8)) \/ Has("gaps"))
Counts == IF Large THEN {Rnd(4..14)} ELSE 0..3
RandLength(E) ==
  LET z == SizeOf(E, env, m)
  IN IF ~Large THEN Rnd(1..5)
     ELSE IF z <= 8 THEN Rnd({10, 17, 64, 100, 255, 256, 300, 1000, 65535, 65536, 70000})
     ELSE IF z <= 64 THEN Rnd({10, 17, 64, 100, 255, 256, 300})
     ELSE Rnd(6..12)
RECURSIVE RandType(_), RandPointee(_), RandScalar(_), RandArgs(_, _), RandResult(_)
RandType(d) ==
  LET r == Rnd(1..100)
  IN IF r <= 30 \/ d = 0 THEN RandBase
     ELSE IF r <= 48 THEN Ptr(RandPointee(d - 1))
     ELSE IF r <= 62 THEN CHOOSE x \in {IF Small(E) THEN Arr(E, RandLength(E)) ELSE E : E \in {RandType(d - 1)}} : TRUE
     ELSE IF r <= 78 /\ Records # {} THEN LET p == Rnd(Records) IN Rec(p[1], p[2])
     ELSE IF r <= 84 /\ DOMAIN env.en # {} THEN Enum(Rnd(DOMAIN env.en))
     ELSE IF r <= 94 /\ {t \in DOMAIN env.td : Complete(Tdef(t), env)} # {}
          THEN Tdef(Rnd({t \in DOMAIN env.td : Complete(Tdef(t), env)}))
     ELSE IF Has("fnptr") THEN Ptr(Fn(RandResult(d - 1), RandArgs(d - 1, Rnd(Counts))))
     ELSE RandBase
RandPointee(d) ==
  LET r == Rnd(1..100)
  IN IF r <= 12 THEN Void
     ELSE IF r <= 45 /\ Incomplete # {} THEN LET p == Rnd(Incomplete) IN Rec(p[1], p[2])
     ELSE IF r <= 65 /\ Records # {} THEN LET p == Rnd(Records) IN Rec(p[1], p[2])
     ELSE IF r <= 75 /\ DOMAIN env.td # {} THEN Tdef(Rnd(DOMAIN env.td))
     ELSE IF r <= 79 /\ Has("open") THEN Arr(RandType(d), 0) @@ [open |-> TRUE]
     ELSE RandType(d)
(* a result is never an array; an argument may be declared as one *)
RandScalar(d) ==
  LET T == RandType(d)
  IN IF Canon(T, env).k = "a" THEN Ptr(T) ELSE T
RandArgs(d, k) == IF k = 0 THEN <<>> ELSE <<RandType(d)>> \o RandArgs(d, k - 1)
RandResult(d) == IF Rnd(1..5) = 1 THEN Void ELSE RandScalar(d)

(* typedef T name; T may be incomplete *)
RandTypedef ==
  LET r == Rnd(1..100)
  IN IF r <= 20 /\ Incomplete # {} THEN LET p == Rnd(Incomplete) IN Rec(p[1], p[2])
     ELSE IF r <= 30 THEN Ptr(RandPointee(MaxDepth))
     ELSE RandType(MaxDepth)
(* in the exhaustive runs: what there is to refer to *)
Reachable ==
  {Rec(p[1], p[2]) : p \in Records}
  \cup {Ptr(Rec(p[1], p[2])) : p \in Records \cup Incomplete}
  \cup {Tdef(t) : t \in {x \in DOMAIN env.td : Complete(Tdef(x), env)}}
  \cup {Ptr(Tdef(t)) : t \in DOMAIN env.td}
(* "gaps": small members before large ones, many gaps in a record             *)
MemberTypes == IF Sim /\ Has("gaps") THEN Pick(IF Len(stack[Len(stack)].fields) % 2 = 0 THEN {B("schar"), B("uchar"), B("bool"), B("short")}
                                               ELSE {B("int"), B("double"), B("long"), B("llong"), Ptr(Void), B("float")})
               ELSE IF Sim THEN {RandType(MaxDepth)}
               ELSE SmallTypes \cup (IF Has("graph") THEN Reachable ELSE {})
TypedefTypes == IF Sim THEN {RandTypedef}
                ELSE SmallTypes \cup (IF Has("graph")
                                      THEN Reachable \cup {Rec(p[1], p[2]) : p \in Incomplete} ELSE {})

-----------------------------------------------------------------------------
NoEnv == [rec |-> [x \in {} |-> 0], anon |-> <<>>, td |-> [x \in {} |-> 0],
          en |-> [x \in {} |-> 0], inc |-> {}]
Init ==
  /\ target \in Targets
  /\ env = NoEnv /\ decls = <<>> /\ stack = <<>> /\ n = 1 /\ phase = "open"

Idle == phase = "open" /\ stack = <<>> /\ Len(decls) < MaxDecls
Top == stack[Len(stack)]
SetTop(fr) == [stack EXCEPT ![Len(stack)] = fr]
Pop == SubSeq(stack, 1, Len(stack) - 1)

Kinds == IF Has("union") THEN {"struct", "union"} ELSE {"struct"}
Packs == IF ~Has("pack") THEN {0}
         ELSE IF Sim /\ ~Chance(30) THEN {0}
         ELSE IF Has("pragma") THEN {0, 1, 2, 4} ELSE {0, 1}
(* Microsoft compilers have their own idea of aligned members of packed records *)
CanAlign == Has("align") /\ Sim /\ ~m.ms
Alignments == IF CanAlign /\ Chance(15) THEN {0, 4, 8, 16, 32} ELSE {0}

NewFrame(u, tag, pack, al, want, how) ==
  Frame(u, pack, al) @@ [tag |-> tag, want |-> want, how |-> how, env0 |-> env, decls0 |-> decls]

(* how many members a record gets; an exhaustive run closes it after any number *)
Wants == IF Large THEN {Rnd(10..40)} ELSE IF Sim THEN Pick(1..MaxFields) ELSE {MaxFields}

(* struct S; *)
Forward ==
  /\ Has("fwd") /\ Idle /\ Chance(40)
  /\ \E u \in Pick(Kinds) :
       /\ env' = [env EXCEPT !.inc = @ \cup {<<u, Name("S")>>}]
       /\ decls' = Append(decls, [d |-> "fwd", u |-> u, tag |-> Name("S")])
  /\ n' = n + 1
  /\ UNCHANGED <<target, stack, phase>>

(* struct S { ... of a new tag, or of one declared before *)
OpenRec ==
  /\ Idle
  /\ ~Sim /\ Has("byval") => decls = <<>>
  /\ \E u \in Pick(Kinds), pack \in Pick(Packs), want \in Wants :
     \E al \in IF pack = 0 THEN Pick(Alignments) ELSE {0} :
     \E p \in Pick({<<u, Name("S")>>}
                   \cup IF Sim THEN IF Chance(50) THEN env.inc ELSE {}
                        ELSE {q \in env.inc : q[1] = u}) :
       /\ stack' = <<NewFrame(p[1], p[2], pack, al, want, "rec")>>
       /\ env' = [env EXCEPT !.inc = @ \cup {p}]
  /\ n' = n + 1
  /\ UNCHANGED <<target, decls, phase>>

Room == phase = "open" /\ stack # <<>> /\ Len(Top.fields) < Top.want
FieldName == "f" \o ToString(n)

AddField ==
  /\ Room
  /\ \E T \in MemberTypes :
     \E fal \in IF CanAlign /\ Top.pack = 0 /\ Chance(8)
                THEN {a \in {8, 16} : a >= AlignOf(T, env, m)} ELSE {0} :
       stack' = SetTop(AddMember(Top, FieldName, T, fal, env, m))
  /\ n' = n + 1
  /\ UNCHANGED <<target, env, decls, phase>>

(* T f[0]; and, at the end of a struct, T f[]; *)
AddEmptyArray ==
  /\ Has("flex") /\ Room /\ ~m.ms /\ Chance(15)
  /\ \E T \in MemberTypes, open \in Pick(BOOLEAN) :
       /\ open => /\ Top.u = "struct" /\ Top.how = "rec" /\ Len(Top.fields) = Top.want - 1
                  /\ \E i \in 1..Len(Top.fields) : Top.fields[i].name # "" /\ Top.fields[i].bits > 0
       /\ stack' = SetTop(AddMember(Top, FieldName, Arr(T, 0) @@ [open |-> open], 0, env, m))
  /\ n' = n + 1
  /\ UNCHANGED <<target, env, decls, phase>>

(* struct New *f; the first mention of a tag declares it *)
AddImplicit ==
  /\ Has("implicit") /\ Room /\ Chance(15)
  /\ ~Sim => Has("graph")
  /\ \E u \in Pick(Kinds) :
       /\ stack' = SetTop(AddMember(Top, FieldName, Ptr(Rec(u, Name("S"))), 0, env, m))
       /\ env' = [env EXCEPT !.inc = @ \cup {<<u, Name("S")>>}]
  /\ n' = n + 1
  /\ UNCHANGED <<target, decls, phase>>

BitTypes == {"int", "uint", "char", "schar", "uchar", "short", "ushort", "long", "ulong",
             "llong", "ullong", "bool"}
(* how wide a bit-field of a type may be *)
WidthOf(T) ==
  LET C == Canon(T, env)
  IN IF C.k = "e" THEN 8 * SizeOf(C, env, m)
     ELSE IF C.k = "b" /\ C.n \in BitTypes THEN IF C.n = "bool" THEN 1 ELSE 8 * BSize(C.n, m)
     ELSE 0
RandBits ==
  LET names == {Tdef(t) : t \in {x \in DOMAIN env.td : WidthOf(Tdef(x)) > 0}} \cup {Enum(t) : t \in DOMAIN env.en}
      chosen == IF Has("namedbits") /\ names # {} /\ Chance(40) THEN Rnd(names) ELSE B(Rnd(BitTypes))
  IN CHOOSE x \in {<<T, IF r <= 4 THEN 0 ELSE Rnd(1..(IF r <= 70 THEN Min2(WidthOf(T), 9) ELSE WidthOf(T)))>> :
                     T \in {chosen}, r \in {Rnd(1..100)}} : TRUE
AddBitField ==
  /\ Has("bits") /\ Room /\ m.sysv /\ Top.pack \in {0, 1}
  /\ \E b \in IF Sim THEN {RandBits} ELSE {<<B(x[1]), x[2]>> : x \in SmallBits} :
     /\ b[2] = 0 => Top.u = "struct"
     /\ LET unnamed == b[2] = 0 \/ (Sim /\ Rnd(1..8) = 1 /\ Top.u = "struct")
        IN stack' = SetTop(AddBits(Top, IF unnamed THEN "" ELSE FieldName, b[1], b[2], env, m))
  /\ n' = n + 1
  /\ UNCHANGED <<target, env, decls, phase>>

(* the declarator of a member of a new type *)
Shaped(shape, X) ==
  CASE shape = "array" -> Arr(X, 2)
    [] shape = "array2" -> Arr(Arr(X, 3), 2)
    [] shape = "ptr" -> Ptr(X)
    [] shape = "ptrs" -> Arr(Ptr(X), 2)
    [] OTHER -> X
(* a member of an anonymous type: struct { ... } f; or struct { ... }; *)
OpenAnon ==
  /\ Has("nest") /\ Room /\ Len(stack) <= MaxDepth /\ Chance(35)
  /\ \E u \in Pick(Kinds), want \in Wants :
       stack' = Append(stack, NewFrame(u, "", Top.pack, 0, want, "anon"))
  /\ n' = n + 1
  /\ UNCHANGED <<target, env, decls, phase>>

CanClose == /\ phase = "open" /\ stack # <<>>
            /\ Len(Top.fields) > 0 /\ (Sim => Len(Top.fields) = Top.want)
(* records that ctypes cannot express stay out, unless asked for *)
(* (and those whose bits would not fit an integer of TLC)                       *)
Keep(r) == r.size \in 1..2097152 /\ (Has("anybits") \/ Representable(r))
Discard ==
  /\ CanClose /\ ~Keep(Close(Top))
  /\ stack' = <<>>
  /\ env' = stack[1].env0 /\ decls' = stack[1].decls0
  /\ phase' = IF Sim THEN "open" ELSE "dropped"
  /\ UNCHANGED <<target, n>>

CloseAnon ==
  /\ CanClose /\ Top.how = "anon" /\ Keep(Close(Top))
  /\ \E shape \in Pick({"named", "unnamed", "array"} \cup IF Has("inner") THEN {"array2", "ptr", "ptrs"} ELSE {}) :
     LET r == Close(Top)
         id == Len(env.anon) + 1
         env2 == [env EXCEPT !.anon = Append(@, r)]
         T == Shaped(shape, Anon(r.u, id))
         below == Pop
         fr == below[Len(below)]
     IN /\ env' = env2
        /\ stack' = [below EXCEPT ![Len(below)] =
              AddMember(fr, IF shape = "unnamed" THEN "" ELSE FieldName, T, 0, env2, m)]
  /\ n' = n + 1
  /\ UNCHANGED <<target, decls, phase>>

(* a member of a type that is defined with it: struct B { ... } f; the tag is  *)
(* visible afterwards, it may complete a record declared before                *)
Open == {<<stack[i].u, stack[i].tag>> : i \in 1..Len(stack)}
OpenInner ==
  /\ Has("inner") /\ Room /\ Len(stack) <= MaxDepth /\ Chance(30)
  /\ \E u \in Pick(Kinds), want \in Wants :
     \E p \in Pick({<<u, Name("S")>>} \cup IF Sim /\ Chance(60) THEN {} ELSE env.inc \ Open) :
       /\ stack' = Append(stack, NewFrame(p[1], p[2], IF Top.pack = 1 THEN 0 ELSE Top.pack, 0, want, "inner"))
       /\ env' = [env EXCEPT !.inc = @ \cup {p}]
  /\ n' = n + 1
  /\ UNCHANGED <<target, decls, phase>>
CloseInner ==
  /\ CanClose /\ Top.how = "inner" /\ Keep(Close(Top))
  /\ \E shape \in Pick({"named", "array", "array2", "ptr", "ptrs"}) :
     LET env2 == [env EXCEPT !.rec = (Top.tag :> Close(Top)) @@ @, !.inc = @ \ {<<Top.u, Top.tag>>}]
         below == Pop
         fr == AddMember(below[Len(below)], FieldName, Shaped(shape, Rec(Top.u, Top.tag)), 0, env2, m)
     IN /\ env' = env2
        /\ stack' = [below EXCEPT ![Len(below)] = [fr EXCEPT !.fields[Len(fr.fields)].def = TRUE]]
        /\ decls' = Append(decls, [d |-> "inner", u |-> Top.u, tag |-> Top.tag])
  /\ n' = n + 1
  /\ UNCHANGED <<target, phase>>

CloseRec ==
  /\ CanClose /\ Top.how = "rec" /\ Keep(Close(Top))
  /\ env' = [env EXCEPT !.rec = (Top.tag :> Close(Top)) @@ @, !.inc = @ \ {<<Top.u, Top.tag>>}]
  /\ decls' = Append(decls, [d |-> "rec", u |-> Top.u, tag |-> Top.tag])
  /\ stack' = <<>>
  /\ UNCHANGED <<target, n, phase>>

(* typedef struct S { ... } T; the names may be the same *)
CloseTagTypedef ==
  /\ Has("tagtd") /\ CanClose /\ Top.how = "rec" /\ Top.pack \in {0, 1} /\ Keep(Close(Top)) /\ Chance(40)
  /\ \E shape \in Pick({"named", "array", "ptr"}), same \in Pick(BOOLEAN) :
     LET T == Shaped(shape, Rec(Top.u, Top.tag))
         name == IF same /\ shape = "named" THEN Top.tag ELSE Name("T")
     IN /\ name \in DOMAIN env.td => same /\ shape = "named"
        /\ env' = [env EXCEPT !.rec = (Top.tag :> Close(Top)) @@ @, !.inc = @ \ {<<Top.u, Top.tag>>}, !.td = (name :> T) @@ @]
        /\ decls' = decls \o <<[d |-> "inner", u |-> Top.u, tag |-> Top.tag], [d |-> "td", name |-> name, ty |-> T, def |-> TRUE]>>
  /\ n' = n + 1
  /\ stack' = <<>>
  /\ UNCHANGED <<target, phase>>

(* typedef R name(A, B); *)
DefFuncTypedef ==
  /\ Has("fntd") /\ Idle /\ Chance(40)
  /\ \E k \in Pick(Counts) : \E T \in {Fn(RandResult(MaxDepth), RandArgs(MaxDepth, k))} :
        /\ env' = [env EXCEPT !.td = (Name("T") :> T) @@ @]
        /\ decls' = Append(decls, [d |-> "td", name |-> Name("T"), ty |-> T])
  /\ n' = n + 1
  /\ UNCHANGED <<target, stack, phase>>

(* typedef struct { ... } T; *)
OpenAnonTypedef ==
  /\ Has("typedef") /\ Has("anontypedef") /\ Idle /\ Chance(40)
  /\ \E u \in Pick(Kinds), want \in Wants :
       stack' = <<NewFrame(u, Name("T"), 0, 0, want, "td")>>
  /\ n' = n + 1
  /\ UNCHANGED <<target, env, decls, phase>>
CloseAnonTypedef ==
  /\ CanClose /\ Top.how = "td" /\ Keep(Close(Top))
  /\ LET id == Len(env.anon) + 1
     IN /\ env' = [env EXCEPT !.anon = Append(@, Close(Top)),
                              !.td = (Top.tag :> Anon(Top.u, id)) @@ @]
        /\ decls' = Append(decls, [d |-> "td", name |-> Top.tag, ty |-> Anon(Top.u, id)])
  /\ stack' = <<>>
  /\ UNCHANGED <<target, n, phase>>

(* typedef T name; *)
DefTypedef ==
  /\ Has("typedef") /\ Idle
  /\ \E T \in TypedefTypes :
       /\ env' = [env EXCEPT !.td = (Name("T") :> T) @@ @]
       /\ decls' = Append(decls, [d |-> "td", name |-> Name("T"), ty |-> T])
  /\ n' = n + 1
  /\ UNCHANGED <<target, stack, phase>>

(* typedef signed char int8_t; or, in its place, another type under that name  *)
DefFixed ==
  /\ Has("fixed") /\ Idle /\ Chance(40)
  /\ \E name \in Pick(FixedNames \ DOMAIN env.td) :
     \E T \in {IF Chance(70) THEN B(Fixed(name, m)) ELSE RandBase} :
       /\ env' = [env EXCEPT !.td = (name :> T) @@ @]
       /\ decls' = Append(decls, [d |-> "td", name |-> name, ty |-> T])
  /\ UNCHANGED <<target, stack, n, phase>>

(* typedef struct New T; or typedef struct New *T; *)
DefImplicit ==
  /\ Has("implicit") /\ Has("typedef") /\ Idle /\ Chance(40)
  /\ \E u \in Pick(Kinds), ptr \in Pick(BOOLEAN), same \in IF Has("tagtd") THEN Pick(BOOLEAN) ELSE {FALSE} :
     LET R == Rec(u, Name("S"))
         T == IF ptr THEN Ptr(R) ELSE R
         name == IF same /\ ~ptr THEN Name("S") ELSE Name("T")
     IN /\ env' = [env EXCEPT !.td = (name :> T) @@ @, !.inc = @ \cup {<<u, Name("S")>>}]
        /\ decls' = Append(decls, [d |-> "td", name |-> name, ty |-> T])
  /\ n' = n + 1
  /\ UNCHANGED <<target, stack, phase>>

(* enum E { ... }; *)
DefEnum ==
  /\ Has("enum") /\ Idle /\ Chance(40)
  /\ \E neg \in Pick(BOOLEAN), k \in IF Large THEN {Rnd(10..40)} ELSE Pick(1..3), base \in Pick({0, 7, 250}) :
     LET vals == [i \in 1..k |-> IF neg /\ i = 1 THEN -1 ELSE base + i]
         items == [i \in 1..k |-> [name |-> "K" \o ToString(n) \o "_" \o ToString(i), val |-> vals[i]]]
     IN /\ env' = [env EXCEPT !.en = (Name("E") :> [size |-> 4, signed |-> neg \/ m.ms, items |-> items]) @@ @]
        /\ decls' = Append(decls, [d |-> "en", tag |-> Name("E"), items |-> items])
  /\ n' = n + 1
  /\ UNCHANGED <<target, stack, phase>>

(* a declaration once more: it has no effect *)
Again ==
  /\ Has("again") /\ Idle /\ Chance(30)
  /\ \E i \in Pick({j \in 1..Len(decls) : decls[j].d \in {"fwd", "rec", "fn", "var", "td", "obj"}
                                         /\ (decls[j].d = "td" => decls[j].ty.k # "x")}) :
       decls' = Append(decls, CASE decls[i].d \in {"fwd", "rec"} -> [d |-> "fwd", u |-> decls[i].u, tag |-> decls[i].tag]
                                [] decls[i].d = "var" -> [d |-> "ext", name |-> decls[i].name, ty |-> decls[i].ty]
                                [] decls[i].d = "obj" -> [decls[i] EXCEPT !.ext = TRUE]
                                [] decls[i].d = "td" -> [d |-> "td", name |-> decls[i].name, ty |-> decls[i].ty]
                                [] OTHER -> decls[i])
  /\ n' = n + 1
  /\ UNCHANGED <<target, env, stack, phase>>

(* T name(T1, T2); *)
DeclFunc ==
  /\ Has("func") /\ Idle
  /\ \E k \in Pick(Counts) :
       decls' = Append(decls, [d |-> "fn", name |-> Name("fun"), res |-> RandResult(MaxDepth),
                               args |-> RandArgs(MaxDepth, k)])
  /\ n' = n + 1
  /\ UNCHANGED <<target, env, stack, phase>>

(* R name(R, double, R); records by value *)
DeclByValue ==
  /\ Has("byval") /\ Idle
  /\ \E p \in Pick(Records) :
       LET R == Rec(p[1], p[2])
       IN decls' = Append(decls, [d |-> "fn", name |-> Name("fun"), res |-> R, args |-> <<R, B("double"), R>>])
  /\ n' = n + 1
  /\ UNCHANGED <<target, env, stack, phase>>

(* int name = value; *)
DeclVar ==
  /\ Has("var") /\ Idle /\ Chance(60)
  /\ \E v \in Pick(-3..40) :
       decls' = Append(decls, [d |-> "var", name |-> Name("var"), ty |-> B("int"), val |-> v])
  /\ n' = n + 1
  /\ UNCHANGED <<target, env, stack, phase>>

(* T name; or extern T name; *)
DeclObject ==
  /\ Has("object") /\ Idle /\ Chance(60)
  /\ \E T \in TypedefTypes, e \in Pick(BOOLEAN) :
       LET k == Canon(T, env).k IN
       /\ k \notin {"f", "v"}
       /\ decls' = Append(decls, [d |-> "obj", name |-> Name("obj"), ty |-> T, ext |-> e \/ ~Complete(T, env)])
  /\ n' = n + 1
  /\ UNCHANGED <<target, env, stack, phase>>

(* #define NAME value *)
DefMacro ==
  /\ Has("macro") /\ Idle /\ Chance(60)
  /\ \E v \in Pick(0..99) :
       decls' = Append(decls, [d |-> "mac", name |-> Name("MAC"), val |-> v])
  /\ n' = n + 1
  /\ UNCHANGED <<target, env, stack, phase>>

Finish ==
  /\ phase = "open" /\ stack = <<>> /\ decls # <<>>
  /\ Sim => Len(decls) >= MaxDecls
  /\ phase' = "done"
  /\ UNCHANGED <<target, env, decls, stack, n>>


Next == \/ Forward \/ OpenRec \/ CloseTagTypedef \/ DefFuncTypedef \/ AddEmptyArray \/ AddField \/ AddImplicit \/ AddBitField \/ OpenAnon \/ CloseAnon \/ OpenInner \/ CloseInner \/ CloseRec \/ Discard
        \/ OpenAnonTypedef \/ CloseAnonTypedef \/ DefTypedef \/ DefFixed \/ DefImplicit \/ DefEnum
        \/ DeclFunc \/ DeclByValue \/ DeclVar \/ DeclObject \/ DefMacro \/ Again \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Sanity of the specification itself: what the layout rules must imply.       *)
LayoutOK ==
  /\ \A t \in DOMAIN env.rec :
       LET r == env.rec[t]
       IN WellFormed(r) /\ Aligned(r, env, m) /\ BitsInUnit(r, env, m)
  /\ \A i \in 1..Len(env.anon) : WellFormed(env.anon[i]) /\ Aligned(env.anon[i], env, m)
(* a complete record contains no incomplete one *)
RECURSIVE Contained(_)
Contained(T) ==
  CASE T.k = "a" -> Contained(T.of)
    [] T.k = "r" -> T.tag \in DOMAIN env.rec
    [] T.k = "t" -> Contained(env.td[T.name])
    [] OTHER -> TRUE
ContainmentOK ==
  \A t \in DOMAIN env.rec : \A i \in 1..Len(env.rec[t].fields) : Contained(env.rec[t].fields[i].ty)
NamesOK ==
  /\ \A i, j \in 1..Len(decls) : i < j /\ decls[i].d = "rec" /\ decls[j].d = "rec" => decls[i].tag # decls[j].tag
  /\ \A p \in env.inc : p[2] \notin DOMAIN env.rec
AllRepresentable ==
  /\ \A t \in DOMAIN env.rec : Representable(env.rec[t])
  /\ \A i \in 1..Len(env.anon) : Representable(env.anon[i])

-----------------------------------------------------------------------------
(* What the generated module must contain.                                     *)
ExpRec(r) == [u |-> r.u, size |-> r.size, flat |-> Flatten(r, 0, <<env, m>>)]
Expected ==
  [recs |-> [t \in DOMAIN env.rec |-> ExpRec(env.rec[t])],
   anon |-> [i \in 1..Len(env.anon) |-> ExpRec(env.anon[i])],
   tds |-> [t \in DOMAIN env.td |-> Proj(env.td[t], env, m)],
   rep |-> [t \in DOMAIN env.rec |-> Representable(env.rec[t])],
   funcs |-> LET fs == SelectSeq(decls, LAMBDA x : x.d = "fn")
             IN [i \in 1..Len(fs) |-> [name |-> fs[i].name, res |-> Proj(fs[i].res, env, m),
                   args |-> [j \in 1..Len(fs[i].args) |-> Proj(Decay(fs[i].args[j], env), env, m)],
                   abi |-> [j \in 1..Len(fs[i].args) |-> ByValue(Decay(fs[i].args[j], env), env, m)],
                   rabi |-> IF Canon(fs[i].res, env).k = "v" THEN "ok" ELSE ByValue(fs[i].res, env, m)]]]
Case == [target |-> target, decls |-> decls, rec |-> env.rec, anon |-> env.anon,
         inc |-> env.inc, allrep |-> AllRepresentable, exp |-> Expected]
Emit == phase = "done" => PrintT("CASE " \o ToJson(Case))
=============================================================================
