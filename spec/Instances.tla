------------------------------ MODULE Instances ------------------------------
(* The life of instances of the generated classes: construction with           *)
(* positional and keyword arguments, assignment of members at any depth, also  *)
(* through pointers to other instances, and binding of callbacks. The state of *)
(* an instance is its memory, bit by bit, in the layout of Layout.tla, so that *)
(* unions, bit-fields, nested records and arrays follow from it. After each    *)
(* operation the specification gives the value of every leaf of every          *)
(* instance. The check of C16 replays the histories on the real classes.       *)
EXTENDS Unit

CONSTANTS MaxOps, MaxObjs, MaxLeaves, MaxSize

VARIABLES
  objs,    \* the instances: [ty, mem]; mem maps the numbers of the bits to 0 and 1
  ops,     \* the operations so far, each with the leaves that it changed
  before   \* the instances before the last operation
ivars == <<objs, ops, before>>

-----------------------------------------------------------------------------
(* The members and the leaves of a type                                        *)
RecordOf(T) == LET C == Canon(T, env) IN IF C.k = "r" THEN env.rec[C.tag] ELSE env.anon[C.id]
IsRecord(T) == Canon(T, env).k \in {"r", "x"}
(* the k-th unnamed member of a record is called ?k *)
Step(r, i) == IF r.fields[i].name # "" THEN r.fields[i].name
              ELSE "?" \o ToString(Cardinality({j \in 1..i : r.fields[j].name = "" /\ r.fields[j].w < 0}))
MembersAt(r, base) ==
  LET I == {i \in 1..Len(r.fields) : r.fields[i].w # 0 /\ ~(r.fields[i].name = "" /\ r.fields[i].w > 0)}
      RECURSIVE From(_)
      From(i) == IF i > Len(r.fields) THEN <<>>
                 ELSE (IF i \in I THEN <<[step |-> Step(r, i), off |-> base + r.fields[i].off, bits |-> r.fields[i].bits,
                                          w |-> r.fields[i].w, ty |-> r.fields[i].ty]>> ELSE <<>>) \o From(i + 1)
  IN From(1)
Members(T) == MembersAt(RecordOf(T), 0)

RECURSIVE Leaves2(_, _, _, _), LeavesOfMembers(_, _), LeavesOfElements(_, _, _, _)
Leaves2(T, path, off, w) ==
  LET C == Canon(T, env) IN
  CASE C.k \in {"b", "p", "e"} -> <<[path |-> path, off |-> off, bits |-> IF w >= 0 THEN w ELSE 8 * SizeOf(C, env, m), w |-> w, ty |-> C]>>
    [] C.k = "a" -> LeavesOfElements(C, path, off, 1)
    [] OTHER -> LeavesOfMembers(MembersAt(RecordOf(C), off), path)
LeavesOfElements(C, path, off, i) ==
  IF i > C.n THEN <<>>
  ELSE Leaves2(C.of, Append(path, ToString(i - 1)), off + 8 * (i - 1) * SizeOf(C.of, env, m), -1) \o LeavesOfElements(C, path, off, i + 1)
LeavesOfMembers(ms, path) ==
  IF ms = <<>> THEN <<>>
  ELSE Leaves2(Head(ms).ty, Append(path, Head(ms).step), Head(ms).off, Head(ms).w) \o LeavesOfMembers(Tail(ms), path)
LeavesOf(T) == Leaves2(T, <<>>, 0, -1)

(* how a leaf is read *)
KindOf(l) ==
  LET C == l.ty IN
  CASE C.k = "p" -> IF C.to.k = "f" \/ Canon(C.to, env).k = "f" THEN "fn" ELSE IF Canon(C.to, env).k = "v" THEN "void*" ELSE "ptr"
    [] C.k = "e" -> IF env.en[C.tag].signed THEN "int" ELSE "uint"
    [] C.n = "bool" -> "bool"
    [] C.n \in FloatNames -> C.n
    [] C.n = "char" /\ l.w < 0 /\ m.schar -> "char"
    [] BSigned(C.n, m) -> "int"
    [] OTHER -> "uint"

(* The types whose instances are followed: small, without long doubles; in     *)
(* unions only integers, whose values are determined by their bits             *)
RECURSIVE CountLeaves(_), Followed(_, _), AllFollowed(_, _)
CountLeaves(T) ==
  LET C == Canon(T, env) IN
  CASE C.k = "a" -> C.n * CountLeaves(C.of)
    [] C.k \in {"r", "x"} -> LET ms == Members(C)
                                 RECURSIVE Sum(_)
                                 Sum(i) == IF i = 0 THEN 0 ELSE CountLeaves(ms[i].ty) + Sum(i - 1)
                             IN Sum(Len(ms))
    [] OTHER -> 1
Followed(T, inUnion) ==
  LET C == Canon(T, env) IN
  CASE C.k = "b" -> C.n \notin (WideNames \cup {"ldouble"}) /\ (inUnion => C.n \in IntNames)
    [] C.k = "e" -> TRUE
    [] C.k = "p" -> ~inUnion
    [] C.k = "a" -> Followed(C.of, inUnion)
    [] OTHER -> AllFollowed(RecordOf(C).fields, inUnion \/ RecordOf(C).u = "union")
AllFollowed(fs, inUnion) ==
  \A i \in 1..Len(fs) : Followed(fs[i].ty, inUnion) /\ ~(fs[i].name = "" /\ fs[i].w >= 0)
Candidates == {T \in {Rec(env.rec[t].u, t) : t \in DOMAIN env.rec} \cup {Tdef(t) : t \in {x \in DOMAIN env.td : env.td[x].k = "x"}} :
                 SizeOf(T, env, m) <= MaxSize /\ CountLeaves(T) <= MaxLeaves /\ CountLeaves(T) > 0 /\ Followed(T, FALSE)}

-----------------------------------------------------------------------------
(* Memory                                                                      *)
Zero(T) == [b \in 0..(8 * SizeOf(T, env, m) - 1) |-> 0]
Write(mem, off, v) == [b \in DOMAIN mem |-> IF b >= off /\ b < off + Len(v) THEN v[b - off + 1] ELSE mem[b]]
Get(mem, off, bits) == [i \in 1..bits |-> mem[off + i - 1]]
BytesOf(v) == [k \in 1..((Len(v) + 7) \div 8) |->
                 LET Bit(j) == IF (8 * (k - 1)) + j <= Len(v) THEN v[(8 * (k - 1)) + j] ELSE 0
                 IN Bit(1) + 2 * Bit(2) + 4 * Bit(3) + 8 * Bit(4) + 16 * Bit(5) + 32 * Bit(6) + 64 * Bit(7) + 128 * Bit(8)]
BitsOf(k, bits) == [i \in 1..bits |-> IF i > 20 THEN 0 ELSE (k \div (2 ^ (i - 1))) % 2]
(* some values of single and double precision, by their bytes *)
Floats == {<<0, 0, 0, 0>>, <<0, 0, 192, 63>>, <<0, 0, 0, 192>>, <<0, 0, 128, 127>>}
Doubles == {<<0, 0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 248, 63>>, <<154, 153, 153, 153, 153, 153, 185, 191>>}
FromBytes(s) == [i \in 1..(8 * Len(s)) |-> (s[((i - 1) \div 8) + 1] \div (2 ^ ((i - 1) % 8))) % 2]
(* values to give to a leaf; for characters none is zero: an array of them is  *)
(* assigned up to its first zero                                               *)
RECURSIVE RandomBits(_)
RandomBits(k) == IF k = 0 THEN <<>> ELSE <<Rnd({0, 1})>> \o RandomBits(k - 1)
ValuesOf(l) ==
  LET k == KindOf(l) IN
  CASE k \in {"ptr", "void*", "fn"} -> {[i \in 1..l.bits |-> 0]}
    [] k = "bool" -> {[i \in 1..l.bits |-> IF i = 1 THEN 1 ELSE 0], [i \in 1..l.bits |-> 0]}
    [] k = "float" -> {FromBytes(s) : s \in Floats}
    [] k = "double" -> {FromBytes(s) : s \in Doubles}
    [] OTHER -> {[i \in 1..l.bits |-> 1], [i \in 1..l.bits |-> IF i = 1 THEN 1 ELSE 0], [i \in 1..l.bits |-> IF i = l.bits THEN 1 ELSE 0]}
                \cup IF Sim THEN {IF k = "char" THEN Append(RandomBits(l.bits - 1), 1) ELSE RandomBits(l.bits)} ELSE {}
(* a value for a member: the leaves of it written one after the other *)
RECURSIVE Fill(_, _, _)
Fill(mem, ls, i) == IF i > Len(ls) THEN mem ELSE Fill(Write(mem, ls[i].off, CHOOSE v \in Pick(ValuesOf(ls[i])) : TRUE), ls, i + 1)
ValueFor(x) ==
  LET ls == Leaves2(x.ty, <<>>, x.off, x.w)
      z == [b \in 0..(x.off + x.bits - 1) |-> 0]
  IN Get(Fill(z, ls, 1), x.off, x.bits)

-----------------------------------------------------------------------------
(* what is observed of an instance *)
Dump(o) == LET ls == LeavesOf(o.ty)
           IN [i \in 1..Len(ls) |-> [path |-> ls[i].path, kind |-> KindOf(ls[i]), bits |-> ls[i].bits, val |-> BytesOf(Get(o.mem, ls[i].off, ls[i].bits))]]
Dumps(os) == [i \in 1..Len(os) |-> Dump(os[i])]

Running == phase = "done" /\ Len(ops) < MaxOps
Done(op, os) == ops' = Append(ops, [op EXCEPT !.after = Dumps(os)]) /\ objs' = os /\ before' = objs /\ n' = n + 1
                /\ UNCHANGED <<target, env, decls, stack, phase>>
Blank == [op |-> "", obj |-> 0, ty |-> <<>>, pos |-> <<>>, kw |-> <<>>, bad |-> "none", path |-> <<>>, bits |-> 0, val |-> <<>>, to |-> 0, after |-> <<>>]
Arg(x) == [step |-> x.step, bits |-> x.bits, val |-> <<>>, off |-> x.off, w |-> x.w, kind |-> "value"]
(* T(value, ..., name=value, ...): k positional arguments, then some of the    *)
(* others by name; surplus arguments or two values for a member are refused    *)
RECURSIVE WithValues(_)
WithValues(ms) == IF ms = <<>> THEN <<>>
                  ELSE LET v == ValueFor(Head(ms))
                       IN <<[step |-> Head(ms).step, off |-> Head(ms).off, bits |-> v, val |-> BytesOf(v)]>> \o WithValues(Tail(ms))
RECURSIVE WriteAll(_, _)
WriteAll(mem, as) == IF as = <<>> THEN mem ELSE WriteAll(Write(mem, Head(as).off, Head(as).bits), Tail(as))
Shown(as) == [i \in 1..Len(as) |-> [step |-> as[i].step, val |-> as[i].val]]
Subsets(S) == IF Sim THEN {{x \in S : Rnd({0, 1}) = 1}} ELSE SUBSET S
New ==
  /\ Running /\ Len(objs) < MaxObjs
  /\ \E T \in Pick(Candidates) :
     LET ms == Members(T) u == RecordOf(T).u IN
     \E k \in Pick(0..Len(ms)), rest \in Subsets(1..Len(ms)), bad \in Pick(IF u = "union" THEN {"none"} ELSE {"none", "surplus", "twice"}) :
     LET kw == {i \in rest : i > k /\ ms[i].step # ""}
         order == SelectSeq([i \in 1..Len(ms) |-> i], LAMBDA i : i \in kw)
         ks == IF bad = "surplus" THEN Len(ms) ELSE IF u = "union" THEN Min2(k, 1) ELSE k
         ps == IF Sim THEN Rnd({WithValues(SubSeq(ms, 1, ks))}) ELSE WithValues(SubSeq(ms, 1, ks))
         ns == IF bad = "surplus" \/ (u = "union" /\ ks > 0) THEN <<>> ELSE WithValues([i \in 1..Len(order) |-> ms[order[i]]])
         ok == bad = "none" \/ (bad = "twice" /\ ks = 0)
     IN \E p \in {ps}, q \in {ns} :
        Done([Blank EXCEPT !.op = "new", !.ty = <<T>>, !.pos = Shown(p), !.kw = Shown(q), !.bad = IF ok THEN "none" ELSE bad],
             IF ok THEN Append(objs, [ty |-> T, mem |-> WriteAll(WriteAll(Zero(T), p), q)]) ELSE objs)
(* o.a.b[2] = value, of a leaf *)
LeafRefs == {<<i, j>> : i \in 1..Len(objs), j \in 1..MaxLeaves}
RealRefs == {r \in LeafRefs : r[2] <= Len(LeavesOf(objs[r[1]].ty))}
SetLeaf ==
  /\ Running /\ objs # <<>>
  /\ \E r \in Pick({x \in RealRefs : KindOf(LeavesOf(objs[x[1]].ty)[x[2]]) \notin {"ptr", "void*", "fn"}}) :
     LET l == LeavesOf(objs[r[1]].ty)[r[2]] IN
     \E v \in Pick(ValuesOf(l) \cup {[i \in 1..l.bits |-> 0]}) :
       Done([Blank EXCEPT !.op = "set", !.obj = r[1], !.path = l.path, !.val = BytesOf(v), !.bits = l.bits, !.bad = KindOf(l)],
            [objs EXCEPT ![r[1]].mem = Write(@, l.off, v)])
(* o.member = value, of any member: records and arrays as a whole *)
SetMember ==
  /\ Running /\ objs # <<>>
  /\ \E i \in Pick(1..Len(objs)) :
     LET ms == Members(objs[i].ty) IN
     \E j \in Pick(1..Len(ms)) :
     \E v \in {WithValues(<<ms[j]>>)} :
       Done([Blank EXCEPT !.op = "member", !.obj = i, !.kw = Shown(v)], [objs EXCEPT ![i].mem = Write(@, v[1].off, v[1].bits)])
(* o.p = pointer(other); the value of the pointer is the number of the other   *)
SameType(P, o) == LET A == Canon(P.to, env) IN A.k \in {"r", "x"} /\ A = Canon(o.ty, env)
Pointers == {r \in RealRefs : KindOf(LeavesOf(objs[r[1]].ty)[r[2]]) = "ptr"}
Point ==
  /\ Running
  /\ \E r \in Pick({x \in Pointers : \E k \in 1..Len(objs) : SameType(LeavesOf(objs[x[1]].ty)[x[2]].ty, objs[k])}) :
     LET l == LeavesOf(objs[r[1]].ty)[r[2]] IN
     \E k \in Pick({0} \cup {k \in 1..Len(objs) : SameType(l.ty, objs[k])}) :
       Done([Blank EXCEPT !.op = "point", !.obj = r[1], !.path = l.path, !.to = k],
            [objs EXCEPT ![r[1]].mem = Write(@, l.off, BitsOf(k, l.bits))])
(* o.p.contents.a = value: the other instance changes *)
TokenOf(r) == LET l == LeavesOf(objs[r[1]].ty)[r[2]]
                  b == BytesOf(Get(objs[r[1]].mem, l.off, l.bits))
              IN b[1]
Through ==
  /\ Running
  /\ \E r \in Pick({x \in Pointers : TokenOf(x) # 0}) :
     LET l == LeavesOf(objs[r[1]].ty)[r[2]]
         k == TokenOf(r)
     IN \E j \in Pick({i \in 1..Len(LeavesOf(objs[k].ty)) : KindOf(LeavesOf(objs[k].ty)[i]) \notin {"ptr", "void*", "fn"}}) :
        LET t == LeavesOf(objs[k].ty)[j] IN
        \E v \in Pick(ValuesOf(t)) :
          Done([Blank EXCEPT !.op = "through", !.obj = r[1], !.path = l.path \o <<"*">> \o t.path, !.val = BytesOf(v), !.bits = t.bits, !.bad = KindOf(t)],
               [objs EXCEPT ![k].mem = Write(@, t.off, v)])

(* bind: callbacks by the names of the members. What a callback may take and   *)
(* return are scalars; those that cannot be made stay null.                    *)
FnOf(T) == LET C == Canon(T, env) IN IF C.to.k = "f" THEN C.to ELSE Canon(C.to, env)
IsFn(T) == LET C == Canon(T, env) IN C.k = "p" /\ (C.to.k = "f" \/ Canon(C.to, env).k = "f")
Scalar(T) == LET C == Canon(T, env) IN C.k = "b" /\ C.n \notin (WideNames \cup {"ldouble"})
Returns(T) == LET C == Canon(T, env) IN C.k \in {"v", "e"} \/ (C.k = "b" /\ C.n \notin WideNames) \/ (C.k = "p" /\ Canon(C.to, env).k = "v")
Takes(T) == LET C == Canon(T, env) IN C.k \in {"e", "p", "a"} \/ Scalar(C)
CanMake(F) == Returns(F.res)
CanCall(F) == Returns(F.res) /\ \A i \in 1..Len(F.args) : Takes(F.args[i])
BindCandidates == {T \in Candidates : RecordOf(T).u = "struct" /\ \E i \in 1..Len(Members(T)) : IsFn(Members(T)[i].ty)
                                      /\ \A j \in 1..Len(Members(T)) : IsFn(Members(T)[j].ty) => \A a \in 1..Len(FnOf(Members(T)[j].ty).args) : Takes(FnOf(Members(T)[j].ty).args[a])}
DefaultToken == 199
Bind ==
  /\ Running /\ Len(objs) < MaxObjs
  /\ \E T \in Pick(BindCandidates) :
     LET ms == Members(T)
         fns == {i \in 1..Len(ms) : IsFn(ms[i].ty)}
         ok == {i \in fns : CanMake(FnOf(ms[i].ty))}
     IN \E bound \in Subsets(ok), nulls \in Subsets(fns), given \in Subsets((1..Len(ms)) \ fns), bad \in Pick({"none", "none2", "unknown"}) :
        LET Token(i) == IF i \in bound THEN 200 + Len(ops) ELSE IF i \in nulls \/ i \notin ok THEN 0 ELSE DefaultToken
            fs == [i \in 1..Len(ms) |-> [step |-> ms[i].step, off |-> ms[i].off,
                     bits |-> IF i \in fns THEN BitsOf(Token(i), ms[i].bits) ELSE [j \in 1..ms[i].bits |-> 0]]]
            vs == SelectSeq([i \in 1..Len(ms) |-> i], LAMBDA i : i \in given)
        IN \E q \in {WithValues([i \in 1..Len(vs) |-> ms[vs[i]]])} :
           Done([Blank EXCEPT !.op = "bind", !.ty = <<T>>, !.kw = Shown(q), !.bad = IF bad = "unknown" THEN bad ELSE "none",
                              !.pos = [i \in 1..Len(ms) |-> [step |-> ms[i].step, val |-> IF i \in bound THEN <<2>> ELSE IF i \in nulls THEN <<1>> ELSE IF i \in fns THEN <<0>> ELSE <<>>]]],
                IF bad = "unknown" THEN objs ELSE Append(objs, [ty |-> T, mem |-> WriteAll(WriteAll(Zero(T), fs), q)]))

Start == phase = "open" /\ Next /\ UNCHANGED ivars
Over == phase = "done" /\ (Len(ops) = MaxOps \/ Candidates = {}) /\ phase' = "over" /\ UNCHANGED <<target, env, decls, stack, n, objs, ops, before>>
Rest == phase \in {"over", "rest", "dropped"} /\ phase' = "rest" /\ UNCHANGED <<target, env, decls, stack, n, objs, ops, before>>
INext == Start \/ New \/ New \/ SetLeaf \/ SetMember \/ Point \/ Through \/ Bind \/ Over \/ Rest
IInit == Init /\ objs = <<>> /\ ops = <<>> /\ before = <<>>
ISpec == IInit /\ [][INext]_<<vars, ivars>>

-----------------------------------------------------------------------------
(* what is assigned is read, and nothing else changes but what overlaps it     *)
Last == ops[Len(ops)]
LeafAt(T, path) == LET ls == LeavesOf(T) IN ls[CHOOSE i \in 1..Len(ls) : ls[i].path = path]
FrameOK ==
  ops # <<>> /\ Last.op = "set" =>
    LET o == objs[Last.obj] b == before[Last.obj]
        l == LeafAt(o.ty, Last.path)
        ls == LeavesOf(o.ty)
    IN /\ BytesOf(Get(o.mem, l.off, l.bits)) = Last.val
       /\ \A i \in 1..Len(ls) : ls[i].off + ls[i].bits <= l.off \/ ls[i].off >= l.off + l.bits
                                => Get(o.mem, ls[i].off, ls[i].bits) = Get(b.mem, ls[i].off, ls[i].bits)
       /\ \A k \in 1..Len(objs) : k # Last.obj => objs[k] = before[k]
(* only a union has members that overlap *)
ApartOK == \A k \in 1..Len(objs) : RecordOf(objs[k].ty).u = "struct" =>
  LET ms == Members(objs[k].ty) IN \A i, j \in 1..Len(ms) : i < j => ms[i].off + ms[i].bits <= ms[j].off
RefusedOK == ops # <<>> /\ Last.op \in {"new", "bind"} => (Last.bad # "none" <=> Len(objs) = Len(before))
IEmit == phase = "over" /\ ops # <<>> => PrintT("CASE " \o ToJson(Case @@ [ops |-> ops]))
=============================================================================
