------------------------------- MODULE Layout -------------------------------
(* How a C compiler lays a record out, one member at a time.                   *)
(*                                                                             *)
(* A frame is a record under construction:                                     *)
(*   u      "struct" or "union"                                                *)
(*   pack   0, or the largest alignment of a member (1 is the packed attribute)*)
(*   al     0, or the alignment asked for the record itself                    *)
(*   cur    the offset in bits of the first free bit                           *)
(*   msize  the size in bits of the largest member                             *)
(*   align  the alignment in bytes so far                                      *)
(*   fields the members laid out so far: name ("" when unnamed), ty, off, bits,*)
(*          w (the width of a bit-field, -1 otherwise), fal (its _Alignas or 0)*)
(*          def (the type is defined with the member)                          *)
EXTENDS CTypes

Frame(u, pack, al) ==
  [u |-> u, pack |-> pack, al |-> al, cur |-> 0, msize |-> 0, align |-> 1, fields |-> <<>>]

MemberAlign(fr, T, fal, env, m) ==
  LET a == AlignOf(T, env, m)
  IN Max2(IF fr.pack = 0 THEN a ELSE Min2(a, fr.pack), fal)

(* an ordinary member *)
AddMember(fr, name, T, fal, env, m) ==
  LET a == MemberAlign(fr, T, fal, env, m)
      bits == 8 * SizeOf(T, env, m)
      off == IF fr.u = "union" THEN 0 ELSE Up(fr.cur, 8 * a)
  IN [fr EXCEPT !.fields = Append(@, [name |-> name, ty |-> T, off |-> off, bits |-> bits,
                                      w |-> -1, fal |-> fal, def |-> FALSE]),
                !.cur = IF fr.u = "union" THEN 0 ELSE off + bits,
                !.msize = Max2(@, bits),
                !.align = Max2(@, a)]

(* a bit-field, by the rules of the System V ABI *)
AddBits(fr, name, T, w, env, m) ==
  LET a == IF fr.pack = 0 THEN AlignOf(T, env, m) ELSE Min2(AlignOf(T, env, m), fr.pack)
      unit == 8 * SizeOf(T, env, m)
      fits == (fr.cur % (8 * a)) + w <= unit
      off == IF fr.u = "union" THEN 0
             ELSE IF w = 0 THEN Up(fr.cur, 8 * AlignOf(T, env, m))
             ELSE IF fr.pack # 0 \/ fits THEN fr.cur
             ELSE Up(fr.cur, 8 * a)
  IN [fr EXCEPT !.fields = Append(@, [name |-> name, ty |-> T, off |-> off, bits |-> w,
                                      w |-> w, fal |-> 0, def |-> FALSE]),
                !.cur = IF fr.u = "union" THEN 0 ELSE off + w,
                !.msize = Max2(@, w),
                !.align = IF name = "" THEN @ ELSE Max2(@, a)]

(* the complete record *)
Close(fr) ==
  LET a == Max2(fr.align, fr.al)
      bits == IF fr.u = "union" THEN fr.msize ELSE fr.cur
  IN [u |-> fr.u, pack |-> fr.pack, al |-> fr.al, fields |-> fr.fields,
      align |-> a, size |-> Up(Up(bits, 8) \div 8, a)]

-----------------------------------------------------------------------------
(* What a layout must satisfy, whatever computed it.                           *)
Named(r) == {i \in 1..Len(r.fields) : r.fields[i].w # 0}
WellFormed(r) ==
  /\ r.size % r.align = 0
  /\ \A i \in Named(r) : LET f == r.fields[i] IN f.off >= 0 /\ f.off + f.bits <= 8 * r.size
  /\ r.u = "union" => \A i \in Named(r) : r.fields[i].off = 0
  /\ r.u = "struct" =>
       \A i, j \in Named(r) : i < j => r.fields[i].off + r.fields[i].bits <= r.fields[j].off
Aligned(r, env, m) ==
  \A i \in Named(r) : LET f == r.fields[i] IN
     f.w = -1 => f.off % (8 * (IF r.pack = 0 THEN AlignOf(f.ty, env, m)
                                ELSE Min2(r.pack, AlignOf(f.ty, env, m)))) = 0
(* no bit-field of an unpacked record crosses a storage unit of its own type *)
BitsInUnit(r, env, m) ==
  r.pack = 0 => \A i \in Named(r) : LET f == r.fields[i] IN
     f.w > 0 => (f.off % (8 * AlignOf(f.ty, env, m))) + f.w <= 8 * SizeOf(f.ty, env, m)
(* there is never more padding than an alignment asks for *)
Tight(r, env, m) ==
  r.u = "struct" => \A i \in 2..Len(r.fields) :
     LET f == r.fields[i] g == r.fields[i-1]
     IN f.off - (g.off + g.bits) < 8 * Max2(f.fal, AlignOf(f.ty, env, m))

-----------------------------------------------------------------------------
(* The class of bit-fields that ctypes can express: every run of consecutive   *)
(* bit-fields of a struct has one aligned storage unit size that no bit-field  *)
(* crosses and that stays clear of the members around the run.                 *)
BitRuns(r) ==
  LET F == SelectSeq(r.fields, LAMBDA f : f.w # 0)
      N == Len(F)
      IsBit(i) == i \in 1..N /\ F[i].w > 0
  IN {[first |-> i, last |-> j,
       start |-> F[i].off,
       end |-> F[j].off + F[j].bits,
       limit |-> IF j = N THEN 8 * r.size ELSE F[j+1].off,
       off |-> [k \in i..j |-> F[k].off], w |-> [k \in i..j |-> F[k].w]] :
        <<i, j>> \in {p \in (1..N) \X (1..N) :
            /\ p[1] <= p[2]
            /\ \A k \in p[1]..p[2] : IsBit(k)
            /\ ~IsBit(p[1] - 1) /\ ~IsBit(p[2] + 1)}}
UnitFits(run, unit) ==
  /\ run.start % unit = 0
  /\ Up(run.end, unit) <= run.limit
  /\ \A k \in run.first..run.last :
        run.off[k] \div unit = (run.off[k] + run.w[k] - 1) \div unit
Representable(r) ==
  IF r.u = "union"
  THEN LET bits == {i \in 1..Len(r.fields) : r.fields[i].w >= 0}
       IN bits = {} \/ (r.pack = 0 /\ Cardinality(bits) = 1)
  ELSE \A run \in BitRuns(r) : \E unit \in {8, 16, 32, 64} : UnitFits(run, unit)

-----------------------------------------------------------------------------
(* The members as an accessor of the record sees them: the members of unnamed  *)
(* anonymous records are members of the enclosing record.                      *)
RECURSIVE Flatten(_, _, _), FlatSeq(_, _, _, _)
FlatSeq(fs, base, env, m) ==
  IF fs = <<>> THEN <<>>
  ELSE LET f == Head(fs)
           here == IF f.w = 0 THEN <<>>
                   ELSE IF f.name # ""
                   THEN <<[name |-> f.name, off |-> base + f.off, bits |-> f.bits, w |-> f.w,
                           proj |-> Proj(f.ty, env, m)]>>
                   ELSE IF f.ty.k = "x" THEN Flatten(env.anon[f.ty.id], base + f.off, <<env, m>>)
                   ELSE <<>>
       IN here \o FlatSeq(Tail(fs), base, env, m)
Flatten(r, base, em) == FlatSeq(r.fields, base, em[1], em[2])
=============================================================================
