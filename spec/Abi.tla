--------------------------------- MODULE Abi ---------------------------------
(* How records are passed and returned by value (System V x86-64), and what    *)
(* becomes of that when the padding of a record is made of explicit bytes, as  *)
(* in the generated classes.                                                   *)
EXTENDS Layout

Decay(T, env) == IF Canon(T, env).k = "a" THEN Ptr(Canon(T, env).of) ELSE T

RECURSIVE Leaves(_, _, _, _), Plain(_, _)
FieldsOf(C, env) == IF C.k = "r" THEN env.rec[C.tag] ELSE env.anon[C.id]
(* the scalars of a type: <<byte offset, size, class>> *)
Leaves(T, off, env, m) ==
  LET C == Canon(T, env)
  IN CASE C.k = "b" -> {<<off, BSize(C.n, m), IF C.n \in {"float", "double"} THEN "sse" ELSE IF C.n = "ldouble" THEN "x87" ELSE "int">>}
       [] C.k \in {"p", "e"} -> {<<off, SizeOf(C, env, m), "int">>}
       [] C.k = "a" -> UNION {Leaves(C.of, off + (i * SizeOf(C.of, env, m)), env, m) : i \in 0..(C.n - 1)}
       [] OTHER -> LET r == FieldsOf(C, env)
                   IN UNION {Leaves(r.fields[i].ty, off + (r.fields[i].off \div 8), env, m) : i \in 1..Len(r.fields)}
(* what ctypes itself passes right: no unions, no bit-fields, no matrices *)
Plain(T, env) ==
  LET C == Canon(T, env)
  IN CASE C.k = "b" -> C.n \notin WideNames
       [] C.k = "a" -> Canon(C.of, env).k # "a" /\ Plain(C.of, env)
       [] C.k \in {"r", "x"} -> LET r == FieldsOf(C, env)
                               IN C.u = "struct" /\ \A i \in 1..Len(r.fields) : r.fields[i].w < 0 /\ Plain(r.fields[i].ty, env)
       [] OTHER -> TRUE

(* "ok": the value arrives. "ctypes": ctypes cannot pass it, whatever the      *)
(* class. "padded": an eightbyte that C passes in a vector register has        *)
(* explicit padding, which makes it an integer. "aligned": the alignment of    *)
(* the record is lost.                                                         *)
ByValue(T, env, m) ==
  LET C == Canon(T, env)
  IN IF ~Plain(C, env) THEN "ctypes"
     ELSE IF C.k \notin {"r", "x"} THEN "ok"
     ELSE LET size == SizeOf(C, env, m)
              L == Leaves(C, 0, env, m)
              In(e) == {l \in L : l[1] \div 8 = e}
              Covered(e) == {b \in (8 * e)..Min2(8 * e + 7, size - 1) : \E l \in In(e) : b >= l[1] /\ b < l[1] + l[2]}
          IN IF AlignOf(C, env, m) > 8 THEN "aligned"
             ELSE IF size > 16 THEN "ok"
             ELSE IF \E l \in L : l[1] % l[2] # 0 THEN "ctypes"
             ELSE IF \E e \in 0..((size - 1) \div 8) :
                       /\ \A l \in In(e) : l[3] = "sse"
                       /\ Covered(e) # (8 * e)..Min2(8 * e + 7, size - 1)
             THEN "padded" ELSE "ok"
=============================================================================
