------------------------------- MODULE CTypes -------------------------------
(* The C type system that every other module of this specification builds on: *)
(* the data model of each target, the type expressions of C, their size and    *)
(* alignment, and the abstract ctypes type that must stand for each of them.   *)
(*                                                                             *)
(* Type expressions are records with a tag k:                                  *)
(*   [k |-> "b", n |-> name]            a built-in type                        *)
(*   [k |-> "v"]                        void (pointee or function result only) *)
(*   [k |-> "p", to |-> T]              pointer                                *)
(*   [k |-> "a", of |-> T, n |-> Nat]   array                                  *)
(*   [k |-> "r", u |-> "struct"|"union", tag |-> name]                         *)
(*   [k |-> "e", tag |-> name]          enumeration                            *)
(*   [k |-> "t", name |-> name]         typedef name                           *)
(*   [k |-> "f", res |-> T, args |-> Seq(T)]   prototype, under a pointer only *)
(*   [k |-> "x", u |-> kind, id |-> Nat]       anonymous record, by number     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Void == [k |-> "v"]
B(n) == [k |-> "b", n |-> n]
Ptr(T) == [k |-> "p", to |-> T]
Arr(T, n) == [k |-> "a", of |-> T, n |-> n]
Rec(u, tag) == [k |-> "r", u |-> u, tag |-> tag]
Enum(tag) == [k |-> "e", tag |-> tag]
Tdef(name) == [k |-> "t", name |-> name]
Fn(res, args) == [k |-> "f", res |-> res, args |-> args]
Anon(u, id) == [k |-> "x", u |-> u, id |-> id]

-----------------------------------------------------------------------------
(* Data models. ll and dbl are the alignments of 8 byte integers and doubles.  *)
DataModel(t) ==
  CASE t = "x86_64-linux"  -> [ptr |-> 8, long |-> 8, ll |-> 8, dbl |-> 8, ld |-> 16, lda |-> 16, schar |-> TRUE,  sysv |-> TRUE, ms |-> FALSE]
    [] t = "i386-linux"    -> [ptr |-> 4, long |-> 4, ll |-> 4, dbl |-> 4, ld |-> 12, lda |-> 4,  schar |-> TRUE,  sysv |-> TRUE, ms |-> FALSE]
    [] t = "x86_64-win32"  -> [ptr |-> 8, long |-> 4, ll |-> 8, dbl |-> 8, ld |-> 8,  lda |-> 8,  schar |-> TRUE,  sysv |-> FALSE, ms |-> TRUE]
    [] t = "i386-win32"    -> [ptr |-> 4, long |-> 4, ll |-> 8, dbl |-> 8, ld |-> 8,  lda |-> 8,  schar |-> TRUE,  sysv |-> FALSE, ms |-> TRUE]
    [] t = "arm-linux"     -> [ptr |-> 4, long |-> 4, ll |-> 8, dbl |-> 8, ld |-> 8,  lda |-> 8,  schar |-> FALSE, sysv |-> FALSE, ms |-> FALSE]
    [] t = "aarch64-linux" -> [ptr |-> 8, long |-> 8, ll |-> 8, dbl |-> 8, ld |-> 16, lda |-> 16, schar |-> FALSE, sysv |-> FALSE, ms |-> FALSE]
AllTargets == {"x86_64-linux", "i386-linux", "x86_64-win32", "i386-win32", "arm-linux", "aarch64-linux"}

IntNames == {"char", "schar", "uchar", "short", "ushort", "int", "uint",
             "long", "ulong", "llong", "ullong"}
FloatNames == {"float", "double", "ldouble"}
BuiltinNames == IntNames \cup FloatNames \cup {"bool"}
WideNames == {"i128", "u128"}     \* of the targets with 8 byte pointers

BSize(n, m) ==
  CASE n \in {"char", "schar", "uchar", "bool"} -> 1
    [] n \in {"short", "ushort"} -> 2
    [] n \in {"int", "uint", "float"} -> 4
    [] n \in {"long", "ulong"} -> m.long
    [] n \in {"llong", "ullong", "double"} -> 8
    [] n = "ldouble" -> m.ld
    [] n \in WideNames -> 16
BAlign(n, m) ==
  CASE n \in {"long", "ulong"} -> IF m.long = 8 THEN m.ll ELSE 4
    [] n \in {"llong", "ullong"} -> m.ll
    [] n = "double" -> m.dbl
    [] n = "ldouble" -> m.lda
    [] OTHER -> BSize(n, m)
(* the exact-width types of stdint.h *)
FixedNames == {"int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t"}
Fixed(name, m) ==
  CASE name = "int8_t" -> "schar" [] name = "uint8_t" -> "uchar"
    [] name = "int16_t" -> "short" [] name = "uint16_t" -> "ushort"
    [] name = "int32_t" -> "int" [] name = "uint32_t" -> "uint"
    [] name = "int64_t" -> IF m.long = 8 THEN "long" ELSE "llong"
    [] name = "uint64_t" -> IF m.long = 8 THEN "ulong" ELSE "ullong"
BSigned(n, m) ==
  \/ n \in {"schar", "short", "int", "long", "llong"}
  \/ n = "char" /\ m.schar

-----------------------------------------------------------------------------
(* env.rec maps the tag of a complete record to [size, align, ...];            *)
(* env.anon is the sequence of anonymous records; env.td maps a typedef name   *)
(* to its type; env.en maps the tag of an enumeration to [size, signed].       *)
RECURSIVE SizeOf(_, _, _), AlignOf(_, _, _), Canon(_, _), Complete(_, _)
SizeOf(T, env, m) ==
  CASE T.k = "b" -> BSize(T.n, m)
    [] T.k = "p" -> m.ptr
    [] T.k = "a" -> T.n * SizeOf(T.of, env, m)
    [] T.k = "r" -> env.rec[T.tag].size
    [] T.k = "x" -> env.anon[T.id].size
    [] T.k = "e" -> env.en[T.tag].size
    [] T.k = "t" -> SizeOf(env.td[T.name], env, m)
AlignOf(T, env, m) ==
  CASE T.k = "b" -> BAlign(T.n, m)
    [] T.k = "p" -> m.ptr
    [] T.k = "a" -> AlignOf(T.of, env, m)
    [] T.k = "r" -> env.rec[T.tag].align
    [] T.k = "x" -> env.anon[T.id].align
    [] T.k = "e" -> env.en[T.tag].size
    [] T.k = "t" -> AlignOf(env.td[T.name], env, m)

(* typedefs are transparent *)
Canon(T, env) == IF T.k = "t" THEN Canon(env.td[T.name], env) ELSE T

(* a type whose size is known, so that it can be a member or an element *)
Complete(T, env) ==
  CASE T.k \in {"b", "p", "e", "x"} -> TRUE
    [] T.k \in {"v", "f"} -> FALSE
    [] T.k = "a" -> Complete(T.of, env)
    [] T.k = "r" -> T.tag \in DOMAIN env.rec
    [] T.k = "t" -> Complete(env.td[T.name], env)

-----------------------------------------------------------------------------
(* The abstract ctypes type that must stand for a C type. Enumerations are     *)
(* unsigned or signed integers of their size, char is c_char where the target  *)
(* has a signed char, long double is any ctypes type of its size, typedefs     *)
(* leave no trace, and a prototype decays to the signature of its pointer.     *)
RECURSIVE Proj(_, _, _)
Proj(T, env, m) ==
  CASE T.k = "v" -> [k |-> "void"]
    [] T.k = "b" ->
         IF T.n = "bool" THEN [k |-> "bool"]
         ELSE IF T.n \in WideNames THEN [k |-> "arr", n |-> 16, of |-> [k |-> "int", z |-> 1, s |-> FALSE]]
         ELSE IF T.n = "ldouble" THEN [k |-> "ld", z |-> m.ld]
         ELSE IF T.n \in FloatNames THEN [k |-> "flt", z |-> BSize(T.n, m)]
         ELSE IF T.n = "char" /\ m.schar THEN [k |-> "char"]
         ELSE [k |-> "int", z |-> BSize(T.n, m), s |-> BSigned(T.n, m)]
    [] T.k = "p" -> IF T.to.k = "f"
                    THEN [k |-> "fn", res |-> Proj(T.to.res, env, m),
                          args |-> [i \in 1..Len(T.to.args) |->
                                     LET A == Canon(T.to.args[i], env)
                                     IN Proj(IF A.k = "a" THEN Ptr(A.of) ELSE A, env, m)]]
                    ELSE LET C == Canon(T.to, env)
                         IN IF C.k = "f" THEN Proj(Ptr(C), env, m)
                            ELSE [k |-> "ptr", to |-> Proj(C, env, m)]
    [] T.k = "a" -> [k |-> "arr", n |-> T.n, of |-> Proj(T.of, env, m)]
    [] T.k = "r" -> [k |-> "rec", u |-> T.u, tag |-> T.tag]
    [] T.k = "x" -> [k |-> "anon", u |-> T.u, id |-> T.id]
    [] T.k = "e" -> [k |-> "int", z |-> env.en[T.tag].size, s |-> env.en[T.tag].signed]
    [] T.k = "t" -> Proj(env.td[T.name], env, m)
    [] T.k = "f" -> Proj(Ptr(T), env, m)

-----------------------------------------------------------------------------
Up(n, a) == ((n + a - 1) \div a) * a
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
=============================================================================
