-------------------------------- MODULE Enums -------------------------------
(* Enumerations, one constant after the other. Values are written in the ways  *)
(* C allows: left out, a literal, a negative, a character, a shift, a          *)
(* reference to a constant of this or an earlier enumeration. The type may be  *)
(* given (enum E : short), and an enumeration may be declared, and used,       *)
(* before it is defined.                                                       *)
EXTENDS Wide, FiniteSets, TLC, Json

CONSTANTS Sim, MaxEnums, MaxItems, Anchors, Forms, Hows, Packed, Unders, Aheads, Target

VARIABLES enums, cur, n, phase
vars == <<enums, cur, n, phase>>

Rnd(S) == IF n > 0 THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE
Pick(S) == IF Sim /\ S # {} THEN {Rnd(S)} ELSE S

(* the values to draw from: 2^k + d, -2^k + d *)
Anchor(x) == IF x[1] = 0 THEN W(x[2])
             ELSE IF x[1] > 0 THEN Add(Pow2(x[1]), W(x[2])) ELSE Add(Neg(Pow2(-x[1])), W(x[2]))
RandBytes == [i \in 1..N |-> IF i <= 8 THEN Rnd(0..255) ELSE 0]
Max64 == Sub(Pow2(64), One)
MinS64 == Neg(Pow2(63))

Init == enums = <<>> /\ cur = [open |-> FALSE] /\ n = 1 /\ phase = "open"

(* names of constants that an expression may refer to: those of earlier enumerations and of this one *)
Earlier == UNION {{enums[i].items[j] : j \in 1..Len(enums[i].items)} : i \in 1..Len(enums)}
Known == Earlier \cup {cur.items[j] : j \in 1..Len(cur.items)}

(* a set of values that one enumeration can hold *)
Values(items) == {items[i].val : i \in 1..Len(items)}
Possible(vals) == /\ \A v \in vals : Le(v, Max64) /\ Le(MinS64, v)
                  /\ (\E v \in vals : IsNeg(v)) => \A v \in vals : Lt(v, Pow2(63))
HasNeg(vals) == \E v \in vals : IsNeg(v)
FitAll(vals, bits) == \A v \in vals : Fits(v, bits, HasNeg(vals))
SizeFor(vals, packed) ==
  IF packed /\ FitAll(vals, 8) THEN 1
  ELSE IF packed /\ FitAll(vals, 16) THEN 2
  ELSE IF FitAll(vals, 32) THEN 4 ELSE 8

(* the integer types that may be given                                         *)
LongBits == IF Target \in {"i386-linux", "x86_64-win32"} THEN 32 ELSE 64
UnderBits(u) == CASE u \in {"schar", "uchar"} -> 8 [] u \in {"short", "ushort"} -> 16 [] u \in {"int", "uint"} -> 32
                  [] u \in {"long", "ulong"} -> LongBits [] OTHER -> 64
UnderSigned(u) == u \in {"schar", "short", "int", "long", "llong"}
(* where it is not given: in the ABI of Windows it is int                      *)
IsMs == Target = "x86_64-win32"
Named == Hows \ {"unnamed", "typedef", "member"}
Open ==
  /\ phase = "open" /\ ~cur.open /\ Len(enums) < MaxEnums
  /\ \E how \in Pick(Hows), packed \in Pick(Packed), under \in Pick(Unders), ahead \in Pick(Aheads), want \in IF Sim THEN {IF Rnd(1..12) = 1 THEN Rnd(12..60) ELSE Rnd(1..MaxItems)} ELSE {MaxItems} :
       /\ ~Sim => (packed => under = "none") /\ (how \notin Named => ahead = "no")
       /\ cur' = [open |-> TRUE, how |-> how, packed |-> packed /\ under = "none", under |-> under, ahead |-> IF how \in Named THEN ahead ELSE "no", want |-> want, name |-> "E" \o ToString(n),
               items |-> <<>>]
  /\ n' = n + 1
  /\ UNCHANGED <<enums, phase>>

Room == phase = "open" /\ cur.open /\ Len(cur.items) < cur.want
Put(form, val, from, k) ==
  /\ Possible(Values(cur.items) \cup {val})
  /\ cur.under # "none" => Fits(val, UnderBits(cur.under), UnderSigned(cur.under))
  /\ cur.under = "none" /\ IsMs => Fits(val, 32, TRUE)
  /\ cur' = [cur EXCEPT !.items = Append(@, [name |-> "K" \o ToString(n), form |-> form, val |-> val,
                                             from |-> from, k |-> k])]
  /\ n' = n + 1
  /\ UNCHANGED <<enums, phase>>

(* the successor of the largest signed value is an error that compilers wrap around *)
Implicit ==
  /\ Room
  /\ cur.items # <<>> => cur.items[Len(cur.items)].val # Sub(Pow2(63), One)
  /\ Put("implicit", IF cur.items = <<>> THEN Zero ELSE Add(cur.items[Len(cur.items)].val, One), "", 0)
Literal ==
  /\ Room
  /\ \E form \in Pick(Forms \cap {"dec", "hex", "oct", "paren", "bin"}), a \in Pick(Anchors) :
     \E v \in {IF Sim /\ Rnd(1..8) = 1 THEN RandBytes ELSE Anchor(a)} :
        /\ ~IsNeg(v) \/ form \in {"dec", "paren"}
        /\ form = "dec" \/ form = "paren" => Lt(v, Pow2(63))
        /\ Put(form, v, "", 0)
Char ==
  /\ Room /\ "char" \in Forms
  /\ \E c \in Pick({48, 65, 122}) : Put("char", W(c), "", c)
Shift ==
  /\ Room /\ "shift" \in Forms
  /\ \E k \in Pick({0, 1, 7, 8, 30, 31, 32, 62, 63}) : Put("shift", Pow2(k), "", k)
(* K + k: C computes in the type of K, so stay clear of its limits *)
Small(v) == Lt(v, W(1000000)) /\ Lt(W(-1000000), v)
Ref ==
  /\ Room /\ "ref" \in Forms
  /\ \E it \in Pick(Known), k \in Pick({-7, 0, 1, 100}) :
       LET d == IF Small(it.val) /\ (Unders = {"none"} \/ k > 0 \/ it.val[1] > 6) THEN k ELSE 0
       IN Put("ref", Add(it.val, W(d)), it.name, d)
(* sizeof(int) * k *)
Sizeof ==
  /\ Room /\ "sizeof" \in Forms
  /\ \E k \in Pick({1, 3}) : Put("sizeof", W(4 * k), "", k)
(* (K1 | K2), of small positive constants *)
OrOf ==
  /\ Room /\ "or" \in Forms
  /\ \E a \in Pick({x \in Known : Small(x.val) /\ ~IsNeg(x.val)}), k \in Pick({1, 64}) :
       Put("or", BitOr(a.val, W(k)), a.name, k)

Close ==
  /\ phase = "open" /\ cur.open /\ Len(cur.items) > 0
  /\ Sim => (Len(cur.items) = cur.want \/ Rnd(1..40) = 1)
  /\ LET vals == Values(cur.items)
     IN enums' = Append(enums, [how |-> cur.how, packed |-> cur.packed, name |-> cur.name, items |-> cur.items,
                                under |-> cur.under, ahead |-> cur.ahead,
                                size |-> IF cur.under # "none" THEN UnderBits(cur.under) \div 8 ELSE SizeFor(vals, cur.packed),
                                signed |-> IF cur.under # "none" THEN UnderSigned(cur.under) ELSE IsMs \/ HasNeg(vals)])
  /\ cur' = [open |-> FALSE]
  /\ UNCHANGED <<n, phase>>
Finish ==
  /\ phase = "open" /\ ~cur.open /\ enums # <<>> /\ (Sim => Len(enums) = MaxEnums)
  /\ phase' = "done"
  /\ UNCHANGED <<enums, cur, n>>
Next == Open \/ Implicit \/ Literal \/ Char \/ Shift \/ Ref \/ Sizeof \/ OrOf \/ Close \/ Finish
Spec == Init /\ [][Next]_vars

(* the type of a complete enumeration holds its values, and no smaller one does *)
Holds ==
  \A i \in 1..Len(enums) :
    LET e == enums[i] IN
    /\ \A v \in Values(e.items) : Fits(v, 8 * e.size, e.signed)
    /\ e.size > 4 /\ e.under = "none" => \E v \in Values(e.items) : ~Fits(v, 32, e.signed)
    /\ e.under = "none" /\ ~IsMs => e.signed <=> \E v \in Values(e.items) : Lt(v, Zero)
(* a constant without a value follows its predecessor *)
Follows ==
  \A i \in 1..Len(enums) : \A j \in 2..Len(enums[i].items) :
    enums[i].items[j].form = "implicit" =>
      Sub(enums[i].items[j].val, enums[i].items[j - 1].val) = One
Emit == phase = "done" => PrintT("CASE " \o ToJson([target |-> Target, enums |-> enums]))
=============================================================================
