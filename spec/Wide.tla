-------------------------------- MODULE Wide --------------------------------
(* Integers of 80 bits, as ten bytes in two's complement, least significant    *)
(* first: TLC's own integers have 32 bits, those of C have 64.                 *)
EXTENDS Integers, Sequences, Bitwise

N == 10
RECURSIVE CarryAdd(_, _, _, _, _)
CarryAdd(a, b, c, i, out) ==
  IF i > N THEN out
  ELSE LET s == a[i] + b[i] + c IN CarryAdd(a, b, s \div 256, i + 1, Append(out, s % 256))
Add(a, b) == CarryAdd(a, b, 0, 1, <<>>)
BitNot(a) == [i \in 1..N |-> 255 - a[i]]
One == [i \in 1..N |-> IF i = 1 THEN 1 ELSE 0]
Zero == [i \in 1..N |-> 0]
Neg(a) == Add(BitNot(a), One)
Sub(a, b) == Add(a, Neg(b))
IsNeg(a) == a[N] >= 128

(* an integer of TLC *)
RECURSIVE NatBytes(_, _)
NatBytes(x, i) == IF i > N THEN <<>> ELSE <<x % 256>> \o NatBytes(x \div 256, i + 1)
W(x) == IF x >= 0 THEN NatBytes(x, 1) ELSE Neg(NatBytes(-x, 1))

RECURSIVE Pow256(_)
(* 2^k *)
Pow2(k) == [i \in 1..N |-> IF i = k \div 8 + 1 THEN 2 ^ (k % 8) ELSE 0]
Pow256(k) == Pow2(8 * k)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i - 1)
Cmp(a, b) == IF IsNeg(a) # IsNeg(b) THEN (IF IsNeg(a) THEN -1 ELSE 1) ELSE CmpFrom(a, b, N)
Le(a, b) == Cmp(a, b) <= 0
Lt(a, b) == Cmp(a, b) < 0
Abs(a) == IF IsNeg(a) THEN Neg(a) ELSE a

(* product, modulo 2^80 *)
RECURSIVE SumProd(_, _, _, _), CarryMul(_, _, _, _, _)
SumProd(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k - i + 1] + SumProd(a, b, k, i + 1)
CarryMul(a, b, c, k, out) ==
  IF k > N THEN out
  ELSE LET s == SumProd(a, b, k, 1) + c IN CarryMul(a, b, s \div 256, k + 1, Append(out, s % 256))
Mul(a, b) == CarryMul(a, b, 0, 1, <<>>)
Shl(a, k) == Mul(a, Pow2(k))

(* shift right, arithmetic *)
Shr(a, k) ==
  LET q == k \div 8  r == k % 8
      fill == IF IsNeg(a) THEN 255 ELSE 0
      at(i) == IF i > N THEN fill ELSE a[i]
  IN [i \in 1..N |-> (at(i + q) \div 2 ^ r) + ((at(i + q + 1) * 2 ^ (8 - r)) % 256)]
BitAnd(a, b) == [i \in 1..N |-> a[i] & b[i]]
BitOr(a, b) == [i \in 1..N |-> a[i] | b[i]]
BitXor(a, b) == [i \in 1..N |-> a[i] ^^ b[i]]

(* quotient and remainder, rounded towards zero, by binary long division *)
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, b, k, q, r) ==
  IF k < 0 THEN <<q, r>>
  ELSE LET bit == (a[k \div 8 + 1] \div 2 ^ (k % 8)) % 2
           r2 == Add(Add(r, r), W(bit))
       IN IF Le(b, r2) THEN DivFrom(a, b, k - 1, Add(q, Pow2(k)), Sub(r2, b))
          ELSE DivFrom(a, b, k - 1, q, r2)
UDiv(a, b) == DivFrom(a, b, 70, Zero, Zero)
Quot(a, b) == LET q == UDiv(Abs(a), Abs(b))[1] IN IF IsNeg(a) # IsNeg(b) THEN Neg(q) ELSE q
Rem(a, b) == LET r == UDiv(Abs(a), Abs(b))[2] IN IF IsNeg(a) THEN Neg(r) ELSE r

(* the value modulo 2^bits, as C converts to an integer type *)
Wrap(a, bits, signed) ==
  LET low == [i \in 1..N |-> IF i <= bits \div 8 THEN a[i] ELSE 0]
  IN IF signed /\ low[bits \div 8] >= 128 THEN Sub(low, Pow2(bits)) ELSE low
Fits(a, bits, signed) == Wrap(a, bits, signed) = a
=============================================================================
