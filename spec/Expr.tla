-------------------------------- MODULE Expr --------------------------------
(* Integer constant expressions of C: types of literals, usual arithmetic       *)
(* conversions, values. Only results that the type represents have a value      *)
(* here (no overflow, no wrap-around).                                          *)
EXTENDS Wide

CONSTANT LongBits

ITypes == {"i", "u", "l", "ul", "ll", "ull"}
Signed(t) == t \in {"i", "l", "ll"}
Rank(t) == IF t \in {"i", "u"} THEN 1 ELSE IF t \in {"l", "ul"} THEN 2 ELSE 3
Bits(t) == IF Rank(t) = 1 THEN 32 ELSE IF Rank(t) = 2 THEN LongBits ELSE 64
OfRank(r, s) == CASE r = 1 /\ s -> "i" [] r = 1 -> "u" [] r = 2 /\ s -> "l" [] r = 2 -> "ul" [] s -> "ll" [] OTHER -> "ull"
Fit(t, v) == Fits(v, Bits(t), Signed(t))

(* usual arithmetic conversions *)
Common(t1, t2) ==
  LET r1 == Rank(t1)  r2 == Rank(t2)  hi == IF r1 > r2 THEN r1 ELSE r2
      s == IF Signed(t1) THEN t1 ELSE t2  u == IF Signed(t1) THEN t2 ELSE t1
  IN IF Signed(t1) = Signed(t2) THEN OfRank(hi, Signed(t1))
     ELSE IF Rank(u) >= Rank(s) THEN u
     ELSE IF Bits(s) > Bits(u) THEN s ELSE OfRank(Rank(s), FALSE)

(* the types that a literal may have, in the order that C tries them *)
Candidates(dec, suf) ==
  LET start == CASE suf \in {"", "u"} -> 1 [] suf \in {"l", "ul"} -> 2 [] OTHER -> 3
      both == [i \in 1..2 * (4 - start) |-> OfRank(start + (i - 1) \div 2, i % 2 = 1)]
  IN SelectSeq(both, LAMBDA t : IF suf \in {"u", "ul", "ull"} THEN ~Signed(t) ELSE ~dec \/ Signed(t))
LitOk(dec, suf, v) == \E i \in 1..Len(Candidates(dec, suf)) : Fit(Candidates(dec, suf)[i], v)
LitType(dec, suf, v) ==
  LET c == Candidates(dec, suf)
      first == CHOOSE i \in 1..Len(c) : Fit(c[i], v) /\ \A j \in 1..i - 1 : ~Fit(c[j], v)
  IN c[first]

(* a value with its type: [t, v] *)
UnOps == {"-", "~", "+"}
UnValue(op, a) == [t |-> a.t, v |-> CASE op = "-" -> Neg(a.v) [] op = "~" -> BitNot(a.v) [] OTHER -> a.v]
UnOk(op, a) == Fit(a.t, UnValue(op, a).v)

(* values that TLC can calculate with *)
Little(v) == Lt(v, Pow2(24)) /\ Lt(Neg(Pow2(24)), v)
Num(v) == IF IsNeg(v) THEN v[1] + 256 * v[2] + 65536 * v[3] - 16777216 ELSE v[1] + 256 * v[2] + 65536 * v[3]
AbsI(x) == IF x < 0 THEN -x ELSE x
QuotI(a, b) == LET q == AbsI(a) \div AbsI(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q

BinOps == {"+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"}
ShiftOps == {"<<", ">>"}
Low(v) == v[1]
BinType(op, a, b) == IF op \in ShiftOps THEN a.t ELSE Common(a.t, b.t)
BinRaw(op, a, b) ==
  CASE op = "+" -> Add(a, b) [] op = "-" -> Sub(a, b) [] op = "*" -> Mul(a, b)
    [] op = "/" -> W(QuotI(Num(a), Num(b))) [] op = "%" -> W(Num(a) - Num(b) * QuotI(Num(a), Num(b)))
    [] op = "<<" -> Shl(a, Low(b)) [] op = ">>" -> Shr(a, Low(b))
    [] op = "&" -> BitAnd(a, b) [] op = "|" -> BitOr(a, b) [] OTHER -> BitXor(a, b)
(* small enough that a product of two fits ten bytes *)
Tame(v) == Lt(v, Pow2(39)) /\ Lt(Neg(Pow2(39)), v)
BinOk(op, a, b) ==
  LET t == BinType(op, a, b) IN
  /\ op \in ShiftOps => /\ Le(Zero, b.v) /\ Lt(b.v, W(Bits(a.t)))
                        /\ op = "<<" => Le(Zero, a.v) /\ (a.v # Zero => Lt(a.v, Pow2(78 - Low(b.v))))
  /\ op \notin ShiftOps => Fit(t, a.v) /\ Fit(t, b.v)
  /\ op = "*" => Tame(a.v) /\ Tame(b.v)
  /\ op \in {"/", "%"} => b.v # Zero /\ Little(a.v) /\ Little(b.v)
  /\ Fit(t, BinRaw(op, a.v, b.v))
BinValue(op, a, b) == [t |-> BinType(op, a, b), v |-> BinRaw(op, a.v, b.v)]

(* trees *)
Lit(form, suf, v) == [op |-> "lit", name |-> "", form |-> form, suf |-> suf, v |-> v, kids |-> <<>>]
RefTo(name) == [op |-> "ref", name |-> name, form |-> "", suf |-> "", v |-> <<>>, kids |-> <<>>]
Un(op, a) == [op |-> "un", name |-> op, form |-> "", suf |-> "", v |-> <<>>, kids |-> <<a>>]
Bin(op, a, b) == [op |-> "bin", name |-> op, form |-> "", suf |-> "", v |-> <<>>, kids |-> <<a, b>>]
RECURSIVE RefsOf(_)
RefsOf(x) == IF x.op = "ref" THEN {x.name} ELSE UNION {RefsOf(x.kids[i]) : i \in 1..Len(x.kids)}

(* what the value of a tree is, from scratch: the stack machines below have to agree with it *)
RECURSIVE Eval(_, _)
Eval(x, env) ==
  CASE x.op = "lit" -> [t |-> LitType(x.form = "dec", x.suf, x.v), v |-> x.v]
    [] x.op = "ref" -> [t |-> env[x.name].t, v |-> env[x.name].v]
    [] x.op = "un" -> UnValue(x.name, Eval(x.kids[1], env))
    [] OTHER -> BinValue(x.name, Eval(x.kids[1], env), Eval(x.kids[2], env))
=============================================================================
