------------------------------- MODULE Scalar -------------------------------
(* C++ scalar semantics of the element types of dsga.                         *)
(* A scalar is its type tag and its bit pattern, as base 4096 digits, little  *)
(* endian, of fixed length: 1 digit for bool, 3 for 32 bit, 6 for 64 bit.     *)
(*   b bool   i int   u unsigned   l long long   m unsigned long long         *)
(*   z unsigned long (std::size_t)   f float   d double                       *)
EXTENDS Big, Bitwise, TLC

IsFloat(t)  == t \in {"f", "d"}
IsInt(t)    == t \in {"i", "u", "l", "m", "z"}
IsSigned(t) == t \in {"i", "l", "f", "d"}
Width(t) == CASE t = "b" -> 1 [] t \in {"i", "u", "f"} -> 32 [] OTHER -> 64
Digs(t)  == CASE t = "b" -> 1 [] t \in {"i", "u", "f"} -> 3 [] OTHER -> 6
TopMod(t) == CASE t = "b" -> 2 [] t \in {"i", "u", "f"} -> 256 [] OTHER -> 16   \* values of the top digit

(* The usual arithmetic conversions: the common type of two element types. *)
Common(s, t) ==
    IF s = t THEN (IF s = "b" THEN "b" ELSE s)
    ELSE IF "d" \in {s, t} THEN "d"
    ELSE IF "f" \in {s, t} THEN "f"
    ELSE LET p == {IF s = "b" THEN "i" ELSE s, IF t = "b" THEN "i" ELSE t}
         IN CASE p = {"i"} -> "i"
              [] "m" \in p -> "m"
              [] p = {"l", "z"} -> "m"
              [] "l" \in p -> "l"
              [] "z" \in p -> "z"
              [] OTHER -> "u"

ImplicitlyConvertible(from, to) == from # "b" /\ to # "b" /\ Common(from, to) = to

-----------------------------------------------------------------------------
(* Fixed-width integers *)

Fix(t, x) == LET n == Digs(t) IN                 \* truncate/pad a Big to the width of t
             [i \in 1..n |-> IF i < n THEN BDig(x, i) ELSE BDig(x, i) % TopMod(t)]
Neg(t, x) == Fix(t, BAdd([i \in 1..Digs(t) |-> IF i < Digs(t) THEN BB - 1 - x[i] ELSE TopMod(t) - 1 - x[i]], <<1>>))
SignBit(t, x) == IF IsSigned(t) /\ x[Digs(t)] >= TopMod(t) \div 2 THEN 1 ELSE 0
Mag(t, x) == BStrip(IF SignBit(t, x) = 1 THEN Neg(t, x) ELSE x)
FromSM(t, s, m) == IF s = 1 THEN Neg(t, Fix(t, m)) ELSE Fix(t, m)
IsZeroInt(x) == \A i \in 1..Len(x) : x[i] = 0

IAdd(t, x, y) == Fix(t, BAdd(x, y))
ISub(t, x, y) == Fix(t, BAdd(x, Neg(t, y)))
IMul(t, x, y) == Fix(t, BMul(BStrip(x), BStrip(y)))
IDiv(t, x, y) == LET d == BDivMod(Mag(t, x), Mag(t, y)) IN FromSM(t, IF SignBit(t, x) = SignBit(t, y) THEN 0 ELSE 1, d.q)
IMod(t, x, y) == LET d == BDivMod(Mag(t, x), Mag(t, y)) IN FromSM(t, SignBit(t, x), d.r)
INot(t, x) == [i \in 1..Digs(t) |-> (IF i < Digs(t) THEN BB ELSE TopMod(t)) - 1 - x[i]]
IAnd(t, x, y) == [i \in 1..Digs(t) |-> x[i] & y[i]]
IOr(t, x, y)  == [i \in 1..Digs(t) |-> x[i] | y[i]]
IXor(t, x, y) == [i \in 1..Digs(t) |-> x[i] ^^ y[i]]
IShl(t, x, k) == Fix(t, BShl(BStrip(x), k))
IShr(t, x, k) == IF SignBit(t, x) = 1 THEN INot(t, Fix(t, BShr(BStrip(INot(t, x)), k)))
                 ELSE Fix(t, BShr(BStrip(x), k))
ICmp(t, x, y) == IF SignBit(t, x) # SignBit(t, y) THEN (IF SignBit(t, x) = 1 THEN -1 ELSE 1)
                 ELSE BCmp(BStrip(x), BStrip(y))

(* Did a signed operation stay in range?  (Otherwise C++ leaves it undefined.) *)
InRange(t, s, m) == LET top == BShl(<<1>>, Width(t) - 1) IN
                    IF s = 1 THEN BCmp(m, top) <= 0 ELSE BCmp(m, top) < 0
SignedAddDefined(t, x, y) == IF ~IsSigned(t) THEN TRUE
    ELSE SignBit(t, x) # SignBit(t, y) \/ InRange(t, SignBit(t, x), BAdd(Mag(t, x), Mag(t, y)))
SignedSubDefined(t, x, y) == IF ~IsSigned(t) THEN TRUE
    ELSE SignBit(t, x) = SignBit(t, y) \/ InRange(t, SignBit(t, x), BAdd(Mag(t, x), Mag(t, y)))
SignedMulDefined(t, x, y) == IF ~IsSigned(t) THEN TRUE
    ELSE InRange(t, IF SignBit(t, x) = SignBit(t, y) THEN 0 ELSE 1, BMul(Mag(t, x), Mag(t, y)))
DivDefined(t, x, y) == ~IsZeroInt(y) /\
    (IF IsSigned(t) THEN InRange(t, IF SignBit(t, x) = SignBit(t, y) THEN 0 ELSE 1, BDivMod(Mag(t, x), Mag(t, y)).q) ELSE TRUE)

-----------------------------------------------------------------------------
(* IEEE 754 binary32 / binary64, round to nearest even *)

MB(t)   == IF t = "f" THEN 23 ELSE 52
Bias(t) == IF t = "f" THEN 127 ELSE 1023
EMax(t) == IF t = "f" THEN 255 ELSE 2047         \* biased exponent of inf and nan
EMin(t) == 1 - Bias(t) - MB(t)                   \* exponent of the last place of subnormals

FSign(t, x) == IF x[Digs(t)] >= TopMod(t) \div 2 THEN 1 ELSE 0
FExp(t, x)  == IF t = "f" THEN (x[3] % 128) * 2 + (x[2] \div 2048) ELSE (x[6] % 8) * 256 + (x[5] \div 16)
FFrac(t, x) == BStrip(IF t = "f" THEN <<x[1], x[2] % 2048>> ELSE <<x[1], x[2], x[3], x[4], x[5] % 16>>)

(* value = (-1)^s * m * 2^e for c = "fin"; m is never zero there *)
Dec(t, x) ==
    LET s == FSign(t, x)  ex == FExp(t, x)  fr == FFrac(t, x)
    IN CASE ex = EMax(t) /\ fr # <<>> -> [c |-> "nan", s |-> 0, m |-> <<>>, e |-> 0]
         [] ex = EMax(t)              -> [c |-> "inf", s |-> s, m |-> <<>>, e |-> 0]
         [] ex = 0 /\ fr = <<>>       -> [c |-> "zero", s |-> s, m |-> <<>>, e |-> 0]
         [] ex = 0                    -> [c |-> "fin", s |-> s, m |-> fr, e |-> EMin(t)]
         [] OTHER                     -> [c |-> "fin", s |-> s, m |-> BAdd(fr, BShl(<<1>>, MB(t))), e |-> ex - Bias(t) - MB(t)]

Pack(t, s, ex, fr) ==
    LET r == Fix(t, BAdd(BShl(BFromInt(ex), MB(t)), fr)) IN
    IF s = 1 THEN [r EXCEPT ![Digs(t)] = @ + TopMod(t) \div 2] ELSE r
FZero(t, s) == Pack(t, s, 0, <<>>)
FInf(t, s)  == Pack(t, s, EMax(t), <<>>)
FNaN(t)     == Pack(t, 0, EMax(t), BShl(<<1>>, MB(t) - 1))

IsNaN(t, x) == FExp(t, x) = EMax(t) /\ FFrac(t, x) # <<>>
IsInf(t, x) == FExp(t, x) = EMax(t) /\ FFrac(t, x) = <<>>
IsZeroF(t, x) == FExp(t, x) = 0 /\ FFrac(t, x) = <<>>
IsFinite(t, x) == FExp(t, x) # EMax(t)

(* Round the number m * 2^e (plus something positive below its last bit if st)   *)
(* to the format.  If st then m must have more bits than the format.             *)
Enc(t, s, m, e, st) ==
    IF m = <<>> THEN FZero(t, s)
    ELSE LET lim  == EMin(t)
             want == e + BBits(m) - (MB(t) + 1)
             eu   == IF want > lim THEN want ELSE lim
             sh   == eu - e
             q0   == IF sh <= 0 THEN BShl(m, -sh) ELSE BShr(m, sh)
             up   == IF sh <= 0 THEN FALSE
                     ELSE BBit(m, sh - 1) = 1 /\ (st \/ BLowNonZero(m, sh - 1) \/ BOdd(q0))
             q1   == IF up THEN BAdd(q0, <<1>>) ELSE q0
             ovf  == BBits(q1) > MB(t) + 1
             q    == IF ovf THEN BShr(q1, 1) ELSE q1
             ee   == IF ovf THEN eu + 1 ELSE eu
         IN IF q = <<>> THEN FZero(t, s)
            ELSE IF BBits(q) = MB(t) + 1
                 THEN LET bx == ee + Bias(t) + MB(t) IN
                      IF bx >= EMax(t) THEN FInf(t, s) ELSE Pack(t, s, bx, BSub(q, BShl(<<1>>, MB(t))))
                 ELSE Pack(t, s, 0, q)

(* exact sum of two signed numbers <<s, m, e>> (m may be zero) *)
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
XAdd(s1, m1, e1, s2, m2, e2) ==
    LET e == MinOf(e1, e2)
        a == BShl(m1, e1 - e)
        b == BShl(m2, e2 - e)
    IN IF s1 = s2 THEN [s |-> s1, m |-> BAdd(a, b), e |-> e]
       ELSE IF BCmp(a, b) >= 0 THEN [s |-> s1, m |-> BSub(a, b), e |-> e]
       ELSE [s |-> s2, m |-> BSub(b, a), e |-> e]

(* Far apart exponents: only the sign of a tiny addend matters for the rounded sum, so it  *)
(* is replaced by a single bit just below everything the rounding can see.               *)
XAddFar(t, a, ta, b, tb) ==                     \* ta >= tb: positions of the leading bits
    LET lim == MinOf(a.e, ta - MB(t) - 4) - 2 IN
    IF tb < lim THEN XAdd(a.s, a.m, a.e, b.s, <<1>>, lim) ELSE XAdd(a.s, a.m, a.e, b.s, b.m, b.e)
FAddD(t, a, b) ==
    CASE a.c = "nan" \/ b.c = "nan" -> FNaN(t)
      [] a.c = "inf" /\ b.c = "inf" -> IF a.s = b.s THEN FInf(t, a.s) ELSE FNaN(t)
      [] a.c = "inf" -> FInf(t, a.s)
      [] b.c = "inf" -> FInf(t, b.s)
      [] a.c = "zero" /\ b.c = "zero" -> FZero(t, IF a.s = 1 /\ b.s = 1 THEN 1 ELSE 0)
      [] a.c = "zero" -> Enc(t, b.s, b.m, b.e, FALSE)
      [] b.c = "zero" -> Enc(t, a.s, a.m, a.e, FALSE)
      [] OTHER ->
         LET ta == a.e + BBits(a.m)  tb == b.e + BBits(b.m)
             r == IF ta >= tb THEN XAddFar(t, a, ta, b, tb) ELSE XAddFar(t, b, tb, a, ta)
         IN IF r.m = <<>> THEN FZero(t, 0) ELSE Enc(t, r.s, r.m, r.e, FALSE)
FNegD(d) == [d EXCEPT !.s = 1 - @]
FAdd(t, x, y) == FAddD(t, Dec(t, x), Dec(t, y))
FSub(t, x, y) == FAddD(t, Dec(t, x), FNegD(Dec(t, y)))
FNeg(t, x) == [x EXCEPT ![Digs(t)] = (@ + TopMod(t) \div 2) % TopMod(t)]
FAbs(t, x) == [x EXCEPT ![Digs(t)] = @ % (TopMod(t) \div 2)]

Xor1(a, b) == IF a = b THEN 0 ELSE 1
FMul(t, x, y) ==
    LET a == Dec(t, x)  b == Dec(t, y)  s == Xor1(a.s, b.s) IN
    CASE a.c = "nan" \/ b.c = "nan" -> FNaN(t)
      [] (a.c = "inf" /\ b.c = "zero") \/ (a.c = "zero" /\ b.c = "inf") -> FNaN(t)
      [] a.c = "inf" \/ b.c = "inf" -> FInf(t, s)
      [] a.c = "zero" \/ b.c = "zero" -> FZero(t, s)
      [] OTHER -> Enc(t, s, BMul(a.m, b.m), a.e + b.e, FALSE)
FDiv(t, x, y) ==
    LET a == Dec(t, x)  b == Dec(t, y)  s == Xor1(a.s, b.s) IN
    CASE a.c = "nan" \/ b.c = "nan" -> FNaN(t)
      [] (a.c = "inf" /\ b.c = "inf") \/ (a.c = "zero" /\ b.c = "zero") -> FNaN(t)
      [] a.c = "inf" -> FInf(t, s)
      [] b.c = "inf" -> FZero(t, s)
      [] b.c = "zero" -> FInf(t, s)
      [] a.c = "zero" -> FZero(t, s)
      [] OTHER -> LET k == MaxOf(0, MB(t) + 3 + BBits(b.m) - BBits(a.m))
                      d == BDivMod(BShl(a.m, k), b.m)
                  IN Enc(t, s, d.q, a.e - k - b.e, d.r # <<>>)
FFma(t, x, y, z) ==
    LET a == Dec(t, x)  b == Dec(t, y)  c == Dec(t, z)  s == Xor1(a.s, b.s)
        p == CASE a.c = "nan" \/ b.c = "nan" -> [c |-> "nan", s |-> 0, m |-> <<>>, e |-> 0]
               [] (a.c = "inf" /\ b.c = "zero") \/ (a.c = "zero" /\ b.c = "inf") -> [c |-> "nan", s |-> 0, m |-> <<>>, e |-> 0]
               [] a.c = "inf" \/ b.c = "inf" -> [c |-> "inf", s |-> s, m |-> <<>>, e |-> 0]
               [] a.c = "zero" \/ b.c = "zero" -> [c |-> "zero", s |-> s, m |-> <<>>, e |-> 0]
               [] OTHER -> [c |-> "fin", s |-> s, m |-> BMul(a.m, b.m), e |-> a.e + b.e]
    IN FAddD(t, p, c)

(* the remainder of the division truncated towards zero, which is always exact *)
FRem(t, x, y) ==
    LET a == Dec(t, x)  b == Dec(t, y) IN
    CASE a.c \in {"nan", "inf"} \/ b.c \in {"nan", "zero"} -> FNaN(t)
      [] a.c = "zero" \/ b.c = "inf" -> x
      [] OTHER -> LET e == MinOf(a.e, b.e)
                      r == BDivMod(BShl(a.m, a.e - e), BShl(b.m, b.e - e)).r
                  IN IF r = <<>> THEN FZero(t, a.s) ELSE Enc(t, a.s, r, e, FALSE)
FClass(t, x) == IF IsNaN(t, x) THEN 0 ELSE IF IsInf(t, x) THEN 1 ELSE IF IsZeroF(t, x) THEN 2 ELSE IF FExp(t, x) = 0 THEN 3 ELSE 4

(* -1, 0, 1, or 2 when unordered *)
FCmpD(a, b) ==
    CASE a.c = "nan" \/ b.c = "nan" -> 2
      [] a.c = "zero" /\ b.c = "zero" -> 0
      [] a.c = "zero" -> IF b.s = 1 THEN 1 ELSE -1
      [] b.c = "zero" -> IF a.s = 1 THEN -1 ELSE 1
      [] a.s # b.s -> IF a.s = 1 THEN -1 ELSE 1
      [] a.c = "inf" /\ b.c = "inf" -> 0
      [] a.c = "inf" -> IF a.s = 1 THEN -1 ELSE 1
      [] b.c = "inf" -> IF b.s = 1 THEN 1 ELSE -1
      [] OTHER -> LET e == MinOf(a.e, b.e)
                      c == BCmp(BShl(a.m, a.e - e), BShl(b.m, b.e - e))
                  IN IF a.s = 1 THEN -c ELSE c
FCmp(t, x, y) == FCmpD(Dec(t, x), Dec(t, y))

(* r is the correctly rounded square root of x (for r a positive normal number):  *)
(* (r - ulp/2)^2 <= x <= (r + ulp/2)^2                                            *)
FSqrtOk(t, x, r) ==
    LET a == Dec(t, x)  b == Dec(t, r) IN
    CASE a.c = "nan" -> b.c = "nan"
      [] a.c = "zero" -> b.c = "zero"
      [] a.s = 1 -> b.c = "nan"
      [] a.c = "inf" -> b.c = "inf" /\ b.s = 0
      [] OTHER ->
         /\ b.c = "fin" /\ b.s = 0
         /\ LET m2 == BShl(b.m, 1)                 \* r = m2 * 2^(e-1)
                lo == BSub(m2, <<1>>)
                hi == BAdd(m2, <<1>>)
                ee == 2 * (b.e - 1)
                e  == MinOf(ee, a.e)
                X  == BShl(a.m, a.e - e)
            IN /\ BCmp(BShl(BMul(lo, lo), ee - e), X) <= 0
               /\ BCmp(X, BShl(BMul(hi, hi), ee - e)) <= 0

(* rounding to integers *)
FIntOp(t, op, x) ==
    LET a == Dec(t, x) IN
    IF a.c # "fin" \/ a.e >= 0 THEN x
    ELSE LET k == -a.e
             q == BShr(a.m, k)
             rem == BLowNonZero(a.m, k)
             hb == BBit(a.m, k - 1) = 1            \* at least a half
             mo == BLowNonZero(a.m, k - 1)         \* more than that half bit
             up == CASE op = "trunc" -> FALSE
                     [] op = "floor" -> a.s = 1 /\ rem
                     [] op = "ceil"  -> a.s = 0 /\ rem
                     [] op = "round" -> hb
                     [] op = "roundEven" -> hb /\ (mo \/ BOdd(q))
         IN Enc(t, a.s, IF up THEN BAdd(q, <<1>>) ELSE q, 0, FALSE)

-----------------------------------------------------------------------------
(* Conversions (static_cast); float -> int truncates and must be in range *)
Conv(from, to, x) ==
    IF from = to THEN x
    ELSE IF to = "b" THEN (IF IsFloat(from) THEN (IF IsZeroF(from, x) THEN <<0>> ELSE <<1>>)
                           ELSE IF IsZeroInt(x) THEN <<0>> ELSE <<1>>)
    ELSE IF from = "b" THEN (IF IsFloat(to) THEN Enc(to, 0, BStrip(x), 0, FALSE) ELSE Fix(to, x))
    ELSE IF IsFloat(from)
         THEN LET a == Dec(from, x) IN
              IF IsFloat(to)
              THEN CASE a.c = "nan" -> FNaN(to)
                     [] a.c = "inf" -> FInf(to, a.s)
                     [] a.c = "zero" -> FZero(to, a.s)
                     [] OTHER -> Enc(to, a.s, a.m, a.e, FALSE)
              ELSE IF a.c = "zero" THEN Fix(to, <<>>)
                   ELSE FromSM(to, a.s, IF a.e >= 0 THEN BShl(a.m, a.e) ELSE BShr(a.m, -a.e))
    ELSE IF IsFloat(to) THEN Enc(to, SignBit(from, x), Mag(from, x), 0, FALSE)
    ELSE FromSM(to, SignBit(from, x), Mag(from, x))

(* Scalar operators on two values of one type *)
Arith(op, t, x, y) ==
    IF IsFloat(t)
    THEN CASE op = "+" -> FAdd(t, x, y) [] op = "-" -> FSub(t, x, y)
           [] op = "*" -> FMul(t, x, y) [] op = "/" -> FDiv(t, x, y)
    ELSE CASE op = "+" -> IAdd(t, x, y) [] op = "-" -> ISub(t, x, y)
           [] op = "*" -> IMul(t, x, y) [] op = "/" -> IDiv(t, x, y)
           [] op = "%" -> IMod(t, x, y) [] op = "&" -> IAnd(t, x, y)
           [] op = "|" -> IOr(t, x, y)  [] op = "^" -> IXor(t, x, y)
ArithDefined(op, t, x, y) ==
    IF IsFloat(t) THEN TRUE
    ELSE CASE op = "+" -> SignedAddDefined(t, x, y) [] op = "-" -> SignedSubDefined(t, x, y)
           [] op = "*" -> SignedMulDefined(t, x, y) [] op \in {"/", "%"} -> DivDefined(t, x, y)
           [] OTHER -> TRUE
Cmp(t, x, y) == IF t = "b" THEN x[1] - y[1] ELSE IF IsFloat(t) THEN FCmp(t, x, y) ELSE ICmp(t, x, y)

One(t) == IF IsFloat(t) THEN Enc(t, 0, <<1>>, 0, FALSE) ELSE Fix(t, <<1>>)
Zero(t) == Fix(t, <<>>)

(* The same value: bit for bit, except that any NaN is as good as another *)
Same(t, x, y) == x = y \/ (IsFloat(t) /\ IsNaN(t, x) /\ IsNaN(t, y))
(* The same number: additionally -0 = +0 *)
SameNum(t, x, y) == Same(t, x, y) \/ (IsFloat(t) /\ IsZeroF(t, x) /\ IsZeroF(t, y))
=============================================================================
