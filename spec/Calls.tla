-------------------------------- MODULE Calls --------------------------------
(* The value semantics of every dsga function and operator that maps operands to    *)
(* a result without touching any object.                                            *)
(*                                                                                  *)
(* A value is a record [t: element type, k: kind, v: sequence of scalars].  Kinds:  *)
(* "S" a plain scalar, "V" an owning vector, "M" an owning matrix; operands also    *)
(* carry the kind of place they were read from ("0".."8"), which never matters.     *)
EXTENDS Scalar

(* ------------------------------------------------------------------ lifting *)
Count1(x) == Len(x.v)
Count2(x, y) == IF Len(x.v) > Len(y.v) THEN Len(x.v) ELSE Len(y.v)
Count3(x, y, z) == MaxOf(Count2(x, y), Len(z.v))
At(x, i) == IF Len(x.v) = 1 THEN x.v[1] ELSE x.v[i]          \* a single value is broadcast
Shaped2(x, y) == Len(x.v) = Len(y.v) \/ Len(x.v) = 1 \/ Len(y.v) = 1
As(t, x, i) == Conv(x.t, t, At(x, i))

(* the result of an operator has one component exactly when it is a plain scalar *)
IsResult(r, t, n) == r.t = t /\ Len(r.v) = n /\ r.k = (IF n = 1 THEN "S" ELSE "V")

(* ------------------------------------------------------------------ C07, C08: operators *)
ArithOps == {"+", "-", "*", "/", "%", "&", "|", "^"}
ShiftOps == {"<<", ">>"}

BinaryOk(o, x, y, r) ==
    LET t == Common(x.t, y.t)  n == Count2(x, y) IN
    /\ Shaped2(x, y)
    /\ IsResult(r, t, n)
    /\ \A i \in 1..n : ArithDefined(o, t, As(t, x, i), As(t, y, i)) =>
                       Same(t, r.v[i], Arith(o, t, As(t, x, i), As(t, y, i)))

ShiftAmount(t, k) == IF SignBit(t, k) = 1 \/ Len(BStrip(k)) > 1 THEN -1 ELSE BDig(k, 1)
ShiftOk(o, x, y, r) ==                                        \* the result keeps the left type
    LET n == Count2(x, y) IN
    /\ Shaped2(x, y)
    /\ IsResult(r, x.t, n)
    /\ \A i \in 1..n : LET k == ShiftAmount(y.t, At(y, i)) IN
        (k >= 0 /\ k < Width(x.t)) =>
            r.v[i] = IF o = "<<" THEN IShl(x.t, At(x, i), k) ELSE IShr(x.t, At(x, i), k)

UnaryOk(o, x, r) ==
    /\ IsResult(r, x.t, Len(x.v))
    /\ \A i \in 1..Len(x.v) :
        Same(x.t, r.v[i], CASE o = "u+" -> x.v[i]
                            [] o = "u-" -> (IF IsFloat(x.t) THEN FNeg(x.t, x.v[i]) ELSE Neg(x.t, x.v[i]))
                            [] o = "~" -> INot(x.t, x.v[i]))

(* ------------------------------------------------------------------ C09: compound assignment, ++ and -- *)
(* a[1] is the destination before, r the destination after; ret says that the expression *)
(* names the destination.  The right-hand side is as long as the destination or single.  *)
AssignOps == [x \in {"+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="} |->
              CASE x = "+=" -> "+" [] x = "-=" -> "-" [] x = "*=" -> "*" [] x = "/=" -> "/" [] x = "%=" -> "%"
                [] x = "&=" -> "&" [] x = "|=" -> "|" [] x = "^=" -> "^" [] x = "<<=" -> "<<" [] x = ">>=" -> ">>"]
CompoundOk(o, x, y, r, ret) ==
    LET n == Len(x.v)
        plain == [r EXCEPT !.k = IF n = 1 THEN "S" ELSE "V"]
    IN /\ ret = 1 /\ r.t = x.t /\ Len(r.v) = n /\ Len(y.v) \in {1, n}
       /\ IF AssignOps[o] \in ShiftOps THEN ShiftOk(AssignOps[o], x, y, plain)
          ELSE BinaryOk(AssignOps[o], x, y, plain)            \* the destination has the common type
StepOps == {"++x", "--x", "x++", "x--"}
StepOk(ev) ==
    LET x == ev.a[1]  t == x.t  n == Len(x.v) IN
    /\ ev.ret = 1 /\ ev.r.t = t /\ Len(ev.r.v) = n
    /\ \A i \in 1..n : Same(t, ev.r.v[i], Arith(IF ev.o \in {"++x", "x++"} THEN "+" ELSE "-", t, x.v[i], One(t)))
    /\ ev.o \in {"x++", "x--"} => ev.old.t = t /\ Len(ev.old.v) = n /\ \A i \in 1..n : Same(t, ev.old.v[i], x.v[i])

(* ------------------------------------------------------------------ exact numbers *)
(* a finite float as sign, magnitude, exponent, never rounded: <<s, m, e>> = (-1)^s m 2^e *)
XOf(t, x) == LET d == Dec(t, x) IN [s |-> d.s, m |-> d.m, e |-> d.e]
XPlus(a, b) == IF a.m = <<>> THEN b ELSE IF b.m = <<>> THEN a ELSE XAdd(a.s, a.m, a.e, b.s, b.m, b.e)
XNeg(a) == [a EXCEPT !.s = 1 - @]
XTimes(a, b) == [s |-> Xor1(a.s, b.s), m |-> BMul(a.m, b.m), e |-> a.e + b.e]
XInt(n) == [s |-> IF n < 0 THEN 1 ELSE 0, m |-> BFromInt(IF n < 0 THEN -n ELSE n), e |-> 0]
XRound(t, a) == IF a.m = <<>> THEN FZero(t, 0) ELSE Enc(t, a.s, a.m, a.e, FALSE)
XSign(a) == IF a.m = <<>> THEN 0 ELSE IF a.s = 1 THEN -1 ELSE 1
XCmp(a, b) == XSign(XPlus(a, XNeg(b)))
XAbs(a) == [a EXCEPT !.s = 0]
Exact(t, x) == Dec(t, x).c \in {"fin", "zero"}
(* two floats at most k representable numbers apart *)
UlpNear(t, x, y, k) ==
    \/ SameNum(t, x, y)
    \/ /\ ~IsNaN(t, x) /\ ~IsNaN(t, y) /\ FSign(t, x) = FSign(t, y)
       /\ LET a == BStrip(FAbs(t, x))  b == BStrip(FAbs(t, y))
              d == IF BCmp(a, b) >= 0 THEN BSub(a, b) ELSE BSub(b, a)
          IN BCmp(d, BFromInt(k)) <= 0
    \/ /\ ~IsNaN(t, x) /\ ~IsNaN(t, y)                       \* around zero
       /\ BCmp(BAdd(BStrip(FAbs(t, x)), BStrip(FAbs(t, y))), BFromInt(k)) <= 0

(* ------------------------------------------------------------------ C10: comparisons *)
TF(x) == IF x THEN <<1>> ELSE <<0>>
CompareOps == {"lessThan", "lessThanEqual", "greaterThan", "greaterThanEqual", "equal", "notEqual"}
Compare(o, t, x, y) ==
    LET c == Cmp(t, x, y) IN
    CASE o = "lessThan" -> c = -1 [] o = "lessThanEqual" -> c \in {-1, 0}
      [] o = "greaterThan" -> c = 1 [] o = "greaterThanEqual" -> c \in {0, 1}
      [] o = "equal" -> c = 0 [] o = "notEqual" -> c # 0
CompareOk(o, x, y, r) ==
    /\ x.t = y.t /\ Len(x.v) = Len(y.v) /\ IsResult(r, "b", Len(x.v))
    /\ \A i \in 1..Len(x.v) : r.v[i] = TF(Compare(o, x.t, x.v[i], y.v[i]))
True1(x, i) == x.v[i] = <<1>>
LogicOk(o, x, y, r) ==
    /\ x.t = "b" /\ y.t = "b" /\ IsResult(r, "b", Len(x.v))
    /\ \A i \in 1..Len(x.v) :
        r.v[i] = TF(CASE o = "compNot" -> ~True1(x, i)
                      [] o = "compAnd" -> True1(x, i) /\ True1(y, i)
                      [] o = "compOr"  -> True1(x, i) \/ True1(y, i))
QuantOk(o, x, r) ==
    LET n == Len(x.v) IN
    /\ x.t = "b" /\ IsResult(r, "b", 1)
    /\ r.v[1] = TF(CASE o = "any" -> \E i \in 1..n : True1(x, i)
                     [] o = "all" -> \A i \in 1..n : True1(x, i)
                     [] o = "none" -> \A i \in 1..n : ~True1(x, i))
EqualOk(o, x, y, r) ==                                        \* == and !=, whole values
    LET t == IF x.t = y.t THEN x.t ELSE Common(x.t, y.t)
        same == \A i \in 1..Len(x.v) : Cmp(t, Conv(x.t, t, x.v[i]), Conv(y.t, t, y.v[i])) = 0
    IN Len(x.v) = Len(y.v) /\ IsResult(r, "b", 1) /\ r.v[1] = TF(IF o = "==" THEN same ELSE ~same)

(* ------------------------------------------------------------------ C11: the logical sequence *)
(* the callable is seen by its calls: what it was given, in order, and what it answered *)
ApplyOk(x, r, calls, rets, t) ==
    /\ r.t = t /\ r.k = "V" /\ Len(r.v) = Len(x.v)
    /\ calls = x.v /\ r.v = rets
ShiftedOk(o, x, n, r) ==
    LET len == Len(x.v) IN
    /\ r.t = x.t /\ r.k = "V" /\ Len(r.v) = len
    /\ \A i \in 1..len :
        r.v[i] = IF o = "cshift" THEN x.v[((i - 1 + (n % len)) % len) + 1]
                 ELSE IF n >= len \/ n <= -len THEN Zero(x.t)
                 ELSE IF i + n \in 1..len THEN x.v[i + n] ELSE Zero(x.t)
RECURSIVE SumFrom(_, _)
SumFrom(x, i) == IF i = Len(x.v) THEN x.v[i] ELSE Arith("+", x.t, x.v[i], SumFrom(x, i + 1))
FoldOk(o, x, r) ==
    /\ r.t = x.t /\ r.k = "S" /\ Len(r.v) = 1
    /\ CASE o = "vmin" -> (\E i \in 1..Len(x.v) : SameNum(x.t, x.v[i], r.v[1])) /\ (\A i \in 1..Len(x.v) : Cmp(x.t, r.v[1], x.v[i]) <= 0)
         [] o = "vmax" -> (\E i \in 1..Len(x.v) : SameNum(x.t, x.v[i], r.v[1])) /\ (\A i \in 1..Len(x.v) : Cmp(x.t, x.v[i], r.v[1]) <= 0)
         [] o = "vsum" -> SameNum(x.t, r.v[1], SumFrom(x, 1))           \* inputs whose sums are exact

(* ------------------------------------------------------------------ C16: rounding, magnitude, sign *)
RoundOps == {"floor", "ceil", "trunc", "round", "roundEven", "fract", "abs", "sign"}
Fract(t, x) == IF IsNaN(t, x) THEN x ELSE IF IsInf(t, x) THEN FZero(t, 0) ELSE FSub(t, x, FIntOp(t, "floor", x))
Sgn(t, x) == LET c == Cmp(t, x, Zero(t)) IN
             CASE c = 0 -> Zero(t) [] c = 1 -> One(t) [] c = -1 -> (IF IsFloat(t) THEN FNeg(t, One(t)) ELSE Neg(t, One(t)))
RoundOne(o, t, x, r) ==
    CASE o \in {"floor", "ceil", "trunc", "round", "roundEven"} -> SameNum(t, r, FIntOp(t, o, x))
      [] o = "fract" -> SameNum(t, r, Fract(t, x)) /\ (IsNaN(t, r) \/ IsZeroF(t, r) \/ FSign(t, r) = 0)
      [] o = "abs"  -> IF IsFloat(t) THEN Same(t, r, FAbs(t, x)) ELSE r = Fix(t, Mag(t, x))
      [] o = "sign" -> (IsFloat(t) /\ IsNaN(t, x)) \/ SameNum(t, r, Sgn(t, x))
RoundOk(o, x, r) == IsResult(r, x.t, Len(x.v)) /\ \A i \in 1..Len(x.v) : RoundOne(o, x.t, x.v[i], r.v[i])

(* ------------------------------------------------------------------ C17: common functions *)
Lt(t, x, y) == Cmp(t, x, y) = -1
Unord(t, x, y) == IsFloat(t) /\ (IsNaN(t, x) \/ IsNaN(t, y))
MinOne(t, x, y, r) == IF Unord(t, x, y) THEN Same(t, r, x) \/ Same(t, r, y)
                      ELSE SameNum(t, r, IF Lt(t, y, x) THEN y ELSE x) /\ (Same(t, r, x) \/ Same(t, r, y))
MaxOne(t, x, y, r) == IF Unord(t, x, y) THEN Same(t, r, x) \/ Same(t, r, y)
                      ELSE SameNum(t, r, IF Lt(t, x, y) THEN y ELSE x) /\ (Same(t, r, x) \/ Same(t, r, y))
ClampOne(t, x, lo, hi, r) ==
    IF Unord(t, lo, hi) THEN TRUE
    ELSE IF Unord(t, x, x) THEN Same(t, r, x) \/ Same(t, r, lo) \/ Same(t, r, hi)
    ELSE SameNum(t, r, IF Lt(t, x, lo) THEN lo ELSE IF Lt(t, hi, x) THEN hi ELSE x)
StepOne(t, edge, x, r) == SameNum(t, r, IF Lt(t, x, edge) THEN Zero(t) ELSE One(t))
ModOne(t, x, y, r) == SameNum(t, r, FSub(t, x, FMul(t, y, FIntOp(t, "floor", FDiv(t, x, y)))))
(* blending: x + a (y - x); exact where ex says that everything in between is representable *)
XLerp(t, x, y, a) == XPlus(XOf(t, x), XTimes(XOf(t, a), XPlus(XOf(t, y), XNeg(XOf(t, x)))))
MixOne(t, x, y, a, r, ex) ==
    IF ~(Exact(t, x) /\ Exact(t, y) /\ Exact(t, a)) THEN TRUE
    ELSE IF ex THEN SameNum(t, r, XRound(t, XLerp(t, x, y, a)))
    ELSE IF IsZeroF(t, a) THEN SameNum(t, r, x)
    ELSE IF a = One(t) THEN SameNum(t, r, y)
    ELSE IF FSign(t, a) = 1 \/ Cmp(t, a, One(t)) = 1 THEN TRUE
    ELSE (* within a few units in the last place of the larger end *)
         LET big == IF Cmp(t, FAbs(t, x), FAbs(t, y)) = 1 THEN XAbs(XOf(t, x)) ELSE XAbs(XOf(t, y))
             err == XAbs(XPlus(XOf(t, r), XNeg(XLerp(t, x, y, a))))
             tol == [s |-> 0, m |-> big.m, e |-> big.e - MB(t) + 2]
         IN Exact(t, r) /\ (XCmp(err, tol) <= 0 \/ XCmp(err, [s |-> 0, m |-> <<4>>, e |-> EMin(t)]) <= 0)
SmoothFormula(t, e0, e1, x) ==
    LET u == FDiv(t, FSub(t, x, e0), FSub(t, e1, e0))
        v == IF Lt(t, u, Zero(t)) THEN Zero(t) ELSE IF Lt(t, One(t), u) THEN One(t) ELSE u
        three == Enc(t, 0, <<3>>, 0, FALSE)  two == Enc(t, 0, <<2>>, 0, FALSE)
    IN FMul(t, FMul(t, v, v), FSub(t, three, FMul(t, two, v)))
SmoothOne(t, e0, e1, x, r, ex) ==
    LET f == SmoothFormula(t, e0, e1, x) IN
    IF ex THEN SameNum(t, r, f)
    ELSE IF ~(Exact(t, e0) /\ Exact(t, e1) /\ Exact(t, x)) THEN TRUE
    ELSE /\ (Cmp(t, x, e0) <= 0 => IsZeroF(t, r))
         /\ (Cmp(t, x, e1) >= 0 => (r = One(t) \/ IsInf(t, FSub(t, e1, e0))))
         /\ UlpNear(t, r, f, 8)
XEq(a, b) == XSign(XPlus(a, XNeg(b))) = 0
(* the integral part out and the returned fraction r *)
ModfOne(t, x, out, r) ==
    IF IsNaN(t, x) THEN IsNaN(t, r)
    ELSE IF IsInf(t, x) THEN out = x /\ IsZeroF(t, r)
    ELSE /\ SameNum(t, out, FIntOp(t, "trunc", x))
         /\ Exact(t, r) /\ XEq(XPlus(XOf(t, out), XOf(t, r)), XOf(t, x))
(* x = r * 2^e with one half <= |r| < 1 *)
IntOf(x) == IF SignBit("i", x) = 1 THEN -BToInt(Mag("i", x)) ELSE BToInt(Mag("i", x))
FrexpOne(t, x, e, r) ==
    IF ~Exact(t, x) THEN Same(t, r, x)
    ELSE IF IsZeroF(t, x) THEN Same(t, r, x) /\ IntOf(e) = 0
    ELSE LET d == Dec(t, r) IN
         /\ d.c = "fin" /\ d.e + BBits(d.m) = 0
         /\ XEq([s |-> d.s, m |-> d.m, e |-> d.e + IntOf(e)], XOf(t, x))
LdexpOne(t, x, e, r) ==
    LET d == Dec(t, x) IN
    Same(t, r, IF d.c = "fin" THEN Enc(t, d.s, d.m, d.e + IntOf(e), FALSE) ELSE x)
(* the same call on plain scalars, component by component, gave the same *)
AsScalars(ev, t, r) == "s" \in DOMAIN ev /\ Len(ev.s) = Len(r.v) /\ \A i \in 1..Len(r.v) : Same(t, r.v[i], ev.s[i])
CommonOps == {"min", "max", "clamp", "mix", "select", "step", "smoothstep", "mod", "modf", "fma", "frexp", "ldexp"}
CommonOk(ev) ==
    LET a == ev.a  r == ev.r  o == ev.o
        n == IF Len(a) = 1 THEN Len(a[1].v) ELSE IF Len(a) = 2 THEN Count2(a[1], a[2]) ELSE Count3(a[1], a[2], a[3])
        t == r.t
        ex == IF "ex" \in DOMAIN ev THEN ev.ex = 1 ELSE FALSE
        T(j) == a[j].t = t
    IN /\ IF o = "frexp" THEN r.k \in {"S", "V"} /\ Len(r.v) = n ELSE IsResult(r, t, n)
       /\ T(1)
       /\ AsScalars(ev, t, r)
       /\ \A i \in 1..n :
          LET x == At(a[1], i)
              y == IF Len(a) > 1 THEN At(a[2], i) ELSE x
              z == IF Len(a) > 2 THEN At(a[3], i) ELSE x
              q == r.v[i]
          IN CASE o = "min" -> T(2) /\ MinOne(t, x, y, q)
               [] o = "max" -> T(2) /\ MaxOne(t, x, y, q)
               [] o = "clamp" -> T(2) /\ T(3) /\ ClampOne(t, x, y, z, q)
               [] o = "mix" -> T(2) /\ T(3) /\ MixOne(t, x, y, z, q, ex)
               [] o = "select" -> T(2) /\ a[3].t = "b" /\ Same(t, q, IF z = <<1>> THEN y ELSE x)
               [] o = "step" -> T(2) /\ StepOne(t, x, y, q)
               [] o = "smoothstep" -> T(2) /\ T(3) /\ SmoothOne(t, x, y, z, q, ex)
               [] o = "mod" -> T(2) /\ ModOne(t, x, y, q)
               [] o = "fma" -> T(2) /\ T(3) /\ Same(t, q, FFma(t, x, y, z))
               [] o = "ldexp" -> a[2].t = "i" /\ LdexpOne(t, x, y, q)
               [] o = "modf" -> ev.out.t = t /\ Len(ev.out.v) = n /\ ModfOne(t, x, ev.out.v[i], q)
               [] o = "frexp" -> ev.out.t = "i" /\ Len(ev.out.v) = n /\ FrexpOne(t, x, ev.out.v[i], q)

(* ------------------------------------------------------------------ C19: bits *)
BitCasts == [floatBitsToInt |-> <<"f", "i">>, floatBitsToUint |-> <<"f", "u">>, doubleBitsToLongLong |-> <<"d", "l">>,
             doubleBitsToUlongLong |-> <<"d", "m">>, intBitsToFloat |-> <<"i", "f">>, uintBitsToFloat |-> <<"u", "f">>,
             longLongBitsToDouble |-> <<"l", "d">>, ulongLongBitsToDouble |-> <<"m", "d">>]
BitCastOk(o, x, r) == /\ x.t = BitCasts[o][1] /\ IsResult(r, BitCasts[o][2], Len(x.v))
                      /\ r.v = x.v                                     \* digit for digit
Nibble(x, k) == (x[(k \div 3) + 1] \div 16^(k % 3)) % 16
ByteswapOk(x, r) ==
    LET nb == Width(x.t) \div 8 IN
    /\ IsResult(r, x.t, Len(x.v))
    /\ \A i \in 1..Len(x.v) : \A j \in 0..(nb - 1) : \A h \in 0..1 :
         Nibble(r.v[i], 2 * j + h) = Nibble(x.v[i], 2 * (nb - 1 - j) + h)
ClassOk(o, x, r) ==
    /\ IsResult(r, "b", Len(x.v))
    /\ \A i \in 1..Len(x.v) : r.v[i] = TF(IF o = "isnan" THEN IsNaN(x.t, x.v[i]) ELSE IsInf(x.t, x.v[i]))

(* ------------------------------------------------------------------ C22: elementary functions *)
Elementary1 == {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh",
                "exp", "log", "exp2", "log2"}
Elementary2 == {"atan2", "pow"}
(* the standard function is not specified here; its values come with the event (std) *)
StdOk(ev) == /\ IsResult(ev.r, ev.a[1].t, Len(ev.a[1].v))
             /\ \A i \in 1..Len(ev.r.v) : Same(ev.r.t, ev.r.v[i], ev.std[i])
             /\ AsScalars(ev, ev.r.t, ev.r)
(* 2^132 pi/180 and 2^120 180/pi, to more digits than any result carries *)
PerDegree == [s |-> 0, m |-> <<620, 1070, 1866, 4019, 1890, 1392, 1252, 1191, 2697, 2001, 71>>, e |-> -132]
PerRadian == [s |-> 0, m |-> <<1525, 841, 4048, 3405, 677, 1804, 1007, 3192, 2100, 1211, 57>>, e |-> -120]
AngleOk(ev) ==
    LET x == ev.a[1]  r == ev.r  c == IF ev.o = "radians" THEN PerDegree ELSE PerRadian IN
    /\ IsResult(r, x.t, Len(x.v)) /\ AsScalars(ev, x.t, r)
    /\ \A i \in 1..Len(x.v) :
        IF Exact(x.t, x.v[i]) THEN UlpNear(x.t, r.v[i], XRound(x.t, XTimes(XOf(x.t, x.v[i]), c)), 3)
        ELSE Same(x.t, r.v[i], x.v[i])
SqrtOk(x, r) == IsResult(r, x.t, Len(x.v)) /\ \A i \in 1..Len(x.v) : FSqrtOk(x.t, x.v[i], r.v[i])
(* r within rel 2^-b of 1/sqrt(x):  (1 - 2^-b)^2 <= r^2 x <= (1 + 2^-b)^2 *)
InvSqrtNear(t, x, r, b) ==
    LET p == XTimes(XTimes(XOf(t, r), XOf(t, r)), XOf(t, x))
        k == BShl(<<1>>, b)
        lo == [s |-> 0, m |-> BMul(BSub(k, <<1>>), BSub(k, <<1>>)), e |-> -2 * b]
        hi == [s |-> 0, m |-> BMul(BAdd(k, <<1>>), BAdd(k, <<1>>)), e |-> -2 * b]
    IN FSign(t, r) = 0 /\ XCmp(lo, p) <= 0 /\ XCmp(p, hi) <= 0
InvSqrtOk(x, r) ==
    /\ IsResult(r, x.t, Len(x.v))
    /\ \A i \in 1..Len(x.v) :
        LET d == Dec(x.t, x.v[i]) IN
        CASE d.c = "nan" -> IsNaN(x.t, r.v[i])
          [] d.c = "zero" -> IsInf(x.t, r.v[i])
          [] d.s = 1 -> IsNaN(x.t, r.v[i])
          [] d.c = "inf" -> IsZeroF(x.t, r.v[i])
          [] OTHER -> Exact(x.t, r.v[i]) /\ InvSqrtNear(x.t, x.v[i], r.v[i], MB(x.t) - 2)

(* ------------------------------------------------------------------ C18: geometry *)
(* Where everything in between is exact the result is the exact one, rounded once. *)
RECURSIVE ISqrtStep(_, _)
ISqrtStep(m, x) == LET y == BShr(BAdd(x, BDivMod(m, x).q), 1) IN IF BCmp(y, x) >= 0 THEN x ELSE ISqrtStep(m, y)
ISqrt(m) == IF m = <<>> THEN <<>> ELSE ISqrtStep(m, BShl(<<1>>, (BBits(m) + 1) \div 2))
(* the square root of a positive number, cut after enough bits; x says that nothing was cut *)
XSqrt(a) ==
    LET e1 == IF a.e % 2 = 0 THEN a.e ELSE a.e - 1
        m1 == IF a.e % 2 = 0 THEN a.m ELSE BShl(a.m, 1)
        j  == IF BBits(m1) >= 144 THEN 0 ELSE (145 - BBits(m1)) \div 2
        m2 == BShl(m1, 2 * j)
        q  == ISqrt(m2)
    IN IF a.m = <<>> THEN [s |-> 0, m |-> <<>>, e |-> 0, x |-> TRUE]
       ELSE [s |-> 0, m |-> q, e |-> (e1 - 2 * j) \div 2, x |-> BMul(q, q) = m2]
Num(a) == [s |-> a.s, m |-> a.m, e |-> a.e]
XMinus(a, b) == XPlus(a, XNeg(b))
XZero == [s |-> 0, m |-> <<>>, e |-> 0]
RECURSIVE XDotFrom(_, _, _)                                  \* sequences of exact numbers
XDotFrom(x, y, i) == IF i > Len(x) THEN XZero ELSE XPlus(XTimes(x[i], y[i]), XDotFrom(x, y, i + 1))
XDot(x, y) == XDotFrom(x, y, 1)
XVec(x) == [i \in 1..Len(x.v) |-> XOf(x.t, x.v[i])]
AllExact(x) == \A i \in 1..Len(x.v) : Exact(x.t, x.v[i])
XShift(a, k) == [a EXCEPT !.e = @ + k]
XWithin(a, b, tol) == XCmp(XAbs(XMinus(a, b)), tol) <= 0
IsX(t, r, a) == Exact(t, r) /\ SameNum(t, r, XRound(t, a))

RECURSIVE IDotFrom(_, _, _, _)
IDotFrom(t, x, y, i) == IF i > Len(x.v) THEN Zero(t) ELSE IAdd(t, IMul(t, As(t, x, i), As(t, y, i)), IDotFrom(t, x, y, i + 1))
DotOk(x, y, r) ==
    LET t == Common(x.t, y.t) IN
    /\ Len(x.v) = Len(y.v) /\ IsResult(r, t, 1)
    /\ IF IsFloat(t) THEN LET vx == [i \in 1..Len(x.v) |-> XOf(t, As(t, x, i))]  vy == [i \in 1..Len(x.v) |-> XOf(t, As(t, y, i))]
                          IN IsX(t, r.v[1], XDot(vx, vy))
       ELSE r.v[1] = IDotFrom(t, x, y, 1)
CrossOk(x, y, r) ==
    LET t == Common(x.t, y.t)  a == XVec(x)  b == XVec(y)
        C(i, j) == XMinus(XTimes(a[i], b[j]), XTimes(a[j], b[i]))
    IN /\ Len(x.v) = 3 /\ Len(y.v) = 3 /\ IsResult(r, t, 3)
       /\ IsX(t, r.v[1], C(2, 3)) /\ IsX(t, r.v[2], C(3, 1)) /\ IsX(t, r.v[3], C(1, 2))
(* the length of the vector v of scalars of type t *)
LengthIs(t, v, r) ==
    IF Len(v) = 1 THEN Same(t, r, FAbs(t, v[1]))
    ELSE LET sq == XDot([i \in 1..Len(v) |-> XOf(t, v[i])], [i \in 1..Len(v) |-> XOf(t, v[i])])
             rt == XSqrt(sq)
         IN /\ Exact(t, r) /\ FSign(t, r) = 0
            /\ IF rt.x /\ XCmp(XOf(t, XRound(t, sq)), sq) = 0 THEN SameNum(t, r, XRound(t, Num(rt)))
               ELSE UlpNear(t, r, XRound(t, Num(rt)), 4)
LengthOk(x, r) == IsResult(r, x.t, 1) /\ LengthIs(x.t, x.v, r.v[1])
DistanceOk(x, y, r) ==
    LET t == Common(x.t, y.t) IN
    /\ Len(x.v) = Len(y.v) /\ IsResult(r, t, 1)
    /\ LengthIs(t, [i \in 1..Len(x.v) |-> FSub(t, As(t, x, i), As(t, y, i))], r.v[1])
NormalizeOk(x, r) ==
    LET t == x.t  v == XVec(x)  sq == XDot(v, v) IN
    /\ IsResult(r, t, Len(x.v))
    /\ IF sq.m = <<>> THEN \A i \in 1..Len(x.v) : IsNaN(t, r.v[i])
       ELSE LET len == Num(XSqrt(sq)) IN
            \A i \in 1..Len(x.v) :                          \* r len = x up to a few units in the last place
               /\ Exact(t, r.v[i])
               /\ XWithin(XTimes(XOf(t, r.v[i]), len), v[i], XShift(XAbs(v[i]), 2 - MB(t)))
               /\ v[i].m = <<>> => IsZeroF(t, r.v[i])
FaceforwardOk(n, i, nref, r) ==
    LET away == XSign(XDot(XVec(nref), XVec(i))) = -1 IN
    /\ IsResult(r, n.t, Len(n.v))
    /\ \A k \in 1..Len(n.v) : SameNum(n.t, r.v[k], IF away THEN n.v[k] ELSE FNeg(n.t, n.v[k]))
ReflectOk(i, n, r) ==
    LET vi == XVec(i)  vn == XVec(n)  d == XShift(XDot(vn, vi), 1) IN
    /\ IsResult(r, i.t, Len(i.v))
    /\ \A k \in 1..Len(i.v) : IsX(i.t, r.v[k], XMinus(vi[k], XTimes(d, vn[k])))
RefractOk(i, n, eta, r) ==
    LET t == i.t  vi == XVec(i)  vn == XVec(n)  h == XOf(t, eta.v[1])
        d == XDot(vn, vi)
        k == XMinus(XInt(1), XTimes(XTimes(h, h), XMinus(XInt(1), XTimes(d, d))))
    IN /\ IsResult(r, t, Len(i.v))
       /\ IF XSign(k) = -1 THEN \A j \in 1..Len(i.v) : IsZeroF(t, r.v[j])
          ELSE LET q == Num(XSqrt(k)) IN
               \A j \in 1..Len(i.v) :
                  LET a == XTimes(h, vi[j])  b == XTimes(XTimes(h, d), vn[j])  c == XTimes(q, vn[j])
                      tol == XShift(XPlus(XAbs(a), XPlus(XAbs(b), XAbs(c))), 4 - MB(t))
                  IN Exact(t, r.v[j]) /\ XWithin(XOf(t, r.v[j]), XMinus(a, XPlus(b, c)), tol)

(* ------------------------------------------------------------------ C25: namespace cxcm, on plain scalars *)
(* names as in the library; an integer argument is converted to double, except by abs *)
CxcmRound == [x \in {"cx.floor", "cx.ceil", "cx.trunc", "cx.round", "cx.round_even", "cx.fract", "cx.fabs"} |->
              CASE x = "cx.floor" -> "floor" [] x = "cx.ceil" -> "ceil" [] x = "cx.trunc" -> "trunc" [] x = "cx.round" -> "round"
                [] x = "cx.round_even" -> "roundEven" [] x = "cx.fract" -> "fract" [] x = "cx.fabs" -> "abs"]
CxcmTests == {"cx.isnan", "cx.isinf", "cx.isnormal", "cx.isfinite", "cx.signbit", "cx.is_negative_zero"}
CxcmOps == DOMAIN CxcmRound \cup CxcmTests \cup {"cx.abs", "cx.fpclassify", "cx.copysign", "cx.fmod", "cx.relaxed.fmod", "cx.sqrt", "cx.rsqrt", "cx.fast_rsqrt"}
CxcmTest(o, t, x) ==
    CASE o = "cx.isnan" -> IsNaN(t, x) [] o = "cx.isinf" -> IsInf(t, x) [] o = "cx.isfinite" -> IsFinite(t, x)
      [] o = "cx.isnormal" -> FClass(t, x) = 4 [] o = "cx.signbit" -> FSign(t, x) = 1
      [] o = "cx.is_negative_zero" -> IsZeroF(t, x) /\ FSign(t, x) = 1
CxcmOk(o, a, r) ==
    LET x == a[1]  t == x.t  v == x.v[1]  q == r.v[1]
        ft == IF IsFloat(t) THEN t ELSE "d"
        fv == Conv(t, ft, v)
    IN /\ \A i \in 1..Len(a) : Len(a[i].v) = 1
       /\ Len(r.v) = 1 /\ r.k = "S"
       /\ CASE o \in DOMAIN CxcmRound -> r.t = ft /\ RoundOne(CxcmRound[o], ft, fv, q)
            [] o \in CxcmTests -> r.t = "b" /\ q = TF(CxcmTest(o, t, v))
            [] o = "cx.abs" -> r.t = t /\ RoundOne("abs", t, v, q)
            [] o = "cx.fpclassify" -> r.t = "i" /\ q = Fix("i", BFromInt(FClass(t, v)))
            [] o = "cx.copysign" -> r.t = t /\ a[2].t = t
                                    /\ Same(t, q, IF FSign(t, a[2].v[1]) = 1 THEN FNeg(t, FAbs(t, v)) ELSE FAbs(t, v))
            [] o = "cx.fmod" -> r.t = t /\ a[2].t = t /\ Same(t, q, FRem(t, v, a[2].v[1]))
            [] o = "cx.relaxed.fmod" -> r.t = t /\ a[2].t = t /\ SameNum(t, q, FRem(t, v, a[2].v[1]))     \* small whole numbers; the sign of a zero is not promised
            [] o = "cx.sqrt" -> SqrtOk(x, r)
            [] o \in {"cx.rsqrt", "cx.fast_rsqrt"} -> InvSqrtOk(x, r)

CallOk(ev) ==
    /\ ev.u = 1                                               \* no operand changed
    /\ CASE ev.o \in ArithOps -> BinaryOk(ev.o, ev.a[1], ev.a[2], ev.r)
         [] ev.o \in ShiftOps -> ShiftOk(ev.o, ev.a[1], ev.a[2], ev.r)
         [] ev.o \in DOMAIN AssignOps -> CompoundOk(ev.o, ev.a[1], ev.a[2], ev.r, ev.ret)
         [] ev.o \in StepOps -> StepOk(ev)
         [] ev.o \in {"u+", "u-", "~"} -> UnaryOk(ev.o, ev.a[1], ev.r)
         [] ev.o \in CompareOps -> CompareOk(ev.o, ev.a[1], ev.a[2], ev.r)
         [] ev.o \in {"compAnd", "compOr"} -> LogicOk(ev.o, ev.a[1], ev.a[2], ev.r)
         [] ev.o = "compNot" -> LogicOk(ev.o, ev.a[1], ev.a[1], ev.r)
         [] ev.o \in {"any", "all", "none"} -> QuantOk(ev.o, ev.a[1], ev.r)
         [] ev.o \in {"==", "!="} -> EqualOk(ev.o, ev.a[1], ev.a[2], ev.r)
         [] ev.o = "apply" -> ApplyOk(ev.a[1], ev.r, ev.calls, ev.rets, ev.a[1].t)
         [] ev.o = "query" -> ApplyOk(ev.a[1], ev.r, ev.calls, ev.rets, "b")
         [] ev.o \in {"shift", "cshift"} -> ShiftedOk(ev.o, ev.a[1], ev.n, ev.r)
         [] ev.o \in {"vmin", "vmax", "vsum"} -> FoldOk(ev.o, ev.a[1], ev.r)
         [] ev.o \in RoundOps -> RoundOk(ev.o, ev.a[1], ev.r)
         [] ev.o \in CommonOps -> CommonOk(ev)
         [] ev.o \in DOMAIN BitCasts -> BitCastOk(ev.o, ev.a[1], ev.r)
         [] ev.o = "byteswap" -> ByteswapOk(ev.a[1], ev.r)
         [] ev.o \in {"isnan", "isinf"} -> ClassOk(ev.o, ev.a[1], ev.r)
         [] ev.o \in Elementary1 \cup Elementary2 -> StdOk(ev)
         [] ev.o \in {"radians", "degrees"} -> AngleOk(ev)
         [] ev.o \in {"dot", "innerProduct"} -> DotOk(ev.a[1], ev.a[2], ev.r)
         [] ev.o = "cross" -> CrossOk(ev.a[1], ev.a[2], ev.r)
         [] ev.o = "length" -> LengthOk(ev.a[1], ev.r)
         [] ev.o = "distance" -> DistanceOk(ev.a[1], ev.a[2], ev.r)
         [] ev.o = "normalize" -> NormalizeOk(ev.a[1], ev.r)
         [] ev.o = "faceforward" -> FaceforwardOk(ev.a[1], ev.a[2], ev.a[3], ev.r)
         [] ev.o = "reflect" -> ReflectOk(ev.a[1], ev.a[2], ev.r)
         [] ev.o = "refract" -> RefractOk(ev.a[1], ev.a[2], ev.a[3], ev.r)
         [] ev.o = "sqrt" -> SqrtOk(ev.a[1], ev.r)
         [] ev.o \in {"inversesqrt", "fast_inversesqrt"} -> InvSqrtOk(ev.a[1], ev.r)
         [] ev.o \in CxcmOps -> CxcmOk(ev.o, ev.a, ev.r)
         [] OTHER -> FALSE
=============================================================================
