--------------------------------- MODULE Ext ---------------------------------
(* What the extensions in examples/ promise on top of the library: an order, hashes, *)
(* tolerances, slices, text, exchange with spans and valarrays, plane geometry.      *)
EXTENDS Mat, TLC

(* ------------------------------------------------------------------ numbers *)
XI(t, x) == IF IsFloat(t) THEN XOf(t, x) ELSE [s |-> SignBit(t, x), m |-> Mag(t, x), e |-> 0]
(* three-way comparison of two components: integers by value, whatever their types; *)
(* otherwise in the common type; 2 where there is no answer                         *)
Cmp3(tx, x, ty, y) ==
    IF IsInt(tx) /\ IsInt(ty) THEN XCmp(XI(tx, x), XI(ty, y))
    ELSE LET t == Common(tx, ty)  a == Conv(tx, t, x)  b == Conv(ty, t, y)
         IN IF IsNaN(t, a) \/ IsNaN(t, b) THEN 2 ELSE Cmp(t, a, b)
Comps(x, y) == [i \in 1..Len(x.v) |-> Cmp3(x.t, x.v[i], y.t, y.v[i])]
NoOrder(x, y) == \/ IsFloat(x.t) /\ \E i \in 1..Len(x.v) : IsNaN(x.t, x.v[i])
                 \/ IsFloat(y.t) /\ \E i \in 1..Len(y.v) : IsNaN(y.t, y.v[i])
RECURSIVE FirstOf(_, _)
FirstOf(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] # 0 THEN s[i] ELSE FirstOf(s, i + 1)
RECURSIVE WeighFrom(_, _, _)
WeighFrom(w, s, i) == IF i > Len(s) THEN 0 ELSE IntOf(w[i]) * s[i] + WeighFrom(w, s, i + 1)
Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Lexicographic(x, y) == IF NoOrder(x, y) THEN 2 ELSE FirstOf(Comps(x, y), 1)
Category(x, y) == IF IsFloat(x.t) \/ IsFloat(y.t) THEN "partial" ELSE "strong"
(* <, <=, >, >= as bits *)
OpsOf(o) == CASE o = -1 -> 3 [] o = 0 -> 10 [] o = 1 -> 12 [] o = 2 -> 0
OrderOk(ev) == LET x == ev.a[1]  y == ev.a[2] IN
    ev.u = 1 /\ ev.ord = Lexicographic(x, y) /\ ev.ops = OpsOf(ev.ord) /\ ev.cat = Category(x, y)
WeightedOk(ev) == LET x == ev.a[1]  y == ev.a[2] IN
    ev.u = 1 /\ ev.cat = Category(x, y)
    /\ ev.ord = IF NoOrder(x, y) THEN 2 ELSE Sign(WeighFrom(ev.a[3].v, Comps(x, y), 1))
Column(m, j) == [t |-> m.t, k |-> "V", v |-> [i \in 1..m.r |-> m.v[(j - 1) * m.r + i]]]
MatOrderOk(ev) == LET x == ev.a[1]  y == ev.a[2] IN
    ev.cat = "partial" /\ ev.ord = FirstOf([j \in 1..x.c |-> Lexicographic(Column(x, j), Column(y, j))], 1)
(* the listed finding: the difference of two signed integers overflows *)
SignedOverflow(ev) ==
    LET x == ev.a[1]  y == ev.a[2]  t == Common(x.t, y.t) IN
    /\ x.t \in {"i", "l"} /\ y.t \in {"i", "l"}
    /\ \E i \in 1..Len(x.v) : ~SignedSubDefined(t, Conv(x.t, t, x.v[i]), Conv(y.t, t, y.v[i]))

(* equal sequences have equal hashes, whatever holds them *)
HashOk(ev) == \A i \in 1..Len(ev.h) : ev.h[i] = ev.h[1] /\ \A j \in 1..Len(ev.hw) : ev.hw[j] = ev.h[1]

(* ------------------------------------------------------------------ tolerances *)
Magnitude(t, x) == IF IsFloat(t) THEN FAbs(t, x) ELSE Fix(t, Mag(t, x))
Within(t, x, u, tol) == Cmp(t, Magnitude(t, x), Conv(u, t, tol)) \in {-1, 0}
ToleranceOk(ev) == LET x == ev.a[1]  w == ev.a[2] IN
    IsResult(ev.r, "b", 1) /\ ev.r.v[1] = TF(\A i \in 1..Len(x.v) : Within(x.t, x.v[i], w.t, At(w, i)))
BoxOne(t, x, y, u, tol) ==
    IF IsFloat(t) THEN Within(t, FSub(t, x, y), u, tol)
    ELSE XCmp(XAbs(XMinus(XI(t, x), XI(t, y))), XI(t, Conv(u, t, tol))) <= 0
BoxOk(ev) == LET x == ev.a[1]  y == ev.a[2]  w == ev.a[3] IN
    IsResult(ev.r, "b", 1) /\ ev.r.v[1] = TF(\A i \in 1..Len(x.v) : BoxOne(x.t, x.v[i], y.v[i], w.t, At(w, i)))
(* the listed finding: the difference of unsigned numbers wraps around *)
UnsignedWrap(ev) == LET x == ev.a[1]  y == ev.a[2] IN
    x.t \in {"u", "m"} /\ \E i \in 1..Len(x.v) : Cmp(x.t, x.v[i], y.v[i]) = -1
DistOk(ev) == LET x == ev.a[1]  y == ev.a[2]  w == ev.a[3]
                  d == [i \in 1..Len(x.v) |-> XMinus(XOf(x.t, x.v[i]), XOf(x.t, y.v[i]))]
                  k == XI(w.t, w.v[1])
              IN IsResult(ev.r, "b", 1) /\ ev.r.v[1] = TF(XCmp(XDot(d, d), XTimes(k, k)) <= 0)

(* ------------------------------------------------------------------ slices, spans, valarrays *)
SliceOk(ev) ==
    LET a == ev.a[1].v  n == Len(a)  r == ev.r[1].v  after == ev.r[2].v
        fits == ev.off >= 0 /\ ev.off + ev.len <= n
    IN IF ~fits THEN ev.thr = 1 /\ after = a
       ELSE /\ ev.thr = 0 /\ ev.same = (IF ev.wr = 1 THEN 1 ELSE 3)
            /\ r = SubSeq(a, ev.off + 1, ev.off + ev.len)
            /\ after = IF ev.wr = 1 THEN [a EXCEPT ![ev.off + ev.len] = One(ev.a[1].t)] ELSE a
Overlaid(to, from, r) ==
    /\ r.t = to.t /\ Len(r.v) = Len(to.v)
    /\ \A i \in 1..Len(to.v) : Same(to.t, r.v[i], IF i <= Len(from.v) THEN Conv(from.t, to.t, from.v[i]) ELSE to.v[i])
PickedOk(ev) == LET a == ev.a[1]  k == ev.a[2].v IN
    ev.r.t = a.t /\ ev.r.v = [i \in 1..Len(k) |-> a.v[IntOf(k[i]) + 1]]
MakeMatOk(ev) == ev.spans = 1 /\ ev.r.k = "M" /\ Len(ev.r.v) = ev.r.c * ev.r.r /\ ev.r.v = SubSeq(ev.a[1].v, 1, Len(ev.r.v))

(* ------------------------------------------------------------------ text *)
Eighths == <<"", ".125", ".25", ".375", ".5", ".625", ".75", ".875">>
TextOf(t, x) ==
    CASE t = "b" -> (IF x = <<1>> THEN "true" ELSE "false")
      [] IsInt(t) -> (IF SignBit(t, x) = 1 THEN "-" ELSE "") \o ToString(BToInt(Mag(t, x)))
      [] OTHER -> LET d == Dec(t, x)  n == BToInt(IF d.e + 3 >= 0 THEN BShl(d.m, d.e + 3) ELSE BShr(d.m, -(d.e + 3)))
                  IN (IF FSign(t, x) = 1 THEN "-" ELSE "") \o ToString(n \div 8) \o Eighths[(n % 8) + 1]
RECURSIVE Joined(_, _)
Joined(s, i) == IF i = Len(s) THEN s[i] ELSE s[i] \o ", " \o Joined(s, i + 1)
Listing(s) == "[" \o Joined(s, 1) \o "]"
VecText(t, v) == Listing([i \in 1..Len(v) |-> TextOf(t, v[i])])
TextOk(ev) == LET x == ev.a[1]  rows == IF ev.cols = 0 THEN 0 ELSE Len(x.v) \div ev.cols
                  want == IF ev.cols = 0 THEN VecText(x.t, x.v)
                          ELSE Listing([j \in 1..ev.cols |-> VecText(x.t, SubSeq(x.v, (j - 1) * rows + 1, j * rows))])
              IN ev.out = want /\ ev.fmt = want

(* ------------------------------------------------------------------ geometry (operands are small integers) *)
SubV(x, y) == [i \in 1..Len(x) |-> XMinus(x[i], y[i])]
AddV(x, y) == [i \in 1..Len(x) |-> XPlus(x[i], y[i])]
CrossV(a, b) == LET C(i, j) == XMinus(XTimes(a[i], b[j]), XTimes(a[j], b[i])) IN <<C(2, 3), C(3, 1), C(1, 2)>>
RECURSIVE Norm1From(_, _)
Norm1From(v, i) == IF i > Len(v) THEN XZero ELSE XPlus(XAbs(v[i]), Norm1From(v, i + 1))
Norm1(v) == Norm1From(v, 1)
Small(a, tol) == XCmp(XAbs(a), tol) <= 0
PerpOk(x, r) == IsResult(r, x.t, 2) /\ SameNum(x.t, r.v[1], FNeg(x.t, x.v[2])) /\ SameNum(x.t, r.v[2], x.v[1])
(* the angle is a multiple of 45 degrees *)
AngleBetweenOk(x, y, r) ==
    LET t == x.t  a == XVec(x)  b == XVec(y)  d == XDot(a, b)
        cc == XMinus(XTimes(XDot(a, a), XDot(b, b)), XTimes(d, d))
        q == CASE XSign(d) = 0 -> 2 [] XSign(cc) = 0 -> (IF XSign(d) = 1 THEN 0 ELSE 4)
               [] XCmp(cc, XTimes(d, d)) = 0 -> (IF XSign(d) = 1 THEN 1 ELSE 3)
    IN IsResult(r, t, 1) /\ Exact(t, r.v[1])
       /\ XWithin(XOf(t, r.v[1]), XTimes(XInt(45 * q), PerDegree), XShift(XInt(1), 5 - MB(t)))
(* r is the point of the line through a and b that is closest to x *)
LineOk(x, a, b, r) ==
    LET t == x.t  v == SubV(XVec(b), XVec(a))  p == XVec(r)  tol == XShift(Norm1(v), 14 - MB(t))
        across == CrossV(SubV(p, XVec(a)), v)
    IN /\ IsResult(r, t, 3) /\ AllExact(r)
       /\ Small(XDot(SubV(p, XVec(x)), v), tol) /\ \A i \in 1..3 : Small(across[i], tol)
LineDistOk(x, a, b, r) ==
    LET t == x.t  v == SubV(XVec(b), XVec(a))  c == CrossV(SubV(XVec(x), XVec(a)), v)
        q == XOf(t, r.v[1])  vv == XDot(v, v)  d == XShift(XInt(1), 12 - MB(t))
    IN /\ IsResult(r, t, 1) /\ Exact(t, r.v[1]) /\ XSign(q) >= 0
       /\ Small(XMinus(XTimes(XTimes(q, q), vv), XDot(c, c)), XTimes(vv, XTimes(d, XPlus(XShift(q, 1), d))))
(* r is the point of the plane through a, b, c that is closest to x *)
PlaneOk(x, a, b, c, r) ==
    LET t == x.t  n == CrossV(SubV(XVec(b), XVec(a)), SubV(XVec(c), XVec(a)))  p == XVec(r)
        tol == XShift(Norm1(n), 14 - MB(t))  across == CrossV(SubV(p, XVec(x)), n)
    IN /\ IsResult(r, t, 3) /\ AllExact(r)
       /\ Small(XDot(SubV(p, XVec(a)), n), tol) /\ \A i \in 1..3 : Small(across[i], tol)
(* r is as far from a as from b and c, and in their plane *)
CenterOk(a, b, c, r) ==
    LET t == a.t  v == SubV(XVec(b), XVec(a))  w == SubV(XVec(c), XVec(b))  n == CrossV(v, w)
        vv == XDot(v, v)  ww == XDot(w, w)  cc == XDot(n, n)
        d == SubV(XVec(r), XVec(b))
        err == XShift(XPlus(XTimes(XTimes(vv, ww), Norm1(AddV(v, w))), XTimes(cc, XPlus(Norm1(XVec(b)), XInt(1)))), 7 - MB(t))   \* times cc
        Near(z, u) == Small(XTimes(z, cc), XTimes(err, Norm1(u)))
    IN /\ IsResult(r, t, 3) /\ AllExact(r)
       /\ Near(XPlus(vv, XShift(XDot(v, d), 1)), v) /\ Near(XMinus(ww, XShift(XDot(w, d), 1)), w) /\ Near(XDot(d, n), n)
RadiusOk(a, b, c, r) ==
    LET t == a.t  v == SubV(XVec(b), XVec(a))  w == SubV(XVec(c), XVec(b))  n == CrossV(v, w)  u == AddV(v, w)
        q == XOf(t, r.v[1])
        lhs == XShift(XTimes(XTimes(q, q), XDot(n, n)), 2)  rhs == XTimes(XTimes(XDot(v, v), XDot(w, w)), XDot(u, u))
    IN IsResult(r, t, 1) /\ Exact(t, r.v[1]) /\ XSign(q) = 1 /\ XWithin(lhs, rhs, XShift(rhs, 6 - MB(t)))
(* the polynomial with the given control points; everything in between is exact *)
RECURSIVE Casteljau(_, _)
Casteljau(p, s) == IF Len(p) = 1 THEN p[1]
                   ELSE Casteljau([j \in 1..(Len(p) - 1) |-> XPlus(p[j], XTimes(s, XMinus(p[j + 1], p[j])))], s)
BezierOk(a, r) ==
    LET n == Len(a) - 1  t == a[1].t  s == XOf(t, a[n + 1].v[1]) IN
    /\ IsResult(r, t, Len(a[1].v))
    /\ \A i \in 1..Len(r.v) : IsX(t, r.v[i], Casteljau([j \in 1..n |-> XOf(t, a[j].v[i])], s))

(* ------------------------------------------------------------------ STL files (coordinates are quarters) *)
Corner(f, j) == [i \in 1..3 |-> XOf("f", f.v[3 * (j - 1) + i])]
FacetNormal(f) == CrossV(SubV(Corner(f, 2), Corner(f, 1)), SubV(Corner(f, 3), Corner(f, 1)))
GoodFacet(f) == AllExact(f) /\ XSign(Norm1(FacetNormal(f))) = 1
FacetWords == <<"facet", "normal", "#", "#", "#", "outer", "loop", "vertex", "#", "#", "#", "vertex", "#", "#", "#", "vertex", "#", "#", "#", "endloop", "endfacet">>
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)
StlOk(ev) ==
    LET good == SelectSeq(ev.a, GoodFacet)
    IN IF ev.said # Len(ev.a) \/ ev.extra # 0 THEN ev.ret = 1 /\ ev.there = 0
       ELSE /\ ev.there = 1 /\ ev.ret = (IF good = <<>> THEN 1 ELSE 0)
            /\ ev.toks = <<"solid", "dsga_example">> \o Times(FacetWords, Len(good)) \o <<"endsolid", "dsga_example">>
            /\ Len(ev.nums) = 12 * Len(good)
            /\ \A i \in 1..Len(good) :
                 LET N(j) == XOf("f", ev.nums[12 * (i - 1) + j])
                     n == FacetNormal(good[i])  len == Num(XSqrt(XDot(n, n)))
                 IN /\ \A j \in 1..9 : SameNum("f", ev.nums[12 * (i - 1) + 3 + j], good[i].v[j])
                    /\ \A j \in 1..3 : XWithin(XTimes(N(j), len), n[j], XShift(XAbs(n[j]), -20))

ExtOk(ev) ==
    LET a == ev.a  r == ev.r IN
    CASE ev.o = "order" -> OrderOk(ev) [] ev.o = "wcmp" -> WeightedOk(ev) [] ev.o = "morder" -> MatOrderOk(ev)
      [] ev.o = "hash" -> HashOk(ev)
      [] ev.o = "tol" -> ToleranceOk(ev) [] ev.o = "box" -> BoxOk(ev) [] ev.o = "dist" -> DistOk(ev)
      [] ev.o = "slice" -> SliceOk(ev)
      [] ev.o = "copyto" -> Overlaid(a[1], a[2], r[1]) [] ev.o = "copyfrom" -> Overlaid(a[2], a[1], r[1])
      [] ev.o = "to_valarray" -> ev.spans = 1 /\ ev.n = Len(a[1].v) /\ r[1].t = a[1].t /\ r[1].v = a[1].v
      [] ev.o = "make_vector" -> PickedOk(ev) [] ev.o = "make_matrix" -> MakeMatOk(ev)
      [] ev.o = "text" -> TextOk(ev)
      [] ev.o = "perp" -> PerpOk(a[1], r) [] ev.o = "angle" -> AngleBetweenOk(a[1], a[2], r)
      [] ev.o = "line" -> LineOk(a[1], a[2], a[3], r) [] ev.o = "linedist" -> LineDistOk(a[1], a[2], a[3], r)
      [] ev.o = "plane" -> PlaneOk(a[1], a[2], a[3], a[4], r) [] ev.o = "center" -> CenterOk(a[1], a[2], a[3], r)
      [] ev.o = "radius" -> RadiusOk(a[1], a[2], a[3], r) [] ev.o = "bezier" -> BezierOk(a, r)
      [] ev.o = "stl" -> StlOk(ev)
      [] OTHER -> FALSE
(* what is listed in known-findings.txt, "" for everything else *)
KnownExt(ev) == CASE ev.o \in {"order", "wcmp"} /\ SignedOverflow(ev) -> "order-signed-overflow"
                  [] ev.o = "box" /\ UnsignedWrap(ev) -> "box-unsigned-wrap"
                  [] OTHER -> ""
==============================================================================
