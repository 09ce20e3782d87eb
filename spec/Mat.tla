---------------------------------- MODULE Mat ----------------------------------
(* Matrices.  A matrix value is [t, k |-> "M", c: columns, r: rows, v: scalars column by column]. *)
EXTENDS Calls, SequencesExt

IsM(x) == x.k = "M" /\ Len(x.v) = x.c * x.r
MIx(m, c, r) == (c - 1) * m.r + r                            \* where element (column c, row r) is
MAt(m, c, r) == m.v[MIx(m, c, r)]
MatOf(t, c, r, F(_, _)) == [t |-> t, k |-> "M", c |-> c, r |-> r,
                            v |-> [i \in 1..(c * r) |-> F(((i - 1) \div r) + 1, ((i - 1) % r) + 1)]]
Col(m, c) == SubSeq(m.v, (c - 1) * m.r + 1, c * m.r)
Row(m, r) == [c \in 1..m.c |-> MAt(m, c, r)]
IsMatrix(x, t, c, r) == IsM(x) /\ x.t = t /\ x.c = c /\ x.r = r
SameAll(t, x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Same(t, x[i], y[i])
SameMat(x, y) == IsMatrix(x, y.t, y.c, y.r) /\ SameAll(y.t, x.v, y.v)

(* ------------------------------------------------------------------ C13 *)
RECURSIVE Flatten(_, _)
Flatten(args, t) == IF args = <<>> THEN <<>>
                    ELSE [i \in 1..Len(Head(args).v) |-> Conv(Head(args).t, t, Head(args).v[i])] \o Flatten(Tail(args), t)
(* every way of reading the elements agrees; x is what was put in, element by element *)
MReadOk(ev) ==
    LET x == ev.a[1]  t == x.t
        cols == [c \in 1..x.c |-> Col(x, c)]
        Is(k, s) == Len(ev[k]) = Len(s) /\ \A i \in 1..Len(s) : SameAll(t, ev[k][i], s[i])
    IN /\ SameMat(ev.r, x)                                    \* m[c][r]
       /\ \A k \in {"data", "iter", "citer", "get", "bind", "cget"} : Is(k, cols)
       /\ Is("riter", Reverse(cols)) /\ Is("criter", Reverse(cols))
       /\ Is("rows", [r \in 1..x.r |-> Row(x, r)])
       /\ SameAll(t, ev.arr, x.v) /\ SameAll(t, ev.raw, x.v)
       /\ ev.len = x.c /\ ev.size = x.c /\ ev.collen = x.r /\ ev.colsize = x.r /\ ev.tsize = x.c /\ ev.ssize = x.c
       /\ ev.bytes = 1
(* writing one element, or one column *)
MWriteOk(ev) ==
    LET x == ev.a[1] IN
    SameMat(ev.r, [x EXCEPT !.v[MIx(x, ev.c, ev.row)] = ev.a[2].v[1]])
MColOk(ev) ==
    LET x == ev.a[1] IN
    SameMat(ev.r, [x EXCEPT !.v = [i \in 1..Len(x.v) |-> IF (i - 1) \div x.r = ev.c - 1 THEN ev.a[2].v[((i - 1) % x.r) + 1] ELSE x.v[i]]])
MFlatOk(ev) ==                                                \* scalars, vectors, pointers, arrays
    LET f == Flatten(ev.a, ev.r.t)  n == ev.r.c * ev.r.r IN
    IsMatrix(ev.r, ev.r.t, ev.tc, ev.tr) /\ Len(f) >= n /\ SameAll(ev.r.t, ev.r.v, SubSeq(f, 1, n))
MDiagOk(x, r) ==
    LET d == Conv(x.t, r.t, x.v[1]) IN
    SameMat(r, MatOf(r.t, r.c, r.c, LAMBDA c, w : IF c = w THEN d ELSE FZero(r.t, 0)))
MResizeOk(x, r) ==
    SameMat(r, MatOf(r.t, r.c, r.r, LAMBDA c, w :
        IF c <= x.c /\ w <= x.r THEN Conv(x.t, r.t, MAt(x, c, w))
        ELSE IF r.c = r.r /\ c = w THEN One(r.t) ELSE FZero(r.t, 0)))
(* assignment: what is there after, what the source is after, and the expression is the destination *)
MAssignOk(ev) == MResizeOk(ev.a[1], ev.r) /\ ev.a[1].c = ev.r.c /\ ev.a[1].r = ev.r.r /\ ev.self = 1
MSwapOk(ev) == SameMat(ev.r[1], ev.a[2]) /\ SameMat(ev.r[2], ev.a[1])

(* ------------------------------------------------------------------ C14 *)
EltOps == {"+", "-", "*", "/"}
MElt(o, x, y, r) ==                                           \* element by element, a scalar is broadcast
    LET t == Common(x.t, y.t)  m == IF x.k = "M" THEN x ELSE y IN
    /\ IsMatrix(r, t, m.c, m.r)
    /\ Len(x.v) = Len(y.v) \/ Len(x.v) = 1 \/ Len(y.v) = 1
    /\ \A i \in 1..Len(m.v) : Same(t, r.v[i], Arith(o, t, As(t, x, i), As(t, y, i)))
XRowOf(m, t, r) == [c \in 1..m.c |-> XOf(t, Conv(m.t, t, MAt(m, c, r)))]
XColOf(m, t, c) == [r \in 1..m.r |-> XOf(t, Conv(m.t, t, MAt(m, c, r)))]
XVecOf(x, t) == [i \in 1..Len(x.v) |-> XOf(t, As(t, x, i))]
(* the value of a sum of products: exact inputs give the exact number, others are within the *)
(* error of any order of summation                                                         *)
XAbsDot(x, y) == XDot([i \in 1..Len(x) |-> XAbs(x[i])], [i \in 1..Len(y) |-> XAbs(y[i])])
SumIs(t, r, x, y, ex) ==
    IF ex = 1 THEN IsX(t, r, XDot(x, y))
    ELSE Exact(t, r) /\ XWithin(XOf(t, r), XDot(x, y), XShift(XAbsDot(x, y), 2 - MB(t)))
MVOk(m, v, r, ex) ==
    LET t == Common(m.t, v.t)  y == XVecOf(v, t) IN
    /\ Len(v.v) = m.c /\ IsResult(r, t, m.r)
    /\ \A i \in 1..m.r : SumIs(t, r.v[i], XRowOf(m, t, i), y, ex)
VMOk(v, m, r, ex) ==
    LET t == Common(m.t, v.t)  y == XVecOf(v, t) IN
    /\ Len(v.v) = m.r /\ IsResult(r, t, m.c)
    /\ \A i \in 1..m.c : SumIs(t, r.v[i], y, XColOf(m, t, i), ex)
MMOk(a, b, r, ex) ==
    LET t == Common(a.t, b.t) IN
    /\ a.c = b.r /\ IsMatrix(r, t, b.c, a.r)
    /\ \A i \in 1..a.r : \A j \in 1..b.c : SumIs(t, MAt(r, j, i), XRowOf(a, t, i), XColOf(b, t, j), ex)
OuterOk(x, y, r) ==
    LET t == Common(x.t, y.t) IN
    /\ IsMatrix(r, t, Len(y.v), Len(x.v))
    /\ \A i \in 1..Len(x.v) : \A j \in 1..Len(y.v) : Same(t, MAt(r, j, i), FMul(t, As(t, x, i), As(t, y, j)))
TransposeOk(x, r) == SameMat(r, MatOf(x.t, x.r, x.c, LAMBDA c, w : MAt(x, w, c)))
(* cross_matrix(u) * v = cross(u, v) *)
CrossMat(t, u) ==
    LET z == FZero(t, 0)  N(i) == FNeg(t, u[i]) IN
    [t |-> t, k |-> "M", c |-> 3, r |-> 3, v |-> <<z, u[3], N(2), N(3), z, u[1], u[2], N(1), z>>]
NumMat(x, y) == IsMatrix(x, y.t, y.c, y.r) /\ \A i \in 1..Len(y.v) : SameNum(y.t, x.v[i], y.v[i])
StepMat(o, x) == [x EXCEPT !.v = [i \in 1..Len(x.v) |-> Arith(o, x.t, x.v[i], One(x.t))]]
IncOk(ev) ==                                                  \* ++m m++ --m m--
    LET x == ev.a[1]  after == StepMat(IF ev.o \in {"m++", "++m"} THEN "+" ELSE "-", x) IN
    /\ SameMat(ev.after, after)
    /\ IF ev.o \in {"++m", "--m"} THEN SameMat(ev.r, after) /\ ev.self = 1 ELSE SameMat(ev.r, x)
MUnaryOk(o, x, r) == IsMatrix(r, x.t, x.c, x.r)
    /\ \A i \in 1..Len(x.v) : Same(x.t, r.v[i], IF o = "u-" THEN FNeg(x.t, x.v[i]) ELSE x.v[i])

(* ------------------------------------------------------------------ C15 *)
(* square matrices of exact numbers, as functions of (column, row) *)
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Inversions(p, n) == Cardinality({ij \in (1..n) \X (1..n) : ij[1] < ij[2] /\ p[ij[1]] > p[ij[2]]})
PermTable == [n \in 1..4 |-> LET ps == SetToSeq(Perms(n)) IN [k \in 1..Len(ps) |-> [p |-> ps[k], s |-> Inversions(ps[k], n) % 2]]]
RECURSIVE XProdFrom(_, _, _, _)
XProdFrom(A, p, n, c) == IF c > n THEN XInt(1) ELSE XTimes(A[c][p[c]], XProdFrom(A, p, n, c + 1))
RECURSIVE XLeibnizFrom(_, _, _)
XLeibnizFrom(A, n, k) ==
    IF k > Len(PermTable[n]) THEN XZero
    ELSE LET q == PermTable[n][k]  x == XProdFrom(A, q.p, n, 1) IN
         XPlus(IF q.s = 1 THEN XNeg(x) ELSE x, XLeibnizFrom(A, n, k + 1))
XDet(A) == XLeibnizFrom(A, Len(A), 1)
RECURSIVE XPermAbsFrom(_, _, _)
XPermAbsFrom(A, n, k) ==
    IF k > Len(PermTable[n]) THEN XZero ELSE XPlus(XAbs(XProdFrom(A, PermTable[n][k].p, n, 1)), XPermAbsFrom(A, n, k + 1))
XPermAbs(A) == XPermAbsFrom(A, Len(A), 1)                     \* the sum of the magnitudes of the products
Skip(s, i) == [j \in 1..(Len(s) - 1) |-> s[IF j < i THEN j ELSE j + 1]]
Minor(A, c, r) == [j \in 1..(Len(A) - 1) |-> Skip(Skip(A, c)[j], r)]
XCofactor(A, c, r) == LET d == XDet(Minor(A, c, r)) IN IF (c + r) % 2 = 1 THEN XNeg(d) ELSE d
XMat(m) == [c \in 1..m.c |-> [r \in 1..m.r |-> XOf(m.t, MAt(m, c, r))]]
DetOk(x, r, ex) ==
    LET A == XMat(x) IN
    /\ x.c = x.r /\ IsResult(r, x.t, 1)
    /\ IF ex = 1 THEN IsX(x.t, r.v[1], XDet(A))
       ELSE Exact(x.t, r.v[1]) /\ XWithin(XOf(x.t, r.v[1]), XDet(A), XShift(XPermAbs(A), 5 - MB(x.t)))
(* r det(x) = adjugate(x); exact when ex, and otherwise up to a few units in the last place *)
InverseOk(x, r, ex) ==
    LET A == XMat(x)  d == XDet(A)  t == x.t IN
    /\ IsMatrix(r, t, x.c, x.c)
    /\ \A c, w \in 1..x.c :
         LET q == MAt(r, c, w)  cof == XCofactor(A, w, c)  p == XTimes(XOf(t, q), d) IN
         /\ Exact(t, q)
         /\ IF ex = 1 THEN XEq(p, cof) ELSE XWithin(p, cof, XShift(XAbs(cof), 3 - MB(t)))
IdentityOk(x, r) == NumMat(r, MatOf(x.t, x.c, x.c, LAMBDA c, w : IF c = w THEN One(x.t) ELSE FZero(x.t, 0)))

MatOps == {"mread", "mwrite", "mcol", "mflat", "mdiag", "mresize", "massign", "mswap", "matrixCompMult", "outerProduct", "transpose",
           "cross_matrix", "diagonal_matrix", "++m", "m++", "--m", "m--", "determinant", "inverse", "mulinverse"}
HasM(ev) == ev.o \in MatOps \/ (Len(ev.a) > 0 /\ \E i \in 1..Len(ev.a) : ev.a[i].k = "M")
Ex(ev) == IF "ex" \in DOMAIN ev THEN ev.ex ELSE 0
MatOk(ev) ==
    /\ ev.u = 1
    /\ CASE ev.o = "mread" -> MReadOk(ev)
         [] ev.o = "mwrite" -> MWriteOk(ev)
         [] ev.o = "mcol" -> MColOk(ev)
         [] ev.o = "mflat" -> MFlatOk(ev)
         [] ev.o = "mdiag" -> MDiagOk(ev.a[1], ev.r)
         [] ev.o = "mresize" -> MResizeOk(ev.a[1], ev.r)
         [] ev.o = "massign" -> MAssignOk(ev)
         [] ev.o = "mswap" -> MSwapOk(ev)
         [] ev.o \in {"==", "!="} -> ev.a[1].c = ev.a[2].c /\ ev.a[1].r = ev.a[2].r /\ EqualOk(ev.o, ev.a[1], ev.a[2], ev.r)
         [] ev.o = "*" /\ ev.a[1].k = "M" /\ ev.a[2].k = "M" -> MMOk(ev.a[1], ev.a[2], ev.r, Ex(ev))
         [] ev.o = "*" /\ ev.a[1].k = "M" /\ ev.a[2].k # "S" -> MVOk(ev.a[1], ev.a[2], ev.r, Ex(ev))
         [] ev.o = "*" /\ ev.a[2].k = "M" /\ ev.a[1].k # "S" -> VMOk(ev.a[1], ev.a[2], ev.r, Ex(ev))
         [] ev.o \in EltOps -> MElt(ev.o, ev.a[1], ev.a[2], ev.r)
         [] ev.o = "matrixCompMult" -> MElt("*", ev.a[1], ev.a[2], ev.r)
         [] ev.o \in {"u+", "u-"} -> MUnaryOk(ev.o, ev.a[1], ev.r)
         [] ev.o \in {"++m", "m++", "--m", "m--"} -> IncOk(ev)
         [] ev.o = "outerProduct" -> OuterOk(ev.a[1], ev.a[2], ev.r)
         [] ev.o = "transpose" -> TransposeOk(ev.a[1], ev.r)
         [] ev.o = "cross_matrix" -> NumMat(ev.r, CrossMat(ev.a[1].t, ev.a[1].v))
         [] ev.o = "diagonal_matrix" -> SameMat(ev.r, MatOf(ev.a[1].t, Len(ev.a[1].v), Len(ev.a[1].v), LAMBDA c, w : IF c = w THEN ev.a[1].v[c] ELSE FZero(ev.a[1].t, 0)))
         [] ev.o = "determinant" -> DetOk(ev.a[1], ev.r, Ex(ev))
         [] ev.o = "inverse" -> InverseOk(ev.a[1], ev.r, Ex(ev))
         [] ev.o = "mulinverse" -> IdentityOk(ev.a[1], ev.r)
         [] OTHER -> FALSE
AnyCallOk(ev) == IF ev.o = "crash" THEN FALSE ELSE IF HasM(ev) THEN MatOk(ev) ELSE CallOk(ev)
=============================================================================
