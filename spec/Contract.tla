------------------------------- MODULE Contract -------------------------------
(* The contract of every call that has one: when is a call allowed, and how does it *)
(* end.  A call within its contract returns, with the value asked for; a call       *)
(* outside it is stopped by the assertion and has no effect that anyone sees.       *)
EXTENDS Mat, TLC

(* ------------------------------------------------------------------ indexes: any arithmetic type, truncated *)
Nature(i) == IF IsFloat(i.t) THEN (IF IsNaN(i.t, i.v[1]) THEN "nan" ELSE "real") ELSE "whole"
Exactly(i) == IF IsFloat(i.t) THEN XOf(i.t, i.v[1]) ELSE [s |-> SignBit(i.t, i.v[1]), m |-> Mag(i.t, i.v[1]), e |-> 0]
Inside(i, n) == Nature(i) # "nan" /\ XSign(Exactly(i)) >= 0 /\ XCmp(Exactly(i), XInt(n)) < 0
Place(i, n) == CHOOSE k \in 1..n : XCmp(XInt(k - 1), Exactly(i)) <= 0 /\ XCmp(Exactly(i), XInt(k)) < 0
Cell(a, k) == [t |-> a.t, k |-> "S", v |-> <<a.v[k]>>]

(* ------------------------------------------------------------------ positions of an iterator over n elements *)
(* written so that nothing is added to a distance that may be any int *)
Lands(n, p, k) == k >= -p /\ k <= n - p
Retreats(n, p, k) == k <= p /\ k >= p - n
StepDefined(op, n, p, k) ==
    CASE op \in {"++", "_++", "*", "->"} -> p < n
      [] op \in {"--", "_--"} -> p > 0
      [] op \in {"+=", "+", "k+"} -> Lands(n, p, k)
      [] op \in {"-=", "-"} -> Retreats(n, p, k)
      [] op = "[]" -> Lands(n - 1, p, k)
StepTo(op, p, k) ==
    CASE op \in {"++", "_++"} -> p + 1 [] op \in {"--", "_--"} -> p - 1
      [] op \in {"+=", "+", "k+", "[]"} -> p + k [] op \in {"-=", "-"} -> p - k [] OTHER -> p
Relation(op, p, q) ==
    LET B(x) == IF x THEN 1 ELSE 0 IN
    CASE op = "-" -> p - q [] op = "==" -> B(p = q) [] op = "!=" -> B(p # q)
      [] op = "<" -> B(p < q) [] op = "<=" -> B(p <= q) [] op = ">" -> B(p > q) [] op = ">=" -> B(p >= q)

(* ------------------------------------------------------------------ functions with undefined arguments *)
SideOf(t, x) == Cmp(t, x, Zero(t))                    \* 2 for a NaN
Ordered(t, x, y) == Cmp(t, x, y) \in {-1, 0}
Broad(ev) == CHOOSE n \in 1..4 : (\E x \in ToSet(ev.a) : Len(x.v) = n) /\ \A x \in ToSet(ev.a) : Len(x.v) \in {1, n}
ArgDefined(op, t, x, i) ==
    CASE op = "clamp" -> Ordered(t, At(x[2], i), At(x[3], i))
      [] op = "smoothstep" -> Cmp(t, At(x[1], i), At(x[2], i)) = -1
      [] op = "pow" -> SideOf(t, At(x[1], i)) \in {0, 1} /\ ~(SideOf(t, At(x[1], i)) = 0 /\ SideOf(t, At(x[2], i)) \in {-1, 0})
      [] op \in {"%", "%="} -> SideOf(t, At(x[2], i)) # 0
Defined(ev) == \A i \in 1..Broad(ev) : ArgDefined(ev.o, ev.a[1].t, ev.a, i)

(* ------------------------------------------------------------------ every event *)
Allowed(ev) ==
    CASE ev.o = "index" -> Inside(ev.a[2], Len(ev.a[1].v))
      [] ev.o = "column" -> Inside(ev.a[2], ev.a[1].c)
      [] ev.o = "row" -> Inside(ev.a[2], ev.a[1].r)
      [] ev.o = "element" -> Inside(ev.a[2], IF ev.w = "row" THEN ev.a[1].r ELSE ev.a[1].c)
      [] ev.o = "step" -> StepDefined(ev.w, Len(ev.a[1].v), ev.p, ev.k)
      [] ev.o = "against" -> ev.own = 1
      [] ev.o = "nothing" -> FALSE
      [] ev.o = "null" -> ev.null = 0 \/ ev.needs = 0
      [] ev.o \in {"clamp", "smoothstep", "pow", "%", "%="} -> Defined(ev)
      [] ev.o = "swizzle" -> \A i \in 1..Len(ev.i) : IntOf(ev.i[i]) \in 0..(Len(ev.a[1].v) - 1)

MCol(m, k) == [t |-> m.t, k |-> "V", v |-> SubSeq(m.v, (k - 1) * m.r + 1, k * m.r)]
MRow(m, k) == [t |-> m.t, k |-> "V", v |-> [j \in 1..m.c |-> m.v[(j - 1) * m.r + k]]]
Result(ev) ==
    LET a == ev.a[1] IN
    CASE ev.o = "index" ->
            LET n == Len(a.v)  k == Place(ev.a[2], n) IN
            /\ ev.u = 1
            /\ IF ev.w = "write" THEN ev.r.t = a.t /\ ev.r.v = [a.v EXCEPT ![k] = ev.a[3].v[1]]
               ELSE ev.r = Cell(a, k)
      [] ev.o = "column" -> ev.r = MCol(a, Place(ev.a[2], a.c))
      [] ev.o = "row" -> ev.r = MRow(a, Place(ev.a[2], a.r))
      [] ev.o = "element" ->
            ev.r = IF ev.w = "row" THEN Cell(a, ev.col * a.r + Place(ev.a[2], a.r))
                   ELSE Cell(a, (Place(ev.a[2], a.c) - 1) * a.r + ev.row + 1)
      [] ev.o = "step" ->
            IF ev.w \in {"*", "->", "[]"} THEN ev.r = Cell(a, StepTo(ev.w, ev.p, ev.k) + 1)
            ELSE /\ ev.r = StepTo(ev.w, ev.p, ev.k)
                 /\ ev.left = Len(a.v) - ev.r
                 /\ ev.w \in {"_++", "_--", "+", "k+", "-"} => ev.was = ev.p
      [] ev.o = "against" -> ev.r = Relation(ev.w, ev.p, ev.q)
      [] OTHER -> TRUE

(* in a constant expression a call outside its contract is an error *)
ConstantOk(ev) ==
    LET x == ev.args
        ok == CASE ev.w = "index" -> x[2] >= 0 /\ x[2] < x[1]
                [] ev.w = "null" -> FALSE
                [] ev.w = "walk" -> Lands(x[1], 0, x[2]) /\ Lands(x[1], x[2], x[3])
                [] ev.w = "clamp" -> x[1] <= x[2]
                [] ev.w = "smoothstep" -> x[1] < x[2]
                [] ev.w = "%" -> x[2] # 0
        optional == ev.w = "smoothstep"          \* clang cannot evaluate it at all
    IN IF ok THEN ev.is = 1 \/ optional ELSE ev.is = 0

ContractOk(ev) ==
    IF ev.o = "constant" THEN ConstantOk(ev)
    ELSE IF Allowed(ev) THEN ev.st = "done" /\ Result(ev)
    ELSE ev.st = "stop"
=============================================================================
