-------------------------------- MODULE Store --------------------------------
(* The memory model of dsga: cells, owning objects, windows on cells, and every     *)
(* operation that changes them.                                                     *)
(*                                                                                  *)
(*   mem   the contents of every element cell in the program                        *)
(*   bind  for every view, the first cell of its window                             *)
(*                                                                                  *)
(* An owning object (vector, view_vector, matrix column, array) is a fixed block of *)
(* cells that no other owning object shares; a view is a window that can be moved   *)
(* anywhere.  A place is an object and a sequence of component indexes (the letters *)
(* of a swizzle, or 0..n-1 for the object itself): the lvalue an expression denotes.*)
(* All right-hand sides are read before anything is written.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Bitwise

CONSTANT World        \* [objs: name -> [b: first cell, n: cells], views: name -> length, cells: number]

Range0(n) == [i \in 1..n |-> i - 1]
IsView(ob) == ob \in DOMAIN World.views
SizeOf(ob) == IF IsView(ob) THEN World.views[ob] ELSE World.objs[ob].n

Base(bind, ob) == IF IsView(ob) THEN bind[ob] ELSE World.objs[ob].b
Cells(bind, p) == [i \in 1..Len(p.ix) |-> Base(bind, p.ob) + p.ix[i]]
Vals(mem, bind, p) == [i \in 1..Len(p.ix) |-> mem[Base(bind, p.ob) + p.ix[i]]]
Whole(ob) == [ob |-> ob, ix |-> Range0(SizeOf(ob))]
Elems(s) == {s[i] : i \in 1..Len(s)}
Disjoint(s, t) == Elems(s) \cap Elems(t) = {}

(* write vs to the (distinct) cells cs, all at once *)
Put(mem, cs, vs) == [c \in DOMAIN mem |-> IF \E i \in 1..Len(cs) : cs[i] = c
                                          THEN vs[CHOOSE i \in 1..Len(cs) : cs[i] = c] ELSE mem[c]]

(* scalar operations of compound assignment on small exact numbers *)
TDiv(x, y) == IF (x >= 0) = (y > 0) THEN (IF x >= 0 THEN x \div y ELSE (-x) \div (-y))
              ELSE -((IF x >= 0 THEN x ELSE -x) \div (IF y >= 0 THEN y ELSE -y))
TMod(x, y) == x - y * TDiv(x, y)
Sc(op, x, y) == CASE op = "+" -> x + y [] op = "-" -> x - y [] op = "*" -> x * y
                  [] op = "/" -> TDiv(x, y) [] op = "%" -> TMod(x, y)
                  [] op = "<<" -> x * 2^y [] op = ">>" -> x \div 2^y
                  [] op = "&" -> x & y [] op = "|" -> x | y [] op = "^" -> x ^^ y
(* where the numbers above are what C++ computes, exactly *)
ScOk(op, x, y, float) ==
    CASE op \in {"+", "-", "*"} -> TRUE
      [] op = "/" -> y # 0 /\ (float => TMod(x, y) = 0)
      [] op = "%" -> y # 0
      [] op \in {"<<", ">>"} -> x >= 0 /\ y >= 0 /\ y < 8
      [] OTHER -> x >= 0 /\ y >= 0

Bcast(vs, n) == IF Len(vs) = n THEN vs ELSE [i \in 1..n |-> vs[1]]
Combine(op, xs, ys) == [i \in 1..Len(xs) |-> Sc(op, xs[i], Bcast(ys, Len(xs))[i])]

RotateLeft(s, k) == [i \in 1..Len(s) |-> s[((i - 1 + k) % Len(s)) + 1]]
SortedSeq(s) == SortSeq(s, <)

(* do two windows of n cells overlap without being the same window? *)
PartialOverlap(b1, b2, n) == b1 # b2 /\ (IF b1 < b2 THEN b2 - b1 ELSE b1 - b2) < n

(* ---------------------------------------------------------------- the operations *)
(* Effect(st, ev): the state after operation ev in state st = [m: mem, b: bind].     *)
Effect(st, ev) ==
    LET m == st.m  b == st.b
        wr(cs, vs) == [m |-> Put(m, cs, vs), b |-> b]
    IN
    CASE ev.o = "assign"  -> wr(Cells(b, ev.d), Vals(m, b, ev.s))            \* d = s, construction, copy
      [] ev.o = "assignk" -> wr(Cells(b, ev.d), ev.k)                        \* d.set(...), d.x = k, d = vec(...)
      [] ev.o = "idx"     -> wr(<<Cells(b, ev.d)[ev.i + 1]>>, ev.k)          \* d[i] = k, *(d.begin() + i) = k, get<i>(d) = k
      [] ev.o = "cmp"     -> wr(Cells(b, ev.d), Combine(ev.op, Vals(m, b, ev.d), Vals(m, b, ev.s)))
      [] ev.o = "cmpk"    -> wr(Cells(b, ev.d), Combine(ev.op, Vals(m, b, ev.d), ev.k))
      [] ev.o = "inc"     -> wr(Cells(b, ev.d), [i \in 1..Len(ev.d.ix) |-> Vals(m, b, ev.d)[i] + ev.by])
      [] ev.o = "swap"    -> LET p == Whole(ev.x)  q == Whole(ev.y) IN       \* swap(x, y), x.swap(y)
             IF Base(b, ev.x) = Base(b, ev.y) \/ PartialOverlap(Base(b, ev.x), Base(b, ev.y), SizeOf(ev.x))
             THEN st
             ELSE [m |-> Put(Put(m, Cells(b, p), Vals(m, b, q)), Cells(b, q), Vals(m, b, p)), b |-> b]
      [] ev.o = "reset"   -> [m |-> m, b |-> [b EXCEPT ![ev.v] = ev.at]]     \* v.reset(&cell), a new view on &cell
      [] ev.o = "rebind"  -> [m |-> m, b |-> [b EXCEPT ![ev.v] = b[ev.w]]]   \* copy construction of a view
      [] ev.o = "raw"     -> wr(<<ev.c>>, ev.k)                              \* storage[c] = k
      [] ev.o = "reverse" -> wr(Cells(b, ev.d), Reverse(Vals(m, b, ev.d)))
      [] ev.o = "sort"    -> wr(Cells(b, ev.d), SortedSeq(Vals(m, b, ev.d)))
      [] ev.o = "rotate"  -> wr(Cells(b, ev.d), RotateLeft(Vals(m, b, ev.d), ev.i))
      [] ev.o = "fill"    -> wr(Cells(b, ev.d), Bcast(ev.k, Len(ev.d.ix)))
      [] ev.o = "exch"    -> [m |-> Put(Put(m, Cells(b, ev.d), Vals(m, b, ev.s)), Cells(b, ev.s), Vals(m, b, ev.d)), b |-> b]
      [] ev.o \in {"read", "eq"} -> st

(* what the operation reports to its caller *)
Returns(st, ev) ==
    CASE ev.o = "read" -> Vals(st.m, st.b, ev.s)
      [] ev.o = "eq" -> <<IF (Vals(st.m, st.b, ev.d) = Vals(st.m, st.b, ev.s)) = (ev.neg = 0) THEN 1 ELSE 0>>   \* d == s, d != s
      [] ev.o = "inc" /\ ev.post = 1 -> Vals(st.m, st.b, ev.d)              \* the old value
      [] OTHER -> <<>>
Throws(st, ev) == ev.o = "swap" /\ PartialOverlap(Base(st.b, ev.x), Base(st.b, ev.y), SizeOf(ev.x))

(* the cells an operation is allowed to change *)
Touches(st, ev) ==
    CASE ev.o \in {"reset", "rebind", "read", "eq"} -> {}
      [] ev.o = "raw"  -> {ev.c}
      [] ev.o = "idx"  -> {Cells(st.b, ev.d)[ev.i + 1]}
      [] ev.o = "swap" -> IF Throws(st, ev) THEN {} ELSE Elems(Cells(st.b, Whole(ev.x))) \cup Elems(Cells(st.b, Whole(ev.y)))
      [] ev.o = "exch" -> Elems(Cells(st.b, ev.d)) \cup Elems(Cells(st.b, ev.s))
      [] OTHER -> Elems(Cells(st.b, ev.d))

(* A known deviation of the library (see known-findings.txt): assignment between two  *)
(* swizzles of one and the same type is the implicit assignment of the whole owner.   *)
WholeOwnerCopy(st, ev) ==
    [m |-> Put(st.m, Cells(st.b, Whole(ev.d.ob)), Vals(st.m, st.b, Whole(ev.s.ob))), b |-> st.b]
=============================================================================
