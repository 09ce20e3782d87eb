------------------------------- MODULE GenStore -------------------------------
(* Random behaviours of the memory model, written out as programs: tools/gen_store.py   *)
(* turns each one into C++ in the library's natural syntax, which is then run and       *)
(* validated by TraceStore.  Run with -simulate.                                        *)
EXTENDS Store, BigWorld, Json, IOUtils

VARIABLES st, hist, todo                \* todo: events that must follow the last one
vars == <<st, hist, todo>>

Depth == atoi(IOEnv.DEPTH)
Flavour == IOEnv.FLAVOUR             \* "int", "float", "bool", "uns", "tokf", "toki"
Focus == IOEnv.FOCUS                 \* the property in view: which operations are drawn
IsF == Flavour \in {"float", "tokf"}
(* elements are tokens: any distinct values of the element type (NaNs, zeros of both signs, the widest integers),  *)
(* which the operations that only move elements have to carry unchanged; nothing is computed with them           *)
IsTok == Flavour \in {"tokf", "toki"}
IsB == Flavour = "bool"
NoAr == IsB \/ IsTok
Limit == IF Flavour = "bool" THEN 1 ELSE 2000
Lowest == IF Flavour \in {"bool", "uns"} THEN 0 ELSE -2000

R(S) == RandomElement(S)
Vec4 == {"a", "a2", "e", "e2", "p", "p2"}
Vecs4 == {"a", "a2"}  Vecs3 == {"v3", "w3"}  Vecs2 == {"v2", "w2"}  Vecs1 == {"v1", "w1"}
Mats == IF IsF THEN {"ma", "mb", "na", "nb"} ELSE {}
VVs == {"e", "e2", "f", "g", "h"}
MViews == {"p", "p2", "q", "q2", "r", "r2", "o", "o2"}
CViews == {"cp", "cr"}
Us == {"ua", "ub", "uf"}
Writable == Vecs4 \cup Vecs3 \cup Vecs2 \cup Vecs1 \cup VVs \cup MViews \cup Mats
Readable == Writable \cup CViews \cup Us
Owning(o) == o \in Vecs4 \cup Vecs3 \cup Vecs2 \cup Vecs1 \cup Mats

Inj(n, k) == {x \in [1..k -> 0..(n - 1)] : \A i, j \in 1..k : i # j => x[i] # x[j]}
InjOf == [n \in 1..4 |-> [k \in 1..4 |-> IF k <= n THEN Inj(n, k) ELSE {}]]
WPlaces(o) == {[ob |-> o, ix |-> x, w |-> 0] : x \in UNION {InjOf[SizeOf(o)][k] : k \in 1..SizeOf(o)}}
(* a random place: the object itself (w = 1) or one of its swizzles (w = 0) *)
WPlace(o) == IF R(1..3) = 1 THEN [ob |-> o, ix |-> Range0(SizeOf(o)), w |-> 1]
             ELSE LET k == R(1..SizeOf(o)) IN [ob |-> o, ix |-> R(InjOf[SizeOf(o)][k]), w |-> 0]
WPlaceL(o, k) == IF k = SizeOf(o) /\ R(1..3) = 1 THEN [ob |-> o, ix |-> Range0(k), w |-> 1]
                 ELSE [ob |-> o, ix |-> R(InjOf[SizeOf(o)][k]), w |-> 0]
RPlace(o, k) == IF k = SizeOf(o) /\ R(1..3) = 1 THEN [ob |-> o, ix |-> Range0(k), w |-> 1]
                ELSE [ob |-> o, ix |-> [i \in 1..k |-> R(0..(SizeOf(o) - 1))], w |-> 0]

Owner4(o) == IF o \in VVs \cup MViews THEN "view" ELSE IF o \in CViews THEN "cview" ELSE "vec"
ElemT(o) == IF o \in Us THEN "U" ELSE "T"
IsVecObj(o) == o \in Vecs4 \cup Vecs3 \cup Vecs2 \cup Vecs1 \cup {"ua", "ub", "iv", "iw"} \cup Mats
IsViewish(o) == o \in VVs \cup MViews \cup {"uf", "jv"}
(* two places denote the same C++ type *)
SameSwizzleType(d, s) == /\ d.w = 0 /\ s.w = 0 /\ d.ix = s.ix /\ SizeOf(d.ob) = SizeOf(s.ob) /\ ElemT(d.ob) = ElemT(s.ob)
                         /\ ((IsVecObj(d.ob) /\ IsVecObj(s.ob)) \/ (IsViewish(d.ob) /\ IsViewish(s.ob)))
(* assignments the library rejects at compile time *)
NotOffered(d, s) == \/ SameSwizzleType(d, s) /\ IsViewish(d.ob)
                    \/ d.w = 1 /\ s.w = 1 /\ d.ob \in MViews /\ s.ob \in MViews \cup VVs \cup {"uf"}
Deviates(d, s) == SameSwizzleType(d, s) /\ IsVecObj(d.ob)
(* views, and swizzles of views, can be assigned through a temporary *)
RvalueOk(d) == d.ob \in MViews \/ (d.ob \in VVs /\ d.w = 0)
(* bool vectors are assigned as a whole and from their own type only; otherwise through set(), [] and iterators *)
BoolWhole(d, s) == d.w = 1 /\ s.w = 1 /\ SizeOf(d.ob) = SizeOf(s.ob) /\
                   LET V == Vecs4 \cup Vecs3 \cup Vecs2 \cup Vecs1 IN
                   (d.ob \in V /\ s.ob \in V) \/ (d.ob \in VVs /\ s.ob \in VVs)

Val(z) == R(IF IsB THEN 0..1 ELSE IF Flavour = "uns" THEN 0..9 ELSE -9..9)
ValsOf(n) == [i \in 1..n |-> Val(i)]
BaseCells == (21..27) \cup {1, 2, 5, 9, 12, 31, 35}
FitsAt(v, at) == LET n == World.views[v] IN
    CASE at \in 21..30 -> at + n <= 31
      [] at \in 1..4 -> at + n <= 5
      [] at \in 5..8 -> at + n <= 9
      [] at \in 9..11 -> at + n <= 12
      [] at \in 12..14 -> at + n <= 15
      [] at \in 31..34 -> at + n <= 35
      [] at \in 35..38 -> at + n <= 39
      [] OTHER -> FALSE

Ops == IF IsF THEN {"+", "-", "*", "/"} ELSE IF Flavour = "uns" THEN {"+", "*", "/", "%", "<<", ">>", "&", "|", "^"}
       ELSE {"+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"}

Sane(e) ==                                        \* exact, in range
    /\ e.o \in {"cmp", "cmpk"} =>
         LET xs == Vals(st.m, st.b, e.d)
             ys == Bcast(IF e.o = "cmp" THEN Vals(st.m, st.b, e.s) ELSE e.k, Len(xs))
         IN \A i \in 1..Len(xs) : ScOk(e.op, xs[i], ys[i], IsF)
    /\ LET n == Effect(st, e) IN \A c \in DOMAIN n.m : n.m[c] <= Limit /\ n.m[c] >= Lowest

None == [o |-> "none"]
If(c, e) == IF c THEN e ELSE None

Assign(z) == LET o == R(Writable)  d == WPlace(o)  o2 == R(IF NoAr THEN Readable \ Us ELSE Readable)  s == RPlace(o2, Len(d.ix)) IN
    If(IsB \/ (~NotOffered(d, s) /\ ~Deviates(d, s)),
       [o |-> "assign", d |-> d, s |-> s, cst |-> R(0..1),
        how |-> R(IF IsB THEN {"set", "seteach"} \cup (IF BoolWhole(d, s) THEN {"=", "=.", "mv", "mv."} ELSE {})
                  ELSE {"=", "=.", "mv", "set", "seteach", "temp"} \cup (IF RvalueOk(d) THEN {"rv", "rv."} ELSE {}))])
SelfAssign(z) == LET o == R(Writable)  d == WPlace(o)
                     s == RPlace(IF R(1..2) = 1 THEN o ELSE R(IF IsView(o) THEN Writable ELSE MViews), Len(d.ix)) IN
    If(IsB \/ (~NotOffered(d, s) /\ ~Deviates(d, s)),
       [o |-> "assign", d |-> d, s |-> s, cst |-> R(0..1), how |-> IF IsB THEN (IF BoolWhole(d, s) THEN R({"=", "mv"}) ELSE "set") ELSE R({"=", "mv", "set"} \cup (IF RvalueOk(d) THEN {"rv"} ELSE {}))])
(* whole objects of one type, copied and moved *)
SamePairs == {<<"a", "a2">>, <<"a2", "a">>, <<"v3", "w3">>, <<"v2", "w2">>, <<"v1", "w1">>, <<"a", "n4">>, <<"n4", "a">>, <<"n3", "w3">>, <<"e", "e2">>, <<"e2", "e">>, <<"x4", "e">>, <<"e", "x4">>, <<"e", "e">>, <<"a", "a">>}
             \cup (IF IsF THEN {<<"MM", "NN">>, <<"NN", "MM">>, <<"MM", "MM">>} ELSE {})
Whole2(z) == LET x == R(SamePairs) IN
    [o |-> "assign", d |-> Whole(x[1]) @@ [w |-> 1], s |-> Whole(x[2]) @@ [w |-> 1], how |-> R({"=", "mv", "mvtemp", "copytemp"}), cst |-> R(0..1)]
Deviation(z) == LET d == WPlace(R(Vecs4 \cup Vecs3 \cup Vecs2))
                    s == [ob |-> R({x \in Vecs4 \cup Vecs3 \cup Vecs2 : SizeOf(x) = SizeOf(d.ob)}), ix |-> d.ix, w |-> 0] IN
    If(d.w = 0 /\ ~IsB, [o |-> "assign", d |-> d, s |-> s, how |-> "=", cst |-> R(0..1), dev |-> 1])
Construct(z) == LET d == R({"n4", "n3", "n2", "x4", "ar"})
                    s == RPlace(R(IF IsB THEN Vecs4 \cup Vecs3 \cup Vecs2 ELSE IF IsTok THEN Readable \ Us ELSE Readable), SizeOf(d)) IN
    If(TRUE, [o |-> "assign", d |-> Whole(d) @@ [w |-> 1], s |-> s, how |-> "new",
     cst |-> IF IsB THEN 0 ELSE R(0..1)])
(* copy and move construction from the same type *)
ConstructSame(z) == LET x == R({<<"n4", "a">>, <<"n4", "a2">>, <<"n3", "v3">>, <<"n2", "v2">>, <<"x4", "e">>, <<"x4", "e2">>}) IN
    [o |-> "assign", d |-> Whole(x[1]) @@ [w |-> 1], s |-> Whole(x[2]) @@ [w |-> 1], how |-> R({"new", "newmv"}), cst |-> 0]
AssignK(z) == LET d == WPlace(R(Writable)) IN
    [o |-> "assignk", d |-> d, k |-> ValsOf(Len(d.ix)), how |-> R(IF IsB THEN {"set", "vbset"} ELSE {"set", "vbset", "vec", "scal"} \cup (IF RvalueOk(d) THEN {"rv"} ELSE {}))]
Index(z) == LET d == WPlace(R(Writable)) IN
    [o |-> "idx", d |-> d, i |-> R(0..(Len(d.ix) - 1)), k |-> ValsOf(1), how |-> R({"[]", "iter", "riter", "get", "data", "it[]", "bind", "vb[]", "vbiter", "vbriter", "vbdata", "derived"})]
Cmp(z) == LET o == R(Writable)  d == WPlace(o)
              o2 == IF R(1..3) = 1 THEN o ELSE R(Readable)
              s == RPlace(o2, IF R(1..4) = 1 THEN 1 ELSE Len(d.ix)) IN
    If(~NoAr, [o |-> "cmp", op |-> R(IF o2 \in Us THEN Ops \ {"&", "|", "^"} ELSE Ops),      \* those need operands of one size
               d |-> d, s |-> s, cst |-> R(0..1), sc |-> R(0..1)])             \* sc: one component is named as a plain scalar (d *= d[1])
CmpK(z) == LET d == WPlace(R(Writable)) IN
    If(~NoAr, [o |-> "cmpk", op |-> R(Ops), d |-> d, k |-> ValsOf(1), cst |-> 0])
Inc(z) == LET d == IF IsF /\ R(1..6) = 1 THEN Whole(R({"MM", "NN"})) @@ [w |-> 1] ELSE WPlace(R(Writable)) IN
    If(~NoAr, [o |-> "inc", d |-> d, by |-> R({-1, 1}), post |-> R(0..1)])
SwapPairs == {<<"a", "a2">>, <<"v3", "w3">>, <<"v2", "w2">>, <<"v1", "w1">>, <<"e", "e2">>, <<"a", "a">>, <<"e", "e">>,
              <<"p", "p2">>, <<"q", "q2">>, <<"r", "r2">>, <<"o", "o2">>, <<"p", "p">>, <<"p", "e">>, <<"q", "f">>, <<"r", "g">>,
              <<"p2", "p">>, <<"q2", "q">>, <<"r2", "r">>}
             \cup (IF IsF THEN {<<"ma", "nb">>, <<"MM", "NN">>, <<"ma", "mb">>} ELSE {})
Swap(z) == LET x == R(SwapPairs) IN [o |-> "swap", x |-> x[1], y |-> x[2], how |-> R({"free", "member"})]
Reset(z) == LET v == R(MViews \cup CViews)  at == R({c \in BaseCells : FitsAt(v, c)}) IN
    [o |-> "reset", v |-> v, at |-> at, how |-> R({"reset", "new"})]
Rebind(z) == LET x == R({<<"p", "p2">>, <<"q", "q2">>, <<"r", "r2">>, <<"p2", "p">>, <<"q2", "q">>, <<"r2", "r">>, <<"o", "o2">>, <<"p", "p">>}) IN
    [o |-> "rebind", v |-> x[1], w |-> x[2], how |-> R({"copy", "move"})]
Raw(z) == [o |-> "raw", c |-> R(21..30), k |-> ValsOf(1)]
Algo(z) == LET d == WPlace(R(Writable))  w == R(IF IsTok THEN {"reverse", "rotate", "fill"} ELSE {"reverse", "sort", "rotate", "fill"}) IN
    [o |-> w, d |-> d, i |-> IF w = "rotate" THEN R(0..(Len(d.ix) - 1)) ELSE 0, k |-> ValsOf(1)]
Exch(z) == LET d == WPlace(R(Writable))  s == WPlaceL(R({x \in Writable : SizeOf(x) >= Len(d.ix)}), Len(d.ix)) IN
    If(Disjoint(Cells(st.b, d), Cells(st.b, s)), [o |-> "exch", d |-> d, s |-> s])
Read(z) == LET o == R(Readable)  s == RPlace(o, R(1..4)) IN
    [o |-> "read", s |-> s, cst |-> R(0..1),
     how |-> R({"[]", "iter", "citer", "riter", "get", "bind", "to_array", "to_vector", "to_vectorc", "data", "range", "vb[]", "vbiter", "vbriter", "vbdata"} \cup (IF IsB THEN {} ELSE {"conv"}))]

(* the building blocks as objects of their own *)
Boxes == {"t1", "t2", "vw", "vx"}  BoxViews == {"vw", "vx", "cw"}  Dex == {"iv", "iw", "jv"}
BPlace(o) == IF o \in Dex THEN [ob |-> o, ix |-> Fixed[o], w |-> 0] ELSE Whole(o) @@ [w |-> 1]
DexRead(k) == IF R(1..2) = 1 /\ k \in {2, 3} THEN BPlace(IF k = 2 THEN "iw" ELSE R({"iv", "jv"})) ELSE RPlace(R(IF IsTok THEN Readable \ Us ELSE Readable), k)
DexAssign(z) == LET d == IF R(1..2) = 1 THEN BPlace(R(Dex)) ELSE WPlaceL(R({x \in Writable : SizeOf(x) >= 3}), R({2, 3}))
                    s == DexRead(Len(d.ix)) IN
    If(~IsB /\ ~NotOffered(d, s) /\ ~Deviates(d, s), [o |-> "assign", d |-> d, s |-> s, cst |-> R(0..1), how |-> R({"=", "set", "seteach", "temp"})])
DexNew(z) == LET d == R({"n2", "n3"})  s == BPlace(IF d = "n2" THEN "iw" ELSE R({"iv", "jv"})) IN
    [o |-> "assign", d |-> Whole(d) @@ [w |-> 1], s |-> s, how |-> "new", cst |-> IF IsB THEN 0 ELSE R(0..1)]
DexCmp(z) == LET d == BPlace(R(Dex))
                 s == IF R(1..3) = 1 THEN [ob |-> d.ob, ix |-> <<R(0..2)>>, w |-> 0] ELSE DexRead(Len(d.ix)) IN
    If(~NoAr, [o |-> "cmp", op |-> R(IF s.ob \in Us THEN Ops \ {"&", "|", "^"} ELSE Ops), d |-> d, s |-> s, cst |-> R(0..1),
              sc |-> IF Len(s.ix) = 1 THEN 1 ELSE 0])
BoxCopy(z) == LET x == R({<<"t1", "t2">>, <<"t2", "t1">>, <<"t1", "t1">>}) IN
    [o |-> "assign", d |-> BPlace(x[1]), s |-> BPlace(x[2]), how |-> R({"=", "mv", "mvtemp", "copytemp", "set", "new"}), cst |-> R(0..1)]
BoxSet(z) == LET d == BPlace(R(Boxes)) IN [o |-> "assignk", d |-> d, k |-> ValsOf(Len(d.ix)), how |-> "set"]
DexSet(z) == LET d == BPlace(R(Dex)) IN [o |-> "assignk", d |-> d, k |-> ValsOf(Len(d.ix)), how |-> R(IF IsB THEN {"set", "vbset"} ELSE {"set", "vbset", "vec"})]
BlockIndex(z) == LET o == R(Boxes \cup Dex)  d == BPlace(o) IN
    [o |-> "idx", d |-> d, i |-> R(0..(Len(d.ix) - 1)), k |-> ValsOf(1),
     how |-> R({"[]", "iter", "riter", "data", "it[]", "get", "bind"} \cup (IF o \in Dex THEN {"vb[]", "vbiter", "vbriter", "vbdata", "derived"} ELSE {}))]
(* set() from components that may be the ones it is about to overwrite, in any order *)
BlockSetP(z) == LET o == R(Boxes \cup Dex)  d == BPlace(o)
                    q == IF R(1..2) = 1 THEN o ELSE R(Boxes \cup BoxViews \cup Dex \cup {"a", "e", "p", "q"})
                    n == IF q \in Dex THEN 3 ELSE SizeOf(q) IN
    [o |-> "assign", d |-> d, s |-> [ob |-> q, ix |-> [i \in 1..Len(d.ix) |-> R(0..(n - 1))], w |-> 0], how |-> "setp", cst |-> R(0..1)]
BlockInc(z) == LET d == BPlace(R(Dex)) IN If(~NoAr, [o |-> "inc", d |-> d, by |-> R({-1, 1}), post |-> R(0..1)])
BlockCmpK(z) == LET d == BPlace(R(Dex)) IN If(~NoAr, [o |-> "cmpk", op |-> R(Ops), d |-> d, k |-> ValsOf(1), cst |-> 0])
BoxSwap(z) == LET x == R({<<"t1", "t2">>, <<"t2", "t1">>, <<"vw", "vx">>, <<"vx", "vw">>, <<"vw", "vw">>, <<"t1", "t1">>}) IN
    [o |-> "swap", x |-> x[1], y |-> x[2], how |-> R({"free", "member"})]
AtFor(v) == {c \in BaseCells \cup {82, 83, 87, 90} : IF c \in 82..89 THEN ((c - 82) % 4) + World.views[v] <= 4 ELSE IF c = 90 THEN TRUE ELSE FitsAt(v, c)}
BoxReset(z) == LET v == R(BoxViews \cup {"jv", "vw", "vx"}) IN [o |-> "reset", v |-> v, at |-> R(AtFor(v)), how |-> R({"reset", "new"})]
BoxRebind(z) == LET x == R({<<"vw", "vx">>, <<"vx", "vw">>, <<"vw", "vw">>}) IN [o |-> "rebind", v |-> x[1], w |-> x[2], how |-> R({"copy", "move"})]
BlockAlgo(z) == LET d == BPlace(R(Boxes \cup Dex))  w == R(IF IsTok THEN {"reverse", "rotate", "fill"} ELSE {"reverse", "sort", "rotate", "fill"}) IN
    [o |-> w, d |-> d, i |-> IF w = "rotate" THEN R(0..(Len(d.ix) - 1)) ELSE 0, k |-> ValsOf(1)]
BlockExch(z) == LET d == BPlace(R(Boxes \cup Dex))
                    s == IF R(1..2) = 1 THEN WPlaceL(R({x \in Writable : SizeOf(x) >= Len(d.ix)}), Len(d.ix)) ELSE BPlace(R({o \in Boxes \cup Dex : Len(BPlace(o).ix) = Len(d.ix)})) IN
    If(Disjoint(Cells(st.b, d), Cells(st.b, s)), [o |-> "exch", d |-> d, s |-> s])
BlockRead(z) == LET o == R(Boxes \cup BoxViews \cup Dex) IN
    [o |-> "read", s |-> BPlace(o), cst |-> R(0..1),
     how |-> R({"[]", "iter", "citer", "riter", "data", "range", "get", "bind"} \cup (IF o \in Dex THEN {"to_array", "vb[]", "vbiter", "vbriter", "vbdata"} \cup (IF IsB THEN {} ELSE {"conv"}) ELSE {}))]
BlockEq(z) == LET x == R({<<"t1", "t2">>, <<"t1", "t1">>, <<"vw", "vx">>, <<"vw", "cw">>, <<"cw", "vx">>, <<"vx", "vx">>}) IN
    If(~NoAr, [o |-> "eq", d |-> BPlace(x[1]), s |-> BPlace(x[2]), neg |-> R(0..1), cst |-> R(0..1)])
DexEq(z) == LET d == BPlace(R(Dex))  s == DexRead(Len(d.ix)) IN
    If(~NoAr /\ s.ob \notin Us, [o |-> "eq", d |-> d, s |-> s, neg |-> R(0..1), cst |-> R(0..1)])
Same1(z) == LET v == R(BoxViews) IN [o |-> "reset", v |-> v, at |-> st.b[R(BoxViews)], how |-> "reset"]      \* make windows coincide
(* two windows brought close to one another, then exchanged *)
NearSwap(z) == LET x == R(IF Focus = "C26" THEN {<<"vw", "vx">>} ELSE {<<"p", "p2">>, <<"q", "q2">>, <<"r", "r2">>, <<"o", "o2">>})
                   n == World.views[x[1]]
                   at == R(21..(31 - n))
                   to == R({c \in 21..(31 - n) : c - at \in (0 - n)..n}) IN
    <<[o |-> "reset", v |-> x[1], at |-> at, how |-> "reset"], [o |-> "reset", v |-> x[2], at |-> to, how |-> "reset"],
      [o |-> "swap", x |-> x[R(1..2)], y |-> x[R(1..2)], how |-> R({"free", "member"})]>>
(* two operands made equal but for at most one component, then compared: every component in turn *)
NearEq(z) == LET x == R({<<"t1", "t2">>, <<"t2", "t1">>, <<"vw", "vx">>, <<"vw", "cw">>, <<"iv", "jv">>, <<"jv", "iv">>, <<"a", "e">>, <<"p", "a2">>, <<"v3", "q">>})
                 d == BPlace(x[1])  s == BPlace(x[2])
                 ys == Vals(st.m, st.b, s)  n == Len(ys)
                 Flip(v) == IF v = 0 THEN 1 ELSE v - 1
                 Eq(u) == [o |-> "eq", d |-> IF u = 0 THEN d ELSE s, s |-> IF u = 0 THEN s ELSE d, neg |-> R(0..1), cst |-> R(0..1)]
                 Set(i) == [o |-> "assignk", d |-> d, k |-> IF i = 0 THEN ys ELSE [ys EXCEPT ![i] = Flip(@)], how |-> "set"]
             IN  [j \in 1..(2 * n + 2) |-> IF j % 2 = 1 THEN Set((j - 1) \div 2) ELSE Eq(R(0..1))]
GenBlock(z) == LET k == R(1..26) IN
    CASE k \in {1, 2} -> DexAssign(z) [] k = 3 -> DexNew(z) [] k = 4 -> DexCmp(z) [] k = 5 -> BoxCopy(z) [] k = 6 -> BoxSet(z) [] k = 7 -> DexSet(z)
      [] k \in {8, 9, 10} -> BlockIndex(z) [] k = 11 -> BlockInc(z) [] k = 12 -> BlockCmpK(z) [] k \in {13, 14} -> BoxSwap(z)
      [] k \in {15, 16} -> BoxReset(z) [] k = 17 -> BoxRebind(z) [] k = 18 -> BlockAlgo(z) [] k = 19 -> BlockExch(z)
      [] k \in {20, 21} -> BlockRead(z) [] k = 22 -> BlockEq(z) [] k = 23 -> DexEq(z) [] k = 24 -> Same1(z)
      [] k \in {25, 26} -> BlockSetP(z)

Pick(z) == CASE Focus = "C02" -> R({"wh", "as", "as2", "sa", "sa2", "dev", "ak", "ix", "rd", "rs"})
          [] Focus = "C03" -> R({"rs", "rs2", "rb", "raw", "as", "sa", "ak", "ix", "rd", "cm", "al", "inc"})
          [] Focus = "C04" -> R({"new", "new2", "new3", "ns", "wh", "wh2", "as", "sa", "ak", "ix", "rs", "cm", "rd", "raw", "sw", "al"})
          [] Focus = "C05" -> R({"sw", "sw2", "sw3", "rs", "rs2", "ak", "as"})
          [] Focus = "C06" -> R({"al", "al2", "ex2", "ix", "ix2", "rd", "rd2", "ex", "rs"})
          [] Focus = "C09" -> R({"cm", "cm2", "cm3", "ck", "inc", "rs", "ak", "ak2"})
          [] Focus = "C20" -> R({"rd", "rd2", "new", "ix", "ak", "rs"})
          [] Focus = "C26" -> R({"bl1", "bl2", "bl3", "bl4", "bl5", "bl6", "rs", "ak", "as"})
          [] OTHER -> R({"as", "sa", "ak", "ix", "cm", "ck", "inc", "sw", "rs", "rb", "raw", "al", "ex", "rd", "new"})
Gen(z) == LET k == Pick(z) IN
    CASE k \in {"as", "as2"} -> Assign(z) [] k \in {"sa", "sa2"} -> SelfAssign(z) [] k = "dev" -> Deviation(z)
      [] k = "ns" -> ConstructSame(z) [] k \in {"wh", "wh2"} -> Whole2(z)
      [] k \in {"new", "new2", "new3"} -> Construct(z)
      [] k \in {"ak", "ak2"} -> AssignK(z) [] k \in {"ix", "ix2"} -> Index(z)
      [] k \in {"cm", "cm2", "cm3"} -> Cmp(z) [] k = "ck" -> CmpK(z) [] k = "inc" -> Inc(z)
      [] k \in {"sw", "sw2", "sw3"} -> Swap(z) [] k \in {"rs", "rs2"} -> Reset(z) [] k = "rb" -> Rebind(z)
      [] k = "raw" -> Raw(z) [] k \in {"al", "al2"} -> Algo(z)
      [] k \in {"bl1", "bl2", "bl3", "bl4", "bl5", "bl6"} -> GenBlock(z)
      [] k \in {"ex", "ex2"} -> Exch(z) [] k \in {"rd", "rd2"} -> Read(z)
GenSeq(z) == IF Focus \in {"C05", "C26"} /\ R(1..7) = 1 THEN NearSwap(z)
             ELSE IF Focus \in {"C26", "C10"} /\ ~NoAr /\ R(1..10) = 1 THEN NearEq(z)
             ELSE <<Gen(z)>>

Init == /\ st = [m |-> [c \in 1..World.cells |-> IF IsB THEN ((c * c + c) % 3) % 2 ELSE c % 23], b |-> InitBind]
        /\ hist = <<>> /\ todo = <<>>
(* draw an operation; when it would leave the exact range or is not offered, set something small instead *)
Next == /\ Len(hist) < Depth
        /\ \E q \in {IF todo # <<>> THEN todo ELSE GenSeq(hist)} :               \* (singletons: draw once)
           \E g \in {IF (IF q[1].o = "none" THEN FALSE ELSE Sane(q[1])) THEN q[1] ELSE AssignK(hist)} :
              hist' = Append(hist, g) /\ st' = Effect(st, g) /\ todo' = Tail(q)
Done == Len(hist) = Depth => PrintT("PROGRAM " \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================
