------------------------------- MODULE MCStore -------------------------------
(* Exhaustive check of the memory model on a small world: two vectors of length 2, a   *)
(* view-vector of length 2, an array of 3, and two views of length 2 that can be bound *)
(* anywhere.  The properties are the ones the library promises.                        *)
EXTENDS Store

CONSTANTS MaxVal, Bases
MCWorld == [objs |-> [a |-> [b |-> 1, n |-> 2], c |-> [b |-> 3, n |-> 2], s |-> [b |-> 5, n |-> 3]],
            views |-> [p |-> 2, q |-> 2], cells |-> 7]
V == 0..MaxVal
VARIABLES st, ev
vars == <<st, ev>>

Owners == {"a", "c"}
Vecs == {"a", "c", "p", "q"}
Ix == {<<0>>, <<1>>, <<0, 1>>, <<1, 0>>}
RIx == Ix \cup {<<0, 0>>, <<1, 1>>}
LP == {[ob |-> o, ix |-> x] : o \in Vecs, x \in Ix}
RP == {[ob |-> o, ix |-> x] : o \in Vecs, x \in RIx}
AllBases == {1, 3, 5, 6}      \* on a, on c, on s, and one further along s
FewBases == {1, 5, 6}
Idle == [o |-> "read", s |-> [ob |-> "a", ix |-> <<0>>]]

Ops ==
    \/ \E d \in LP, s \in RP : Len(d.ix) = Len(s.ix) /\ ev' = [o |-> "assign", d |-> d, s |-> s]
    \/ \E d \in LP, s \in RP : Len(s.ix) \in {1, Len(d.ix)} /\ ev' = [o |-> "cmp", op |-> "+", d |-> d, s |-> s]
    \/ \E d \in LP, k \in V : Len(d.ix) = 2 /\ ev' = [o |-> "fill", d |-> d, k |-> <<k>>]
    \/ \E d \in LP : ev' = [o |-> "inc", d |-> d, by |-> 1, post |-> 1]
    \/ \E d \in LP : ev' = [o |-> "reverse", d |-> d]
    \/ \E x \in Vecs, y \in Vecs : (IsView(x) <=> IsView(y)) /\ ev' = [o |-> "swap", x |-> x, y |-> y]
    \/ \E v \in {"p", "q"}, at \in Bases : ev' = [o |-> "reset", v |-> v, at |-> at]
    \/ ev' = [o |-> "rebind", v |-> "p", w |-> "q"]
    \/ \E c \in 5..7, k \in V : ev' = [o |-> "raw", c |-> c, k |-> <<k>>]

Init == /\ st = [m |-> [c \in 1..7 |-> c % (MaxVal + 1)], b |-> [p |-> 5, q |-> 6]]
        /\ ev = Idle
Next == Ops /\ st' = Effect(st, ev')
Spec == Init /\ [][Next]_vars
Small == \A c \in DOMAIN st.m : st.m[c] <= MaxVal
View == st

(* ---- what must hold of every step ---- *)
Frame == [][/\ \A c \in DOMAIN st.m : st'.m[c] # st.m[c] => c \in Touches(st, ev')
            /\ (ev'.o \notin {"reset", "rebind"} => st'.b = st.b)]_vars
(* simultaneous assignment: afterwards d holds what s held before, overlapping or not *)
Simultaneous == [][ev'.o = "assign" => Vals(st'.m, st'.b, ev'.d) = Vals(st.m, st.b, ev'.s)]_vars
CompoundIsOpThenAssign == [][ev'.o = "cmp" =>
    Vals(st'.m, st'.b, ev'.d) = Combine(ev'.op, Vals(st.m, st.b, ev'.d), Vals(st.m, st.b, ev'.s))]_vars
(* a view is exactly its window, before and after *)
Window == \A v \in {"p", "q"} : Vals(st.m, st.b, Whole(v)) = <<st.m[st.b[v]], st.m[st.b[v] + 1]>>
Rebinding == [][ev'.o \in {"reset", "rebind"} => st'.m = st.m]_vars
(* owners are values: an operation that names neither the owner nor a view on it leaves it alone *)
Reaches(v, o) == Elems(Cells(st.b, Whole(v))) \cap Elems(Cells(st.b, Whole(o))) # {}
Named == CASE ev'.o \in {"assign", "cmp", "inc", "reverse", "fill"} -> {ev'.d.ob}
           [] ev'.o = "swap" -> {ev'.x, ev'.y} [] OTHER -> {}
Independent == [][\A o \in Owners :
    (ev'.o # "raw" /\ ~(\E n \in Named : n = o \/ (IsView(n) /\ Reaches(n, o)))) =>
        Vals(st'.m, st'.b, Whole(o)) = Vals(st.m, st.b, Whole(o))]_vars
SwapExchanges == [][ev'.o = "swap" =>
    IF Throws(st, ev') THEN st' = st
    ELSE /\ Vals(st'.m, st'.b, Whole(ev'.x)) = Vals(st.m, st.b, Whole(ev'.y))
         /\ Vals(st'.m, st'.b, Whole(ev'.y)) = Vals(st.m, st.b, Whole(ev'.x))
         /\ Effect(st', ev') = st]_vars
=============================================================================
