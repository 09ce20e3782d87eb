-------------------------------- MODULE Swizzle --------------------------------
(* The accessors.  A vector of n components has one accessor for every word of one to   *)
(* four of its first n letters; it denotes the components it spells.                     *)
EXTENDS Scalar

Letters == <<"x", "y", "z", "w">>
Word(ix) == [i \in 1..Len(ix) |-> Letters[ix[i]]]
IndexOf(c) == CHOOSE k \in 1..4 : Letters[k] = c
Indexes(w) == [i \in 1..Len(w) |-> IndexOf(w[i])]
IndexWords(n) == UNION {[1..k -> 1..n] : k \in 1..4}
Words(n) == {Word(ix) : ix \in IndexWords(n)}
Distinct(ix) == \A i, j \in 1..Len(ix) : i # j => ix[i] # ix[j]
WriteWords(n) == {Word(ix) : ix \in {x \in IndexWords(n) : Distinct(x)}}

SameSeq(t, x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Same(t, x[i], y[i])
Spelled(x, ix) == [i \in 1..Len(ix) |-> x.v[ix[i]]]

(* reading: ev.a[1] is the object, ev.nm the word; every way of reading gives the spelled components *)
ReadOk(ev) ==
    LET x == ev.a[1]  n == Len(x.v)  ix == Indexes(ev.nm)  k == Len(ix)  want == Spelled(x, ix) IN
    /\ ev.nm \in Words(n)
    /\ ev.u = 1                                               \* nothing moved
    /\ ev.r.t = x.t /\ SameSeq(x.t, ev.r.v, want)             \* as a vector of its own, one letter as a plain scalar
    /\ ev.r.k = (IF k = 1 THEN "S" ELSE "V")
    /\ \A w \in {"ix", "ds", "get", "it", "rt"} : SameSeq(x.t, ev[w], want)
    /\ k = 1 => \A i \in 1..Len(ev.cast) : LET c == ev.cast[i] IN c.k = "S" /\ Same(c.t, c.v[1], Conv(x.t, c.t, want[1]))      \* as any other scalar
    /\ ev.rk = (IF k = 1 THEN "S" ELSE "V")                   \* swizzle() makes a value of its own
    /\ ev.cnt = k /\ ev.len = k
    (* it can be written exactly when no component repeats and the object is not const *)
    /\ ev.wr = (IF Distinct(ix) /\ ev.const = 0 THEN 1 ELSE 0)

(* writing: ev.a[1] before, ev.a[2] the components written (or ev.src: the word they are read from), ev.r after *)
WriteOk(ev) ==
    LET x == ev.a[1]  ix == Indexes(ev.nm)
        rhs == IF "src" \in DOMAIN ev THEN Spelled(x, Indexes(ev.src))
               ELSE [i \in 1..Len(ix) |-> Conv(ev.a[2].t, x.t, ev.a[2].v[IF Len(ev.a[2].v) = 1 THEN 1 ELSE i])]
    IN /\ ev.nm \in WriteWords(Len(x.v)) /\ ev.u = 1
       /\ Len(rhs) = Len(ix)
       /\ ev.r.t = x.t /\ Len(ev.r.v) = Len(x.v)
       /\ \A j \in 1..Len(x.v) :
            Same(x.t, ev.r.v[j], IF \E i \in 1..Len(ix) : ix[i] = j THEN rhs[CHOOSE i \in 1..Len(ix) : ix[i] = j] ELSE x.v[j])

(* swizzle() with an index that is no component: nothing comes back but the exception *)
RefuseOk(ev) == /\ ev.r = "out_of_range" /\ ev.u = 1
                /\ \E i \in 1..Len(ev.ix) : ev.ix[i] < 0 \/ ev.ix[i] >= Len(ev.a[1].v)
=============================================================================
