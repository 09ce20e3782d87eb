---------------------------------- MODULE Ctor ----------------------------------
(* Construction.  An argument list is the sequence of its arguments' component counts;   *)
(* it builds n components exactly when it supplies enough of them and its last argument  *)
(* is needed.  A list of one argument of one component supplies that one to every place. *)
EXTENDS Mat

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Supplies(n, counts) == /\ counts # <<>>
                       /\ SumSeq(counts) >= n
                       /\ SumSeq(SubSeq(counts, 1, Len(counts) - 1)) < n
Fills(counts) == Len(counts) = 1 /\ counts[1] = 1
Legal(n, counts) == Supplies(n, counts) \/ Fills(counts)

CountsOf(args) == [i \in 1..Len(args) |-> Len(args[i].v)]
Built(t, n, args) ==
    LET f == Flatten(args, t) IN
    IF Fills(CountsOf(args)) THEN [i \in 1..n |-> f[1]] ELSE SubSeq(f, 1, n)
(* a vector or view-vector of n components of type t: arguments, result, nothing else changed *)
CtorOk(ev) ==
    LET n == Len(ev.r.v) IN
    /\ ev.u = 1 /\ n = ev.n /\ ev.r.t = ev.t
    /\ Legal(n, CountsOf(ev.a))
    /\ SameAll(ev.t, ev.r.v, Built(ev.t, n, ev.a))
(* which lists are accepted *)
OfferedOk(ev) == (ev.ok = 1) <=> Legal(ev.n, ev.counts)
(* a matrix: no filling, one scalar is the diagonal of a square one *)
MatLegal(c, r, counts) == Supplies(c * r, counts) \/ (Fills(counts) /\ c = r)
MatOfferedOk(ev) == (ev.ok = 1) <=> MatLegal(ev.c, ev.row, ev.counts)
=============================================================================
