------------------------------- MODULE MCIter -------------------------------
(* The random-access laws, checked on every reachable pair of positions of sequences of 1 to 4. *)
EXTENDS Iter, TLC
VARIABLES s, e
vars == <<s, e>>
Ks == -4..4
OpNames == {"++pre", "++post", "--pre", "--post", "+=", "-=", "+", "-", "k+", "=", "swap", "diff", "mix1", "cmp", "*", "[]", "w*", "w[]", "begin", "end", "all"}
Vals0 == <<1, 2, 3, 4>>
Init == /\ \E n \in 1..4, r \in 0..1 : s = [n |-> n, rev |-> r, v |-> SubSeq(Vals0, 1, n), p |-> <<0, 0>>]
        /\ e = [op |-> "all", i |-> 1, k |-> 0, x |-> 0]
Next == /\ \E op \in OpNames, i \in 1..2, k \in Ks : e' = [op |-> op, i |-> i, k |-> k, x |-> 9]
        /\ Enabled(s, e') /\ s' = After(s, e')
Spec == Init /\ [][Next]_vars
View == s

InBounds == s.p[1] \in 0..s.n /\ s.p[2] \in 0..s.n
Mk(op, i, k) == [op |-> op, i |-> i, k |-> k, x |-> 0]
Laws ==
    /\ \A k \in Ks : In(s, s.p[1] + k) =>
          /\ Answer(s, Mk("+", 1, k)) = Answer(s, Mk("k+", 1, k))
          /\ After(After(s, Mk("+=", 1, k)), Mk("-=", 1, k)) = s
          /\ Answer(After(s, Mk("+=", 1, k)), Mk("diff", 2, 0)) = <<s.p[2] - s.p[1] - k>>
          /\ Derefable(s, s.p[1] + k) => Answer(s, Mk("[]", 1, k)) = Answer(After(s, Mk("+=", 1, k)), Mk("*", 1, 0))
    /\ (s.p[1] < s.n => After(After(s, Mk("++pre", 1, 0)), Mk("--post", 1, 0)) = s)
    /\ Answer(s, Mk("diff", 1, 0))[1] = -Answer(s, Mk("diff", 2, 0))[1]
    /\ (Answer(s, Mk("cmp", 1, 0))[3] = 1 <=> Answer(s, Mk("diff", 1, 0))[1] < 0)
(* writing changes one component only; nothing else changes any *)
OneWrite == [][\A j \in 1..s.n : s'.v[j] # s.v[j] =>
    (e'.op \in {"w*", "w[]"} /\ j = Slot(s, s.p[e'.i] + (IF e'.op = "w[]" THEN e'.k ELSE 0)))]_vars
=============================================================================
