-------------------------------- MODULE Iter --------------------------------
(* Random-access iteration over the logical components of a vector or the columns of  *)
(* a matrix: two iterators into one sequence, each a position from 0 to n inclusive.   *)
(*   s.n     number of components        s.rev   1 for reverse iterators               *)
(*   s.v     the components, by index    s.p     the two positions                     *)
EXTENDS Integers, Sequences

Slot(s, q) == IF s.rev = 1 THEN s.n - q ELSE q + 1            \* where position q reads
In(s, q) == q \in 0..s.n
Derefable(s, q) == q \in 0..(s.n - 1)
Other(i) == 3 - i
B(x) == IF x THEN 1 ELSE 0
Deref(s, q) == s.v[Slot(s, q)]
Move(s, i, q) == [s EXCEPT !.p[i] = q]
Write(s, q, x) == [s EXCEPT !.v[Slot(s, q)] = x]

(* legal uses *)
Enabled(s, e) ==
    LET p == s.p[e.i] IN
    CASE e.op \in {"++pre", "++post"} -> p < s.n
      [] e.op \in {"--pre", "--post"} -> p > 0
      [] e.op \in {"+=", "+", "k+"} -> In(s, p + e.k)
      [] e.op \in {"-=", "-"} -> In(s, p - e.k)
      [] e.op \in {"*", "->", "w*", "w->"} -> Derefable(s, p)
      [] e.op \in {"[]", "w[]"} -> Derefable(s, p + e.k)
      [] OTHER -> TRUE
After(s, e) ==
    LET p == s.p[e.i] IN
    CASE e.op \in {"++pre", "++post"} -> Move(s, e.i, p + 1)
      [] e.op \in {"--pre", "--post"} -> Move(s, e.i, p - 1)
      [] e.op = "+=" -> Move(s, e.i, p + e.k)
      [] e.op = "-=" -> Move(s, e.i, p - e.k)
      [] e.op = "=" -> Move(s, e.i, s.p[Other(e.i)])
      [] e.op = "swap" -> [s EXCEPT !.p = <<s.p[2], s.p[1]>>]
      [] e.op = "begin" -> Move(s, e.i, 0)
      [] e.op = "end" -> Move(s, e.i, s.n)
      [] e.op \in {"w*", "w->"} -> Write(s, p, e.x)
      [] e.op = "w[]" -> Write(s, p + e.k, e.x)
      [] OTHER -> s
Answer(s, e) ==
    LET p == s.p[e.i]  q == s.p[Other(e.i)] IN
    CASE e.op = "++pre" -> <<p + 1>>  [] e.op = "++post" -> <<p>>
      [] e.op = "--pre" -> <<p - 1>>  [] e.op = "--post" -> <<p>>
      [] e.op \in {"+=", "+", "k+"} -> <<p + e.k>>
      [] e.op \in {"-=", "-"} -> <<p - e.k>>
      [] e.op = "diff" -> <<p - q>>
      [] e.op = "mixdiff" -> <<p - q>>                           \* with an iterator to const on either side
      [] e.op \in {"cmp", "mix1", "mix2"} -> <<B(p = q), B(p # q), B(p < q), B(p <= q), B(p > q), B(p >= q), IF p < q THEN -1 ELSE B(p > q)>>
      [] e.op \in {"*", "->"} -> <<Deref(s, p)>>
      [] e.op = "[]" -> <<Deref(s, p + e.k)>>
      [] e.op = "conv" -> <<p>>
      [] e.op = "all" -> [j \in 1..s.n |-> Deref(s, j - 1)]     \* a loop from begin to end
      [] OTHER -> <<>>
=============================================================================
