-------------------------------- MODULE GenCtor --------------------------------
(* The argument lists the constructor driver is written from: every list of up to four   *)
(* parts (one letter names are scalars, V vectors, M a matrix) for a vector of N         *)
(* components, and random lists for a matrix of N.                                       *)
EXTENDS Ctor, Json, IOUtils
VARIABLE done
N == atoi(IOEnv.N)
Random == atoi(IOEnv.RANDOM)
Parts == {<<"S", 1>>, <<"V", 1>>, <<"V", 2>>, <<"V", 3>>, <<"V", 4>>, <<"M", 4>>, <<"M", 6>>, <<"M", 9>>}
MParts == {p \in Parts : p[1] # "M"}
Counts(l) == [i \in 1..Len(l) |-> l[i][2]]
(* prefixes that still need another argument *)
RECURSIVE Open(_)
Open(k) == IF k = 0 THEN {<<>>} ELSE
    LET p == Open(k - 1) IN p \cup {Append(l, x) : l \in {q \in p : Len(q) = k - 1}, x \in {y \in Parts : y[2] < N}}
OpenLists(n) == {l \in Open(n - 1) : SumSeq(Counts(l)) < N}
LegalLists(n) == {m \in {Append(l, x) : l \in OpenLists(n), x \in Parts} : Legal(N, Counts(m))}
ShortLists(n) == UNION {[1..k -> Parts] : k \in 1..3}
IllegalLists(n) == {l \in ShortLists(n) \cup {Append(m, x) : m \in LegalLists(n), x \in {<<"S", 1>>, <<"V", 1>>, <<"V", 2>>}} : ~Legal(N, Counts(l))}
RECURSIVE Draw(_, _)
Draw(l, n) == IF SumSeq(Counts(l)) >= n THEN l
              ELSE LET k == RandomElement(1..6) IN Draw(Append(l, IF k <= 2 THEN <<"S", 1>> ELSE <<"V", k - 2>>), n)
Show(what, S) == \A l \in S : PrintT("LIST " \o ToJson([what |-> what, parts |-> l]))
Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ IF Random = 0 THEN Show("legal", LegalLists(N)) /\ Show("illegal", IllegalLists(N))
           ELSE \A i \in 1..Random :
                LET d == Draw(<<>>, N + 0 * i) IN
                /\ Show("legal", {d})
                /\ Show("illegal", {Append(d, <<"S", 1>>), Append(d, <<"V", 4>>)} \cup (IF Len(d) > 1 THEN {SubSeq(d, 1, Len(d) - 1)} ELSE {}))
Spec == Init /\ [][Next]_done
=============================================================================
