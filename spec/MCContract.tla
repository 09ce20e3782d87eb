------------------------------ MODULE MCContract ------------------------------
(* An iterator that is only ever moved by allowed calls: the contract of Contract.tla *)
(* keeps it between begin and end, is no stricter than that, and can be undone.       *)
EXTENDS Contract
CONSTANT N
VARIABLE p
Distances == ((0 - N) - 2)..(N + 2)
Far == {2147483647, 0 - 2147483647}
Moves == {"++", "_++", "--", "_--", "+=", "+", "k+", "-=", "-"}
One1(op) == IF op \in {"++", "_++", "--", "_--"} THEN {1} ELSE Distances \cup Far
Init == p \in 0..N
Next == \E op \in Moves : \E k \in One1(op) : StepDefined(op, N, p, k) /\ p' = StepTo(op, p, k)
Spec == Init /\ [][Next]_p
InBounds == p \in 0..N
Exactly1 == \A op \in Moves : \A k \in One1(op) \ Far : StepDefined(op, N, p, k) <=> StepTo(op, p, k) \in 0..N
FarOut == \A op \in {"+=", "+", "k+", "-=", "-", "[]"} : \A k \in Far : ~StepDefined(op, N, p, k)
Undone == \A k \in Distances : StepDefined("+=", N, p, k) =>
             StepDefined("-=", N, p + k, k) /\ StepTo("-=", StepTo("+=", p, k), k) = p /\ Relation("-", p + k, p) = k
Reads == /\ StepDefined("*", N, p, 0) <=> p # N
         /\ \A k \in Distances : StepDefined("[]", N, p, k) <=> StepDefined("+", N, p, k) /\ StepDefined("*", N, p + k, 0)
Total == \A q \in 0..N : Relation("<", p, q) + Relation("==", p, q) + Relation(">", p, q) = 1 /\ Relation("<=", p, q) = 1 - Relation(">", p, q)
                         /\ (Relation("-", p, q) = 0) = (Relation("==", p, q) = 1)
(* indexes: the first element below zero or at the size is refused, whatever the type *)
Int32(n) == [t |-> "i", k |-> "S", v |-> <<IF n >= 0 THEN Fix("i", BFromInt(n)) ELSE Neg("i", Fix("i", BFromInt(-n)))>>]
Indexes == \A k \in Distances : Inside(Int32(k), N) <=> k \in 0..(N - 1)
Places == \A k \in 0..(N - 1) : Place(Int32(k), N) = k + 1
=============================================================================
