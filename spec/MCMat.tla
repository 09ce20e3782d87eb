--------------------------------- MODULE MCMat ---------------------------------
(* The algebra the matrix properties claim, decided for the specification's own     *)
(* determinant, adjugate and products on every small integer matrix.                *)
EXTENDS Mat
CONSTANT N
Ints == IF N = 2 THEN {-3, -1, 0, 1, 2, 5} ELSE {-1, 0, 2}
VARIABLE A                                     \* a matrix as columns of integers
XM(B) == [c \in 1..Len(B) |-> [r \in 1..Len(B[c]) |-> XInt(B[c][r])]]
Init == A \in [1..N -> [1..N -> Ints]]
Next == UNCHANGED A
Spec == Init /\ [][Next]_A
Same0(x, y) == XEq(x, y)
T(B) == [r \in 1..N |-> [c \in 1..N |-> B[c][r]]]
SwapC(B, i, j) == [c \in 1..N |-> B[IF c = i THEN j ELSE IF c = j THEN i ELSE c]]
RECURSIVE Laplace(_)
Laplace(B) == IF Len(B) = 1 THEN B[1][1]
              ELSE LET L[c \in 0..Len(B)] == IF c = 0 THEN XZero
                          ELSE LET x == XTimes(B[c][1], Laplace(Minor(B, c, 1))) IN XPlus(L[c - 1], IF c % 2 = 0 THEN XNeg(x) ELSE x)
                   IN L[Len(B)]
Leibniz == Same0(XDet(XM(A)), Laplace(XM(A)))
Transposed == Same0(XDet(XM(A)), XDet(XM(T(A))))
Swapped == \A i, j \in 1..N : i < j => Same0(XDet(XM(SwapC(A, i, j))), XNeg(XDet(XM(A))))
(* A adj(A) = det(A) I, column by column *)
Adjugate == LET B == XM(A)  d == XDet(B) IN
    \A c, r \in 1..N :
        LET row == [k \in 1..N |-> B[k][r]]
            col == [k \in 1..N |-> XCofactor(B, k, c)]        \* column c of the adjugate is made of row c's cofactors
        IN Same0(XDot(row, col), IF c = r THEN d ELSE XZero)
=============================================================================
