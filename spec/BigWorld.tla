------------------------------- MODULE BigWorld -------------------------------
(* The world of the generated test programs (tools/gen_store.py declares the same).   *)
EXTENDS Integers, Sequences
TheWorld == [
  objs |-> [ a  |-> [b |-> 1,  n |-> 4], a2 |-> [b |-> 5,  n |-> 4],      \* basic_vector<T, 4>
             v3 |-> [b |-> 9,  n |-> 3], w3 |-> [b |-> 12, n |-> 3],      \* basic_vector<T, 3>
             v2 |-> [b |-> 15, n |-> 2], w2 |-> [b |-> 17, n |-> 2],      \* basic_vector<T, 2>
             v1 |-> [b |-> 19, n |-> 1], w1 |-> [b |-> 20, n |-> 1],      \* basic_vector<T, 1>
             s  |-> [b |-> 21, n |-> 10],                                 \* T s[10]
             e  |-> [b |-> 31, n |-> 4], e2 |-> [b |-> 35, n |-> 4],      \* view_vector<T, 4>
             f  |-> [b |-> 39, n |-> 3], g |-> [b |-> 42, n |-> 2], h |-> [b |-> 44, n |-> 1],
             n4 |-> [b |-> 45, n |-> 4], n3 |-> [b |-> 49, n |-> 3], n2 |-> [b |-> 52, n |-> 2],   \* constructed again and again
             x4 |-> [b |-> 54, n |-> 4],                                  \* view_vector<T, 4>, constructed again and again
             ar |-> [b |-> 58, n |-> 3],                                  \* std::array<T, 3>
             ua |-> [b |-> 61, n |-> 4], ub |-> [b |-> 65, n |-> 2], uf |-> [b |-> 67, n |-> 3],   \* element type U
             ma |-> [b |-> 70, n |-> 3], mb |-> [b |-> 73, n |-> 3],      \* the columns of a basic_matrix<T, 2, 3>
             na |-> [b |-> 76, n |-> 3], nb |-> [b |-> 79, n |-> 3],
             MM |-> [b |-> 70, n |-> 6], NN |-> [b |-> 76, n |-> 6],      \* the matrices themselves
             t1 |-> [b |-> 82, n |-> 4], t2 |-> [b |-> 86, n |-> 4],      \* storage_wrapper<T, 4>
             iv |-> [b |-> 90, n |-> 4], iw |-> [b |-> 94, n |-> 3] ],    \* indexed_vector<T, 4, 3, 2, 0, 1>, indexed_vector<T, 3, 2, 2, 0>
  views |-> [p |-> 4, p2 |-> 4, q |-> 3, q2 |-> 3, r |-> 2, r2 |-> 2, o |-> 1, o2 |-> 1,
             cp |-> 4, cr |-> 2,                                          \* cp, cr: views on const
             vw |-> 3, vx |-> 3, cw |-> 3,                                \* view_wrapper<T, 3> (cw: on const)
             jv |-> 4],                                                   \* indexed_view<T, 4, 3, 3, 1, 2>
  cells |-> 96 ]
(* standalone swizzle objects can only be used as the components they name *)
Fixed == [iv |-> <<2, 0, 1>>, iw |-> <<2, 0>>, jv |-> <<3, 1, 2>>]
InitBind == [p |-> 21, p2 |-> 26, q |-> 22, q2 |-> 27, r |-> 23, r2 |-> 1, o |-> 24, o2 |-> 9, cp |-> 23, cr |-> 21, vw |-> 24, vx |-> 28, cw |-> 22, jv |-> 25]
=============================================================================
