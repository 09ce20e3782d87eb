-------------------------------- MODULE GenOffers --------------------------------
(* The expressions the offer driver asks the compiler about: for every operation, every     *)
(* pair of element types (T on the left) and every pair of shapes, on kinds drawn at random.*)
EXTENDS Offers, Json, IOUtils
VARIABLE done
T == IOEnv.T
Types == {"i", "u", "l", "m", "z", "f", "d", "b"}
Floats == {"f", "d"}
VecKinds == {"V", "VC", "Z", "ZC", "ZR", "W", "WC", "WR", "WZ", "WRZ", "X", "XC", "XZ"}
KindOf(n) == RandomElement(IF n = 1 THEN VecKinds \ {"ZR"} ELSE VecKinds)
Vec(t, n) == [k |-> KindOf(n), t |-> t, n |-> n]
(* mostly writable ones, for left-hand sides *)
Dest(t, n) == [k |-> IF RandomElement(1..3) = 1 THEN KindOf(n) ELSE RandomElement({"V", "Z", "W", "WZ", "X", "XZ"}), t |-> t, n |-> n]
Sca(t) == [k |-> "S", t |-> t, n |-> 1]
Matx(t, c, r) == [k |-> "M", t |-> t, c |-> c, r |-> r]
Arg(t, n) == IF n = 0 THEN Sca(t) ELSE Vec(t, n)
Fresh(t, n) == IF n = 0 THEN Sca(t) ELSE [k |-> RandomElement({"V", "X"}), t |-> t, n |-> n]
Show(r) == PrintT("MAY " \o ToJson(r))
Two == BinOps \cup {"==", "!=", "equal", "notEqual", "lessThan", "lessThanEqual", "greaterThan", "greaterThanEqual", "min", "max", "mod", "step", "pow",
        "atan", "reflect", "dot", "cross", "distance", "swap"}
One1 == FloatFns \cup BoolFns \cup {"abs", "sign", "length", "normalize", "cross_matrix", "determinant"}
Shapes == (2..4) \X (2..4)
Ops == {"+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"}
Vecs(z) ==
    /\ \A q \in Two, u \in Types, n \in 0..4, m \in 0..4 : n + m > 0 => Show([q |-> q, x |-> Arg(T, n), y |-> Arg(u, m)])
    /\ \A o \in Ops, u \in Types, n \in 1..4, m \in 0..4 : Show([q |-> "compound", op |-> o, x |-> Dest(T, n), y |-> Arg(u, m)])
    /\ \A u \in Types, n \in 1..4, m \in 0..4 : \A i \in 1..3 : Show([q |-> "=", x |-> Dest(T, n), y |-> Arg(u, m)])
    /\ \A n \in 2..4 : LET rep == [k |-> "ZR", t |-> T, n |-> n] IN Show([q |-> "=", x |-> rep, y |-> rep])
    /\ \A u \in Types, n \in 0..4, m \in 0..4 : Show([q |-> "convert", x |-> Arg(T, n), y |-> Fresh(u, m)])
    (* triples: mostly alike, so that both answers come up *)
    /\ \A q \in {"mix", "clamp", "smoothstep", "fma"} : \A i \in 1..250 :
        LET n == RandomElement(1..4)
            near(m) == IF RandomElement(1..6) = 1 THEN RandomElement(0..4) ELSE IF RandomElement(1..3) = 1 THEN 0 ELSE m
            type(t) == IF RandomElement(1..6) = 1 THEN RandomElement(Types) ELSE IF RandomElement(1..8) = 1 THEN "b" ELSE t
        IN Show([q |-> q, x |-> Arg(type(T), near(n)), y |-> Arg(type(T), near(n)), z |-> Arg(type(T), near(n))])
    /\ \A n \in 1..4, k \in VecKinds : (n = 1 => k # "ZR") =>
        /\ \A q \in Writes \cup One1 \cup {"pre++", "pre--", "post++", "post--"} : Show([q |-> q, x |-> [k |-> k, t |-> T, n |-> n]])
        /\ \A m \in 1..5 : Show([q |-> "set", m |-> m, x |-> [k |-> k, t |-> T, n |-> n]])
        /\ \A o \in {"+", "-", "~", "!"} : Show([q |-> "unary", op |-> o, x |-> [k |-> k, t |-> T, n |-> n]])
        /\ \A k2 \in VecKinds : (n = 1 => k2 # "ZR") => Show([q |-> "swap", x |-> [k |-> k, t |-> T, n |-> n], y |-> [k |-> k2, t |-> T, n |-> n]])
        /\ \A i \in 1..12 : LET w == RandomElement(UNION {[1..j -> 1..4] : j \in 1..4}) IN
            k \in {"V", "VC", "W", "WC", "WR", "X", "XC"} => Show([q |-> "name", word |-> w, x |-> [k |-> k, t |-> T, n |-> n]])
Mats(z) == T \in Floats =>
    \A s \in Shapes : LET x == Matx(T, s[1], s[2]) IN
        /\ \A p \in Shapes, u \in Floats : LET y == Matx(u, p[1], p[2]) IN
            \A q \in {"+", "-", "*", "/", "%", "==", "matrixCompMult", "=", "convert", "swap"} : Show([q |-> q, x |-> x, y |-> y])
        /\ \A u \in Types, n \in 0..4 : \A q \in {"+", "-", "*", "/", "&", "=", "=="} :
            /\ Show([q |-> q, x |-> x, y |-> Arg(u, n)])
            /\ q = "=" \/ Show([q |-> q, x |-> Arg(u, n), y |-> x])
        /\ \A q \in {"determinant", "inverse", "transpose", "any", "floor", "pre++", "post--"} : Show([q |-> q, x |-> x])
        /\ \A o \in {"+", "*"}, u \in Floats : Show([q |-> "compound", op |-> o, x |-> x, y |-> Matx(u, s[1], s[2])]) /\ Show([q |-> "compound", op |-> o, x |-> x, y |-> Arg(u, s[1])])
        /\ \A n \in 0..4 : Show([q |-> "convert", x |-> Arg(T, n), y |-> x]) /\ Show([q |-> "convert", x |-> x, y |-> Fresh(T, n)])
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ Vecs(0) /\ Mats(0)
Spec == Init /\ [][Next]_done
=============================================================================
