--------------------------------- MODULE Util ---------------------------------
(* What dsga's compile-time vocabulary says: index sequences, concepts, promotion between *)
(* element types, names of types, deduced types, and the static description of every      *)
(* vector type.  Types are written as letters:                                            *)
(*   b bool  i int  u unsigned  l long long  m unsigned long long  f float  d double      *)
(*   z std::size_t (unsigned long here)                  -- the element types of dsga     *)
(*   a signed char  h unsigned char  c char  s short  t unsigned short  g long  e long double  *)
(*   kX const X, rX X & -- not element types                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ---------------------------------------------------------------- index sequences *)
(* from s towards e, one by one, down when e is smaller; e itself excluded / included *)
Range(s, e) == IF s <= e THEN [i \in 1..(e - s) |-> s + i - 1] ELSE [i \in 1..(s - e) |-> s - i + 1]
Closed(s, e) == IF s <= e THEN [i \in 1..(e - s + 1) |-> s + i - 1] ELSE [i \in 1..(s - e + 1) |-> s - i + 1]
Rev(x) == [i \in 1..Len(x) |-> x[Len(x) + 1 - i]]
Count0(n) == [i \in 1..n |-> i - 1]
Size14(n) == n >= 1 /\ n <= 4
Indexable(size, count, ix) == Len(ix) = count /\ Size14(count) /\ \A i \in 1..Len(ix) : ix[i] < size
Distinct(ix) == \A i, j \in 1..Len(ix) : i # j => ix[i] # ix[j]

(* ---------------------------------------------------------------- element types *)
Signed == {"i", "l"}
Unsigned == {"u", "m", "z"}
Floats == {"f", "d"}
NonBool == Signed \cup Unsigned \cup Floats
Elements == NonBool \cup {"b"}
Concept(name, t) ==
    CASE name = "bool_scalar" -> t = "b"
      [] name = "signed_scalar" -> t \in Signed
      [] name = "unsigned_scalar" -> t \in Unsigned
      [] name = "numeric_integral_scalar" -> t \in Signed \cup Unsigned
      [] name = "floating_point_scalar" -> t \in Floats
      [] name = "non_bool_scalar" -> t \in NonBool
      [] name = "dimensional_scalar" -> t \in Elements
(* C++'s common type of two arithmetic types (64 bit long) *)
Bare(t) == IF \E x \in Elements : t = "k" \o x \/ t = "r" \o x THEN CHOOSE x \in Elements : t = "k" \o x \/ t = "r" \o x ELSE t
Promoted(t) == IF t \in {"b", "a", "h", "c", "s", "t"} THEN "i" ELSE t
Rank == [i |-> 1, u |-> 1, g |-> 2, z |-> 2, l |-> 3, m |-> 3]
IsUns(t) == t \in {"u", "z", "m"}
Bytes == [i |-> 4, u |-> 4, g |-> 8, z |-> 8, l |-> 8, m |-> 8]
UnsOf == [i |-> "u", g |-> "z", l |-> "m"]
CommonInt(x, y) ==
    IF x = y THEN x
    ELSE IF IsUns(x) = IsUns(y) THEN (IF Rank[x] >= Rank[y] THEN x ELSE y)
    ELSE LET u == IF IsUns(x) THEN x ELSE y  s == IF IsUns(x) THEN y ELSE x IN
         IF Rank[u] >= Rank[s] THEN u ELSE IF Bytes[s] > Bytes[u] THEN s ELSE UnsOf[s]
CommonT(x, y) ==
    IF x = y THEN x
    ELSE IF "e" \in {x, y} THEN "e" ELSE IF "d" \in {x, y} THEN "d" ELSE IF "f" \in {x, y} THEN "f"
    ELSE CommonInt(Promoted(x), Promoted(y))
Promotes(t, u) == CommonT(Bare(t), Bare(u)) = Bare(u)
Implicit(t, u) == t \in NonBool /\ u \in NonBool /\ Promotes(t, u)

(* ---------------------------------------------------------------- names of types *)
Prefix == {<<"b", "b">>, <<"i", "i">>, <<"u", "u">>, <<"ll", "l">>, <<"ull", "m">>, <<"", "f">>, <<"f", "f">>, <<"d", "d">>}
VecNames == {<<p[1] \o "scal", "V", p[2], <<1>>>> : p \in Prefix} \cup {<<p[1] \o "vec" \o ToString(n), "V", p[2], <<n>>>> : p \in Prefix, n \in 2..4}
ViewNames == {<<p[1] \o "view" \o ToString(n), "W", p[2], <<n>>>> : p \in Prefix, n \in 1..4}
             \cup {<<"c" \o p[1] \o "view" \o ToString(n), "WR", p[2], <<n>>>> : p \in Prefix, n \in 1..4}
MatNames == {<<(IF t = "d" THEN "d" ELSE "") \o "mat" \o ToString(c) \o "x" \o ToString(r), "M", t, <<c, r>>>> : t \in {"f", "d"}, c \in 2..4, r \in 2..4}
            \cup {<<(IF t = "d" THEN "d" ELSE "") \o "mat" \o ToString(n), "M", t, <<n, n>>>> : t \in {"f", "d"}, n \in 2..4}
Names == VecNames \cup ViewNames \cup MatNames

(* ---------------------------------------------------------------- what a vector type says of itself *)
(* k: V basic_vector, X view_vector, W / WR basic_view (of const), B storage_wrapper, Y / YR view_wrapper (of const),   *)
(*    Z / ZR indexed_vector, U / UR indexed_view; n: elements behind it, ix: the components it shows                    *)
Plain(k) == k \notin {"Z", "ZR", "U", "UR"}
Describes(d) ==
    LET n == Len(d.ix) IN
    /\ d.length = n /\ d.size = n /\ d.tsize = n                       \* length(), size(), std::tuple_size
    /\ d.offs = d.ix /\ d.seq = d.ix                                   \* offsets, sequence()
    /\ Plain(d.k) => d.ix = Count0(d.n)
    /\ d.vt = d.t /\ d.te = d.t                                        \* value_type, std::tuple_element
    /\ d.k # "WR" => d.writable = Distinct(d.ix)                       \* Writable
    /\ d.mutable = (d.k \notin {"WR", "YR", "ZR", "UR"})               \* Mutable
    /\ d.lval = (Distinct(d.ix) /\ d.mutable)                           \* elements can be written through [], iterators
    /\ d.clval = FALSE                                                 \* never through a const object
    /\ d.it = (IF Plain(d.k) THEN "contiguous" ELSE "random")          \* the iterators' category
    /\ d.copyable = TRUE                                               \* copy constructible
    /\ d.k # "X" => d.standard                                           \* standard layout
    /\ Plain(d.k) => d.assignable = (d.k \in {"V", "B", "X"})         \* from its own type; views are not, so as not to be rebound
    /\ (d.k \in {"V", "B", "Z", "ZR"}) => d.bytes = d.n * d.each       \* nothing but the elements

UtilOk(ev) ==
    CASE ev.q = "range" -> ev.r = Range(ev.a[1], ev.a[2])
      [] ev.q = "closed" -> ev.r = Closed(ev.a[1], ev.a[2])
      [] ev.q \in {"arrayseq", "seqarray"} -> ev.r = ev.a
      [] ev.q = "reverse" -> ev.r = Rev(ev.a)
      [] ev.q = "negative" -> ev.ok = FALSE                            \* an array with a negative element is no sequence
      [] ev.q = "indexable" -> ev.ok = Indexable(ev.size, ev.count, ev.a)
      [] ev.q = "writable" -> Indexable(ev.size, Len(ev.a), ev.a) /\ ev.ok = Distinct(ev.a)
      [] ev.q = "concept" -> ev.ok = Concept(ev.name, ev.t)
      [] ev.q = "dimsize" -> ev.ok = Size14(ev.n)
      [] ev.q = "storage" -> ev.ok = (ev.t \in Elements /\ Size14(ev.n))
      [] ev.q = "promotes" -> ev.ok = Promotes(ev.t, ev.u)
      [] ev.q = "implicit" -> ev.ok = Implicit(ev.t, ev.u)
      [] ev.q = "underlying" -> ev.r = ev.a /\ ev.t = ev.u
      [] ev.q = "name" -> <<ev.name, ev.k, ev.t, ev.dims>> \in Names
      [] ev.q = "ctad" -> ev.t = ev.from[1] /\ ev.n = Len(ev.from)     \* class template argument deduction: the first scalar's type
      [] ev.q = "ctadv" -> ev.t = ev.u /\ ev.n = ev.m                  \* from another vector: its type and length
      [] ev.q = "type" -> Describes(ev)
AllNames == Cardinality(Names)
=============================================================================
