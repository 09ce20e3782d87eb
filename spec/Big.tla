-------------------------------- MODULE Big --------------------------------
(* Natural numbers of any size, because TLC's own integers are 32 bit.        *)
(* A number is a little-endian sequence of base 4096 digits without leading   *)
(* (that is: trailing in the sequence) zeros; zero is <<>>.                   *)
EXTENDS Integers, Sequences

BB == 4096

P2 == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536,
        131072,262144,524288,1048576,2097152,4194304,8388608,16777216,
        33554432,67108864,134217728,268435456,536870912,1073741824>>
Pow2(k) == P2[k + 1]                          \* 0 <= k <= 30

BDig(x, i) == IF i <= Len(x) THEN x[i] ELSE 0

RECURSIVE BStrip(_)
BStrip(x) == IF x = <<>> THEN x
             ELSE IF x[Len(x)] = 0 THEN BStrip(SubSeq(x, 1, Len(x) - 1)) ELSE x

RECURSIVE BFromInt(_)                          \* from a TLC natural
BFromInt(n) == IF n = 0 THEN <<>> ELSE <<n % BB>> \o BFromInt(n \div BB)

RECURSIVE BToIntFrom(_, _)
BToIntFrom(x, i) == IF i > Len(x) THEN 0 ELSE x[i] + BB * BToIntFrom(x, i + 1)
BToInt(x) == BToIntFrom(x, 1)                  \* TLC raises an error on overflow

RECURSIVE BCmpFrom(_, _, _)
BCmpFrom(x, y, i) == IF i = 0 THEN 0
                     ELSE IF x[i] < y[i] THEN -1
                     ELSE IF x[i] > y[i] THEN 1 ELSE BCmpFrom(x, y, i - 1)
BCmp(x, y) == IF Len(x) < Len(y) THEN -1
              ELSE IF Len(x) > Len(y) THEN 1 ELSE BCmpFrom(x, y, Len(x))

RECURSIVE BAddC(_, _, _, _, _)
BAddC(x, y, i, n, c) ==
    IF i > n THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET s == BDig(x, i) + BDig(y, i) + c
         IN <<s % BB>> \o BAddC(x, y, i + 1, n, s \div BB)
BAdd(x, y) == BAddC(x, y, 1, IF Len(x) > Len(y) THEN Len(x) ELSE Len(y), 0)

RECURSIVE BSubC(_, _, _, _)
BSubC(x, y, i, b) ==
    IF i > Len(x) THEN <<>>
    ELSE LET s == x[i] - BDig(y, i) - b
         IN IF s < 0 THEN <<s + BB>> \o BSubC(x, y, i + 1, 1)
                     ELSE <<s>> \o BSubC(x, y, i + 1, 0)
BSub(x, y) == BStrip(BSubC(x, y, 1, 0))         \* requires x >= y

RECURSIVE BColSum(_, _, _, _, _)
BColSum(x, y, k, i, hi) == IF i > hi THEN 0 ELSE x[i] * y[k + 1 - i] + BColSum(x, y, k, i + 1, hi)
RECURSIVE BMulC(_, _, _, _)
BMulC(x, y, k, c) ==
    IF k > Len(x) + Len(y) - 1 THEN BFromInt(c)
    ELSE LET lo == IF k + 1 - Len(y) > 1 THEN k + 1 - Len(y) ELSE 1
             hi == IF k < Len(x) THEN k ELSE Len(x)
             s  == BColSum(x, y, k, lo, hi) + c
         IN <<s % BB>> \o BMulC(x, y, k + 1, s \div BB)
BMul(x, y) == IF x = <<>> \/ y = <<>> THEN <<>> ELSE BStrip(BMulC(x, y, 1, 0))

BZeros(k) == [i \in 1..k |-> 0]
BMulSmall(x, d) == BMul(x, BFromInt(d))

BShl(x, k) == IF x = <<>> THEN <<>>
              ELSE BZeros(k \div 12) \o (IF k % 12 = 0 THEN x ELSE BMul(x, <<Pow2(k % 12)>>))

BShrBits(x, r) ==                               \* 0 < r < 12
    BStrip([i \in 1..Len(x) |-> (x[i] \div Pow2(r)) + (BDig(x, i + 1) % Pow2(r)) * Pow2(12 - r)])
BShr(x, k) == LET d == k \div 12 IN
              IF d >= Len(x) THEN <<>>
              ELSE LET y == SubSeq(x, d + 1, Len(x))
                   IN IF k % 12 = 0 THEN y ELSE BShrBits(y, k % 12)

RECURSIVE DigBits(_)
DigBits(d) == IF d = 0 THEN 0 ELSE 1 + DigBits(d \div 2)
BBits(x) == IF x = <<>> THEN 0 ELSE 12 * (Len(x) - 1) + DigBits(x[Len(x)])
BBit(x, k) == (BDig(x, (k \div 12) + 1) \div Pow2(k % 12)) % 2
BLowNonZero(x, k) ==                            \* some bit below position k is set
    \/ \E i \in 1..Len(x) : i <= k \div 12 /\ x[i] # 0
    \/ BDig(x, (k \div 12) + 1) % Pow2(k % 12) # 0
BOdd(x) == x # <<>> /\ x[1] % 2 = 1

(* Long division (Knuth's algorithm D on base 4096 digits). *)
RECURSIVE BQDigit(_, _, _)
BQDigit(r, y, q) == LET p == BMul(y, BFromInt(q)) IN
                    IF BCmp(p, r) <= 0 THEN [q |-> q, r |-> BSub(r, p)] ELSE BQDigit(r, y, q - 1)
BQHat(r, y) == LET n == Len(y) IN
               IF Len(r) < n THEN 0
               ELSE LET t == (IF Len(r) > n THEN r[n + 1] * BB ELSE 0) + r[n]
                        q == t \div y[n]
                    IN IF q > BB - 1 THEN BB - 1 ELSE q
RECURSIVE BDivLoop(_, _, _, _, _)
BDivLoop(x, y, i, r, q) ==
    IF i = 0 THEN [q |-> BStrip(q), r |-> r]
    ELSE LET r1 == BStrip(<<x[i]>> \o r)
             d  == BQDigit(r1, y, BQHat(r1, y))
         IN BDivLoop(x, y, i - 1, d.r, <<d.q>> \o q)
BDivMod(x, y) ==                                \* requires y # 0
    LET sh == 12 - DigBits(y[Len(y)])           \* normalise the divisor
        d  == BDivLoop(BShl(x, sh), BShl(y, sh), Len(BShl(x, sh)), <<>>, <<>>)
    IN [q |-> d.q, r |-> BShr(d.r, sh)]
=============================================================================
