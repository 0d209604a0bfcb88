------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Exact arithmetic for the Graphrox specification.                        *)
(*                                                                         *)
(* TLC's integers are 32 bits wide, the implementation's ids are 64 bits   *)
(* wide and its averages are quotients of 128-bit quantities.  Two         *)
(* representations are used:                                               *)
(*                                                                         *)
(*  Word    W bytes, most significant first.  This is how the serialised   *)
(*          formats spell a u64 (W = 8); exhaustive models use W = 1.      *)
(*  BigNat  a sequence of bytes, least significant first, without          *)
(*          superfluous zeros; <<>> is 0.  Unbounded.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT W              \* bytes in a machine word

Byte == 0..255
IsWord(w) == /\ DOMAIN w = 1..W
             /\ \A i \in 1..W : w[i] \in Byte

WZero == [i \in 1..W |-> 0]
WMax  == [i \in 1..W |-> 255]

\* The word for a natural number TLC can hold.
RECURSIVE WordOf(_)
WordOfRec[n \in Nat, k \in 0..4] ==
    IF k = 0 THEN <<>> ELSE Append(WordOfRec[n \div 256, k - 1], n % 256)
WordOf(n) ==
    IF W <= 4 THEN WordOfRec[n, W]
    ELSE [i \in 1..(W - 4) |-> 0] \o WordOfRec[n, 4]

\* Comparisons are lexicographic.
WLt(a, b) == \E i \in 1..W : /\ a[i] < b[i]
                             /\ \A j \in 1..(i - 1) : a[j] = b[j]
WLe(a, b) == a = b \/ WLt(a, b)
WMax2(a, b) == IF WLt(a, b) THEN b ELSE a

\* Successor, for words other than the largest.
WInc(a) ==
    LET i == CHOOSE i \in 1..W : /\ a[i] # 255
                                 /\ \A j \in (i + 1)..W : a[j] = 255
    IN  [j \in 1..W |-> IF j < i THEN a[j] ELSE IF j = i THEN a[j] + 1 ELSE 0]

\* Predecessor, for words other than zero.
WDec(a) ==
    LET i == CHOOSE i \in 1..W : /\ a[i] # 0
                                 /\ \A j \in (i + 1)..W : a[j] = 0
    IN  [j \in 1..W |-> IF j < i THEN a[j] ELSE IF j = i THEN a[j] - 1 ELSE 255]

\* A word as a small natural number; only for words below 2^24.
WSmall(a) == \A i \in 1..(W - 3) : a[i] = 0
RECURSIVE WToIntRec(_, _)
WToIntRec(a, i) == IF i > W THEN 0 ELSE WToIntRec(a, i + 1) + a[i] * (256 ^ (W - i))
WToInt(a) == WToIntRec(a, IF W > 3 THEN W - 2 ELSE 1)

\* Quotient and remainder by a small number 1 <= n < 2^22: <<word, int>>.
RECURSIVE WDivRec(_, _, _, _, _)
WDivRec(a, n, i, rem, q) ==
    IF i > W THEN <<q, rem>>
    ELSE LET x == rem * 256 + a[i]
         IN  WDivRec(a, n, i + 1, x % n, Append(q, x \div n))
WDivMod(a, n) == WDivRec(a, n, 1, 0, <<>>)

----------------------------------------------------------------------------
(* BigNat *)

RECURSIVE BTrim(_)
BTrim(s) == IF s = <<>> THEN <<>>
            ELSE IF s[Len(s)] = 0 THEN BTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s

RECURSIVE BOf(_)
BOf(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o BOf(n \div 256)

\* From big-endian bytes of any length (a word, or a mantissa).
BFromBE(w) == LET n == Len(w) IN BTrim([i \in 1..n |-> w[n + 1 - i]])

\* To a word; only for numbers that fit.
WFromB(b) == [i \in 1..W |-> LET k == W + 1 - i IN IF k <= Len(b) THEN b[k] ELSE 0]
BFits(b) == Len(b) <= W

BLt(a, b) ==
    \/ Len(a) < Len(b)
    \/ /\ Len(a) = Len(b)
       /\ \E i \in 1..Len(a) : /\ a[i] < b[i]
                               /\ \A j \in (i + 1)..Len(a) : a[j] = b[j]
BLe(a, b) == a = b \/ BLt(a, b)
BMax2(a, b) == IF BLt(a, b) THEN b ELSE a

BDigit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE BAddRec(_, _, _, _, _)
BAddRec(a, b, i, c, acc) ==
    IF i > Len(a) /\ i > Len(b) THEN IF c = 0 THEN acc ELSE Append(acc, c)
    ELSE LET x == BDigit(a, i) + BDigit(b, i) + c
         IN  BAddRec(a, b, i + 1, x \div 256, Append(acc, x % 256))
BAdd(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE BAddRec(a, b, 1, 0, <<>>)

\* a - b, for b <= a.
RECURSIVE BSubRec(_, _, _, _, _)
BSubRec(a, b, i, c, acc) ==
    IF i > Len(a) THEN acc
    ELSE LET x == a[i] - BDigit(b, i) - c
         IN  BSubRec(a, b, i + 1, IF x < 0 THEN 1 ELSE 0,
                     Append(acc, IF x < 0 THEN x + 256 ELSE x))
BSub(a, b) == BTrim(BSubRec(a, b, 1, 0, <<>>))
BDiff(a, b) == IF BLt(a, b) THEN BSub(b, a) ELSE BSub(a, b)

\* Product: column sums (below 2^31 for operands up to 2^14 bytes), then carries.
RECURSIVE BColumn(_, _, _, _, _)
BColumn(a, b, k, i, hi) ==
    IF i > hi THEN 0 ELSE a[i] * b[k + 1 - i] + BColumn(a, b, k, i + 1, hi)
RECURSIVE BMulRec(_, _, _, _, _)
BMulRec(a, b, k, c, acc) ==
    IF k > Len(a) + Len(b) - 1
    THEN acc \o BOf(c)
    ELSE LET lo == IF k + 1 - Len(b) > 1 THEN k + 1 - Len(b) ELSE 1
             hi == IF k < Len(a) THEN k ELSE Len(a)
             x  == BColumn(a, b, k, lo, hi) + c
         IN  BMulRec(a, b, k + 1, x \div 256, Append(acc, x % 256))
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE BMulRec(a, b, 1, 0, <<>>)

\* How many binary digits a has.
BLog(a) == IF a = <<>> THEN 0
           ELSE 8 * (Len(a) - 1) + CHOOSE i \in 1..8 : 2 ^ (i - 1) <= a[Len(a)] /\ a[Len(a)] < 2 ^ i

\* a * 2^n.
BShl(a, n) ==
    IF a = <<>> THEN <<>>
    ELSE [i \in 1..(n \div 8) |-> 0] \o BMul(a, BOf(2 ^ (n % 8)))

\* Quotient and remainder by a small number 1 <= n < 2^22: <<BigNat, int>>.
RECURSIVE BDivSmallRec(_, _, _, _, _)
BDivSmallRec(a, n, i, rem, q) ==
    IF i = 0 THEN <<BTrim(q), rem>>
    ELSE LET x == rem * 256 + a[i]
         IN  BDivSmallRec(a, n, i - 1, x % n, <<x \div n>> \o q)
BDivSmall(a, n) == BDivSmallRec(a, n, Len(a), 0, <<>>)

\* floor(a / 2^n), and whether anything was cut off.
BShr(a, n) ==
    LET k == n \div 8
    IN  IF k >= Len(a) THEN <<>>
        ELSE BDivSmall(SubSeq(a, k + 1, Len(a)), 2 ^ (n % 8))[1]

\* Binary long division of any two numbers (b # 0): floor(a / b).
RECURSIVE BDivRec(_, _, _, _, _)
BDivRec(a, b, i, rem, q) ==
    IF i = 0 THEN q
    ELSE LET bit == (a[((i - 1) \div 8) + 1] \div (2 ^ ((i - 1) % 8))) % 2
             r2  == BAdd(BAdd(rem, rem), BOf(bit))
             ge  == BLe(b, r2)
         IN  BDivRec(a, b, i - 1, IF ge THEN BSub(r2, b) ELSE r2,
                     BAdd(BAdd(q, q), IF ge THEN <<1>> ELSE <<>>))
BDiv(a, b) == IF BLt(a, b) THEN <<>>
              ELSE IF Len(b) <= 2
                   THEN BDivSmall(a, IF Len(b) = 1 THEN b[1] ELSE b[1] + 256 * b[2])[1]
                   ELSE BDivRec(a, b, 8 * Len(a), <<>>, <<>>)

\* Decimal digits, most significant first; <<0>> for zero.
RECURSIVE BDecimalRec(_, _)
BDecimalRec(a, acc) ==
    IF a = <<>> THEN acc
    ELSE LET d == BDivSmall(a, 10000)
             r == d[2]
         IN  BDecimalRec(d[1], <<r \div 1000, (r \div 100) % 10, (r \div 10) % 10, r % 10>> \o acc)
RECURSIVE NoLeadingZeros(_)
NoLeadingZeros(s) == IF Len(s) > 1 /\ s[1] = 0 THEN NoLeadingZeros(Tail(s)) ELSE s
BDecimal(a) == IF a = <<>> THEN <<0>> ELSE NoLeadingZeros(BDecimalRec(a, <<>>))

RECURSIVE BPow10(_)
BPow10(n) == IF n = 0 THEN <<1>>
             ELSE LET h == TLCEval(BPow10(n \div 2))
                      q == BMul(h, h)
                  IN  IF n % 2 = 0 THEN q ELSE BMul(q, <<10>>)

\* Quotient of a word by another (b # 0), as a word.
WDiv(a, b) ==
    IF WSmall(b) /\ WToInt(b) < 4194304 THEN WDivMod(a, WToInt(b))[1]
    ELSE WFromB(BDiv(BFromBE(a), BFromBE(b)))

\* Saturating sum.
WAddSat(a, b) == LET s == BAdd(BFromBE(a), BFromBE(b))
                 IN  IF BFits(s) THEN WFromB(s) ELSE WMax
=============================================================================
