------------------------------ MODULE MC_Words ------------------------------
(***************************************************************************)
(* The arithmetic and the number formatting the specification relies on,    *)
(* against TLC's own integers (W = 2).                                      *)
(***************************************************************************)
EXTENDS Render

CONSTANT Deep           \* all cases, not some

VARIABLE n              \* walks through the cases

Wd(i)  == WordOf(i)
Val(w) == w[1] * 256 + w[2]
RECURSIVE BVal(_)
BVal(b) == IF b = <<>> THEN 0 ELSE b[1] + 256 * BVal(Tail(b))

Nums == IF ~Deep THEN {0, 1, 2, 7, 10, 99, 255, 256, 1000, 32768, 65535} ELSE {0, 1, 2, 3, 7, 8, 9, 10, 99, 127, 128, 255, 256, 257, 511, 512, 999, 1000, 4095, 4096, 9999, 10000,
         32767, 32768, 65279, 65280, 65534, 65535}
Pow10(k) == 10 ^ k

Init0 == store = <<>> /\ n = 0
Next0 == n < 64 /\ n' = n + 1 /\ UNCHANGED store
Spec0 == Init0 /\ [][Next0]_<<store, n>>

WordOps == n = 0 => \A i \in Nums :
    /\ IsWord(Wd(i)) /\ Val(Wd(i)) = i /\ WToInt(Wd(i)) = i
    /\ i # 65535 => Val(WInc(Wd(i))) = i + 1
    /\ i # 0 => Val(WDec(Wd(i))) = i - 1
    /\ \A j \in Nums : /\ WLt(Wd(i), Wd(j)) = (i < j)
                       /\ WLe(Wd(i), Wd(j)) = (i <= j)
                       /\ Val(WMax2(Wd(i), Wd(j))) = (IF i < j THEN j ELSE i)
                       /\ j # 0 => /\ Val(WDiv(Wd(i), Wd(j))) = i \div j
                                   /\ Val(WDivMod(Wd(i), j)[1]) = i \div j
                                   /\ WDivMod(Wd(i), j)[2] = i % j
                       /\ Val(WAddSat(Wd(i), Wd(j))) = (IF i + j > 65535 THEN 65535 ELSE i + j)

BigOps == n = 1 => \A i \in Nums : \A j \in Nums :
    LET a == BOf(i)
        b == BOf(j)
    IN  /\ BVal(a) = i
        /\ BVal(BAdd(a, b)) = i + j
        /\ i >= j => BVal(BSub(a, b)) = i - j
        /\ BVal(BDiff(a, b)) = (IF i < j THEN j - i ELSE i - j)
        /\ BLt(a, b) = (i < j) /\ BLe(a, b) = (i <= j)
        /\ (i <= 32767 \/ j <= 32767) => BVal(BMul(a, b)) = i * j
        /\ j # 0 => BVal(BDiv(a, b)) = i \div j

\* Laws for numbers beyond TLC's own.
Bigs == IF ~Deep THEN {BPow10(18), BSub(BShl(<<1>>, 64), <<1>>), <<3>>} ELSE {BOf(65535), BPow10(9), BPow10(18), BPow10(19), BShl(<<1>>, 63), BShl(<<1>>, 64), BSub(BShl(<<1>>, 64), <<1>>),
         BSub(BShl(<<1>>, 128), <<1>>), BMul(BPow10(18), BPow10(18)), <<1>>, <<3>>}
BigLaws == n = 2 => \A a \in Bigs : \A b \in Bigs :
    /\ BAdd(a, b) = BAdd(b, a) /\ BMul(a, b) = BMul(b, a)
    /\ BSub(BAdd(a, b), b) = a
    /\ BDiv(BMul(a, b), b) = a
    /\ LET q == BDiv(a, b)
           r == BSub(a, BMul(q, b))
       IN  BLe(BMul(q, b), a) /\ BLt(r, b)
    /\ BShr(BShl(a, 13), 13) = a /\ BShl(a, 3) = BMul(a, <<8>>) /\ BShl(a, 17) = BMul(BShl(a, 16), <<2>>)
    /\ BShr(a, 9) = BDiv(a, BOf(512))
    /\ BLt(a, b) <=> ~BLe(b, a)
Powers == n = 3 => \A k \in 0..9 : BVal(BPow10(k)) = Pow10(k)

RECURSIVE DecVal(_, _)
DecVal(s, acc) == IF s = <<>> THEN acc ELSE DecVal(Tail(s), 10 * acc + s[1])
Decimals == n = 4 => \A i \in Nums : /\ DecVal(BDecimal(BOf(i)), 0) = i
                                     /\ i > 0 => BDecimal(BOf(i))[1] # 0
BigDecimals == n = 5 =>
    /\ BDecimal(BSub(BShl(<<1>>, 64), <<1>>)) = <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
    /\ BDecimal(BSub(BShl(<<1>>, 128), <<1>>)) =
         <<3,4,0,2,8,2,3,6,6,9,2,0,9,3,8,4,6,3,4,6,3,3,7,4,6,0,7,4,3,1,7,6,8,2,1,1,4,5,5>>
    /\ BDecimal(BPow10(25)) = <<1>> \o [i \in 1..25 |-> 0]

\* x = k / 2^e printed with d digits: the nearest multiple of 10^-d, ties to the even one.
Rounded(k, e, d) ==
    LET num == 2 * k * Pow10(d)         \* twice the value scaled
        den == 2 ^ e
        fl  == (k * Pow10(d)) \div den
        rem == num - 2 * fl * den
    IN  IF rem > den \/ (rem = den /\ fl % 2 = 1) THEN fl + 1 ELSE fl
Chars(v, d) ==      \* v / 10^d with d digits
    LET s == [i \in DOMAIN BDecimal(BOf(v)) |-> 48 + BDecimal(BOf(v))[i]]
        p == IF Len(s) <= d THEN [i \in 1..(d + 1 - Len(s)) |-> 48] \o s ELSE s
    IN  IF d = 0 THEN p ELSE SubSeq(p, 1, Len(p) - d) \o <<46>> \o SubSeq(p, Len(p) - d + 1, Len(p))
Formats == n >= 10 /\ n < 42 => \A k \in {n - 10, 32 + n - 10, 255 + n, 19990 + n} : \A e \in (IF Deep THEN 0..6 ELSE {0, 1, 3}) : \A d \in 0..3 :
    LET x == [neg |-> FALSE, m |-> BOf(k), e |-> 0 - e]
    IN  /\ Fmt(x, d) = Chars(Rounded(k, e, d), d)
        /\ Fmt([x EXCEPT !.neg = TRUE], d) = <<45>> \o Fmt(x, d)
        /\ Len(Fmt(x, d + 20)) = Len(Fmt(x, 0)) + d + 21 \/ Rounded(k, e, 0) # k \div (2 ^ e)
Integers0 == n = 6 => \A i \in Nums : \A e \in {0, 1, 5} :
    Fmt([neg |-> FALSE, m |-> BOf(i), e |-> e], 0) = Chars(i * 2 ^ e, 0)

Clamps == n = 7 =>
    /\ ClampThr([kind |-> "inf"]) = ThrMax /\ ClampThr([kind |-> "-inf"]) = ThrMin
    /\ \A p \in {0, 1, 2, 3, 7} : \A q \in {1, 2, 3, 7} :
         LET t == ClampThr([kind |-> "num", neg |-> FALSE, p |-> BOf(p), q |-> BOf(q)])
         IN  IF p >= q THEN BMul(t.p, <<1>>) = t.q ELSE IF p = 0 THEN t = ThrMin ELSE t.p = BOf(p) /\ t.q = BOf(q)
    /\ \A c \in 0..9 : \A a \in {1, 4, 9} : \A p \in 0..4 : \A q \in 1..4 :
         Meets(c, BOf(a), [p |-> BOf(p), q |-> BOf(q)]) = (c * q >= p * a)

\* Sums of dyadic numbers.
Numbers == {[neg |-> s, m |-> BOf(k), e |-> e] : s \in BOOLEAN, k \in {0, 1, 3, 255, 256}, e \in {-3, 0, 2}}
Scaled(x) == (IF x.neg THEN -1 ELSE 1) * BVal(x.m) * 2 ^ (x.e + 3)
Sums == n = 8 => \A x \in Numbers : \A y \in Numbers :
    /\ NEq(x, y) = (Scaled(x) = Scaled(y))
    /\ LET z == NAdd(x, y)
           v == (IF z.neg THEN -1 ELSE 1) * BVal(z.m) * 2 ^ (z.e + 3)
       IN  v = Scaled(x) + Scaled(y)

\* Rounding: a nearest number of n digits; no other is nearer, and of two as near it is the even one.
Roundings == n = 10 => \A k \in 1..(IF Deep THEN 200 ELSE 60) : \A b \in {1, 2, 3, 5} : \A s \in BOOLEAN :
    LET x == [neg |-> s, m |-> BOf(k), e |-> 1]
        y == NRound(x, b)
        v == BVal(y.m) * 2 ^ (y.e - 1)
        Fits(i) == \E a \in 0..(2 ^ b) : \E z \in 0..10 : i = a * 2 ^ z
        d(i) == IF i < k THEN k - i ELSE i - k
    IN  /\ y.neg = s /\ Fits(v)
        /\ \A i \in 0..(2 * k) : Fits(i) => d(v) <= d(i)
        /\ d(v) > 0 /\ Fits(2 * k - v) => BVal(y.m) % 2 = 0 \/ BVal(y.m) = 2 ^ b
NotNumbers == n = 10 =>
    /\ \A s \in BOOLEAN : NAdd(NInf(s), NOne) = NInf(s) /\ ~NEq(NInf(s), NOne) /\ ~NEq(NInf(s), NInf(~s)) /\ NRound(NInf(s), 3) = NInf(s)
    /\ NAdd(NNaN, NOne) = NNaN /\ ~NEq(NNaN, NZero) /\ Fmt(NNaN, 3) = <<78, 97, 78>>
    /\ Fmt(NInf(TRUE), 0) = <<45, 105, 110, 102>> /\ Fmt(NInf(FALSE), 5) = <<105, 110, 102>>

Blocks8 == n = 9 =>
    /\ \A s \in SUBSET {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>} : BlockOf(BlockBytes(s)) = s
    /\ \A b \in 0..15 : BlockBytes(BlockOf(<<b>>)) = <<b>>
=============================================================================
