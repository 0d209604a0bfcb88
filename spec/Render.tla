------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* The text renderings, as sequences of character codes.                   *)
(*                                                                         *)
(*   [ a, b ]\r\n[ c, d ]      one line per row (to), one cell per column  *)
(*                                                                         *)
(* Cells are right-aligned to the longest one.  A matrix too large to      *)
(* print is refused ("err"), never printed in part.                        *)
(***************************************************************************)
EXTENDS Wire, SequencesExt

Digit(d) == 48 + d

\* The digits of |x| * 10^d rounded to the nearest integer, ties to even.
ScaledInt(x, d) ==
    LET m == BMul(x.m, BPow10(d))
    IN  IF x.e >= 0 THEN BShl(m, x.e)
        ELSE LET n     == 0 - x.e
                 fl    == BShr(m, n)
                 rest2 == BShl(BSub(m, BShl(fl, n)), 1)       \* twice the remainder
                 half  == BShl(<<1>>, n)
                 odd   == fl # <<>> /\ fl[1] % 2 = 1
             IN  IF BLt(half, rest2) \/ (rest2 = half /\ odd) THEN BAdd(fl, <<1>>) ELSE fl

\* x with d digits after the decimal point, and no point if d = 0.  (The digits beyond
\* the exponent of x are zeros.)
Fmt(x, d) ==
    LET k   == IF x.e >= 0 THEN 0 ELSE IF 0 - x.e < d THEN 0 - x.e ELSE d
        ds  == BDecimal(ScaledInt(x, k)) \o [i \in 1..(d - k) |-> 0]
        pad == IF Len(ds) < d + 1 THEN [i \in 1..(d + 1 - Len(ds)) |-> 0] \o ds ELSE ds
        cs  == [i \in DOMAIN pad |-> Digit(pad[i])]
        n   == Len(cs) - d
        num == IF d = 0 THEN cs ELSE SubSeq(cs, 1, n) \o <<46>> \o SubSeq(cs, n + 1, Len(cs))
    IN  IF x = NNaN THEN <<78, 97, 78>>
        ELSE IF ~NFinite(x) THEN (IF x.neg THEN <<45>> ELSE <<>>) \o <<105, 110, 102>>
        ELSE IF x.neg THEN <<45>> \o num ELSE num

Spaces(n) == [i \in 1..n |-> 32]

\* A page is n x n cells of w characters each: the cell in row r and column c is rows[r][c]
\* if there is one, and zero otherwise.
Page(n, w, zero, rows) == [n |-> n, w |-> w, zero |-> zero, rows |-> rows]
LineLen(p) == p.n * (p.w + 2) + 2
LineOf(p, cells) ==
    LET k == p.w + 2
        last == LineLen(p)
        at(c) == IF c \in DOMAIN cells THEN cells[c] ELSE p.zero
    IN  [i \in 1..last |->
            CASE i = 1 -> 91
              [] i = 2 -> 32
              [] i = last -> 93
              [] OTHER -> LET c == (i - 3) \div k
                              o == (i - 3) % k
                          IN  IF o < p.w THEN at(c)[o + 1]
                              ELSE IF o = p.w /\ c < p.n - 1 THEN 44 ELSE 32]
Line(p, r) == LineOf(p, IF r \in DOMAIN p.rows THEN p.rows[r] ELSE <<>>)

\* The page as one text.
Whole(p) ==
    IF p.n = 0 THEN <<>>
    ELSE LET ls == TLCEval([r \in 1..p.n |-> TLCEval(Line(p, r - 1))])
             k  == LineLen(p) + 2
         IN  [i \in 1..(p.n * k - 2) |->
                LET r == (i - 1) \div k
                    o == (i - 1) % k
                IN  IF o < k - 2 THEN ls[r + 1][o + 1] ELSE IF o = k - 2 THEN 13 ELSE 10]

\* A text given as its distinct lines and, from top to bottom, how many times which of them.
IsPage(p, lines, ix) ==
    LET start == FoldLeft(LAMBDA acc, x : Append(acc, acc[Len(acc)] + x[2]), <<0>>, ix)
        empty == TLCEval({k \in DOMAIN lines : lines[k] = LineOf(p, <<>>)})
        some  == TLCEval({r \in DOMAIN p.rows : p.rows[r] # <<>>})
    IN  /\ p.n > 0
        /\ start[Len(ix) + 1] = p.n
        /\ \A i \in DOMAIN ix :
             \A r \in start[i]..(start[i] + ix[i][2] - 1) :
                IF r \in some THEN lines[ix[i][1]] = Line(p, r) ELSE ix[i][1] \in empty

\* Rendering is only worked out for dimensions up to this; a dimension of 2^24 or more needs
\* a string of at least 3 * 2^48 characters and must be refused.
Printable(dim) == WSmall(dim) /\ WToInt(dim) <= 1200
TooLarge(dim)  == ~WSmall(dim)

BoolPage(dim, S) ==
    LET one == TLCEval({<<WToInt(e[1]), WToInt(e[2])>> : e \in S})
    IN  Page(WToInt(dim), 1, <<48>>,
             TLCEval([r \in {e[2] : e \in one} |-> [c \in {e[1] : e \in {x \in one : x[2] = r}} |-> <<49>>]]))
BoolText(dim, S) == Whole(BoolPage(dim, S))

NumPage(dim, vals, d) ==
    LET cells == TLCEval([p \in DOMAIN vals |-> Fmt(vals[p], d)])
        zero  == TLCEval(Fmt(NZero, d))
        w     == LET ls == {Len(cells[p]) : p \in DOMAIN vals} \cup {Len(zero)}
                 IN  CHOOSE x \in ls : \A y \in ls : y <= x
        padded(s) == Spaces(w - Len(s)) \o s
        at    == TLCEval([q \in {<<WToInt(p[1]), WToInt(p[2])>> : p \in DOMAIN vals} |->
                            padded(cells[<<WordOf(q[1]), WordOf(q[2])>>])])
    IN  Page(WToInt(dim), w, TLCEval(padded(zero)),
             TLCEval([r \in {q[2] : q \in DOMAIN at} |->
                 [c \in {q[1] : q \in {x \in DOMAIN at : x[2] = r}} |-> at[<<c, r>>]]]))
NumText(dim, vals, d) == Whole(NumPage(dim, vals, d))

\* Entries of an average pooling matrix as exact quotients are not dyadic; their text is
\* judged on the f64 values that were observed (see Trace).

BlockNum(s) == [neg |-> FALSE, m |-> BFromBE(BlockBytes(s)), e |-> 0]
=============================================================================
