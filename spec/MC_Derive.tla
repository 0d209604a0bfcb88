------------------------------ MODULE MC_Derive ------------------------------
(***************************************************************************)
(* Everything that is derived from a graph, for every graph of up to N      *)
(* vertices: average pooling, approximation, compression, decompression,    *)
(* encoding and decoding, text.  Blocks are K = 2 wide, words one byte.     *)
(*                                                                         *)
(* Each operator of the specification is checked against a second           *)
(* definition, cell by cell and in plain integers.                          *)
(***************************************************************************)
EXTENDS Render, Json

CONSTANTS DirN, UndN,   \* largest vertex counts of directed and undirected graphs
          Emit

VARIABLE call           \* what made "x", or <<>>

mvars == <<store, call>>

ToInt(w) == w[1]
Wd(n)  == <<n>>
g == store["g"]
x == store["x"]

GraphsOf(n, und) ==
    LET I == {<<i>> : i \in 0..(n - 1)}
        P == IF und THEN {p \in I \X I : p[1][1] <= p[2][1]} ELSE I \X I
    IN  {[kind |-> "graph", und |-> und, dim |-> <<n>>,
          ents |-> IF und THEN S \cup Mirror(S) ELSE S] : S \in SUBSET P}
AllGraphs == UNION {GraphsOf(n, FALSE) : n \in 0..DirN} \cup UNION {GraphsOf(n, TRUE) : n \in 0..UndN}

Sides == {0, 1, 2, 3, 4, 255}
Num(p, q) == [kind |-> "num", neg |-> FALSE, p |-> BOf(p), q |-> BOf(q)]
Thresholds == {Num(p, q) : p \in {0, 1, 2, 4}, q \in {1, 3, 4, 9}}
    \cup {[kind |-> "num", neg |-> TRUE, p |-> <<1>>, q |-> <<2>>], [kind |-> "inf"], [kind |-> "-inf"],
          [kind |-> "num", neg |-> FALSE, p |-> <<1>>, q |-> BPow10(19)],
          [kind |-> "num", neg |-> FALSE, p |-> <<1>>, q |-> BPow10(18)]}
Levels == 0..6

Calls == {<<"pool", b>> : b \in Sides}
    \cup {<<"approx", b, t>> : b \in Sides, t \in Thresholds}
    \cup {<<"compress", l>> : l \in Levels}
    \cup {<<"recode">>}

Do(c) == CASE c[1] = "pool" -> FindAvgPool("g", "x", Wd(c[2]))
           [] c[1] = "approx" -> ApproximateTo("g", "x", Wd(c[2]), c[3])
           [] c[1] = "compress" -> CompressTo("g", "x", c[2])
           [] c[1] = "recode" -> DecodeTo("graph", EncodeGraph(g), "x")
           [] c[1] = "decompress" -> DecompressTo("x", "x")
           [] c[1] = "crecode" -> DecodeTo("cgraph", EncodeCGraph(x), "x")

MInit == /\ \E h \in AllGraphs : store = ("g" :> h)
         /\ call = <<>>
         /\ Emit => PrintT(ToJson([und |-> g.und, n |-> g.dim[1], e |-> {<<p[1][1], p[2][1]>> : p \in g.ents}]))
MNext == \/ \E c \in Calls : /\ call = <<>>
                             /\ Do(c) /\ call' = c
         \/ /\ call # <<>> /\ call[1] \in {"compress", "crecode"}
            /\ \E o \in {"decompress", "crecode"} \ {call[1]} :
                  /\ Do(<<o>>)
                  /\ call' = <<o, IF call[1] = "compress" THEN call[2] ELSE call[2]>>

MSpec == MInit /\ [][MNext]_mvars

----------------------------------------------------------------------------
(* The second definitions *)

n == ToInt(g.dim)
IsIn(h, c, r) == <<Wd(c), Wd(r)>> \in h.ents
\* Ones in the block of side s at block column X and row Y.
Ones(h, s, X, Y) == Cardinality({p \in ((s * X)..(s * X + s - 1)) \X ((s * Y)..(s * Y + s - 1)) :
                                    p[1] <= 255 /\ p[2] <= 255 /\ IsIn(h, p[1], p[2])})
Side(b) == IF b = 0 THEN 1 ELSE IF b > n THEN n ELSE b
Rows(s) == (n + s - 1) \div s
Rational(t) ==      \* of the thresholds used: <<numerator, denominator>> after clamping, 10^-18 as <<0, 1>>
    CASE t.kind = "inf" -> <<1, 1>>
      [] t.kind = "-inf" -> <<0, 1>>
      [] t.neg -> <<0, 1>>
      [] Len(t.q) > 3 -> <<0, 1>>
      [] OTHER -> LET p == IF t.p = <<>> THEN 0 ELSE t.p[1]
                  IN  IF p >= t.q[1] THEN <<1, 1>> ELSE <<p, t.q[1]>>

PoolRight == call # <<>> /\ call[1] = "pool" =>
    IF n = 0 THEN x.dim = WZero /\ x.cnt = <<>>
    ELSE LET s == Side(call[2]) IN
         /\ x.dim = Wd(Rows(s)) /\ x.side = Wd(s)
         /\ \A X \in 0..n : \A Y \in 0..n :
               LET k == Ones(g, s, X, Y) IN
               IF k = 0 THEN <<Wd(X), Wd(Y)>> \notin DOMAIN x.cnt
               ELSE x.cnt[<<Wd(X), Wd(Y)>>] = k /\ k <= s * s /\ X < Rows(s) /\ Y < Rows(s)

ApproxRight == call # <<>> /\ call[1] = "approx" =>
    /\ x.und = g.und
    /\ WellFormedGraph(x)
    /\ IF n <= 1 \/ call[2] \in {0, 1} THEN x = g
       ELSE LET s == Side(call[2])
                t == Rational(call[3])
            IN  /\ x.dim = Wd(Rows(s))
                /\ \A X \in 0..n : \A Y \in 0..n :
                      LET k == Ones(g, s, X, Y)
                      IN  IsIn(x, X, Y) = (k > 0 /\ k * t[2] >= t[1] * s * s)

KeptEdges(l) ==
    LET lv == IF l < 1 THEN 1 ELSE IF l > K * K THEN K * K ELSE l
    IN  {e \in g.ents : Ones(g, K, ToInt(e[1]) \div K, ToInt(e[2]) \div K) >= lv}

CompressRight == call # <<>> /\ call[1] \in {"compress", "crecode"} =>
    LET kept == KeptEdges(call[2]) IN
    /\ x.und = g.und /\ x.vc = g.dim
    /\ x.level = (IF call[2] < 1 THEN 1 ELSE IF call[2] > K * K THEN K * K ELSE call[2])
    /\ x.ec = Wd(Cardinality(kept))
    /\ \A u \in 0..(n + K) : \A v \in 0..(n + K) : CHasEdge(x, Wd(u), Wd(v)) = (<<Wd(u), Wd(v)>> \in kept)
    /\ WellFormedCompressed(x)
    /\ \A X \in 0..n : \A Y \in 0..n :
          \* the block as a number: bit K * row + column
          LET z == BlockBytes(CBlock(x, <<Wd(X), Wd(Y)>>))
              bit(i, j) == (z[BB - ((K * j + i) \div 8)] \div (2 ^ ((K * j + i) % 8))) % 2
          IN  \A i \in 0..(K - 1) : \A j \in 0..(K - 1) :
                 (bit(i, j) = 1) = (<<Wd(K * X + i), Wd(K * Y + j)>> \in kept)
    \* compressing what is left again changes nothing
    /\ Compress(Decompress(x), x.level) = x

DecompressRight == call # <<>> /\ call[1] = "decompress" =>
    /\ x = [g EXCEPT !.ents = KeptEdges(call[2])]
    /\ call[2] <= 1 => x = g

RecodeRight == call # <<>> /\ call[1] = "recode" => x = g

\* Assembling the blocks one by one gives the compressed graph.
RECURSIVE Assemble(_, _, _)
Assemble(b, c, D) == IF D = {} THEN b
                     ELSE LET p == CHOOSE p \in D : TRUE
                          IN  Assemble(BuilderAdd(b, c.blocks[p], p, WordOf(Cardinality(c.blocks[p]))), c, D \ {p})
BuilderRight == call # <<>> /\ call[1] = "compress" =>
    BuilderFinish(Assemble(BuilderNew(x.und, x.vc, x.level), x, DOMAIN x.blocks)) = x

----------------------------------------------------------------------------
(* Reading the text back *)

\* Lines are d * (w + 2) + 4 characters long, the last one without CR LF.
LineLength(d, w) == d * (w + 2) + 4
CellAt(s, d, w, c, r) ==
    LET at == r * LineLength(d, w) + 2 + c * (w + 2) IN SubSeq(s, at + 1, at + w)

TextRight == call = <<>> =>
    LET s == BoolText(g.dim, g.ents) IN
    IF n = 0 THEN s = <<>>
    ELSE /\ Len(s) = n * LineLength(n, 1) - 2
         /\ \A c \in 0..(n - 1) : \A r \in 0..(n - 1) :
               CellAt(s, n, 1, c, r) = <<IF IsIn(g, c, r) THEN 49 ELSE 48>>

RECURSIVE Unspaced(_)
Unspaced(s) == IF s # <<>> /\ s[1] = 32 THEN Unspaced(Tail(s)) ELSE s
RECURSIVE Value(_, _)
Value(s, acc) == IF s = <<>> THEN acc ELSE Value(Tail(s), acc * 10 + s[1] - 48)
CTextRight == call # <<>> /\ call[1] = "compress" =>
    LET d == ToInt(x.mdim)
        s == NumText(x.mdim, [p \in DOMAIN x.blocks |-> BlockNum(x.blocks[p])], 0)
    IN  \E w \in 1..3 :
        /\ Len(s) = d * LineLength(d, w) - 2
        /\ \A c \in 0..(d - 1) : \A r \in 0..(d - 1) :
              Value(Unspaced(CellAt(s, d, w, c, r)), 0) = BlockBytes(CBlock(x, <<Wd(c), Wd(r)>>))[1]
        \* no wider than the widest cell
        /\ \E c \in 0..(d - 1) : \E r \in 0..(d - 1) : CellAt(s, d, w, c, r)[1] # 32
=============================================================================
