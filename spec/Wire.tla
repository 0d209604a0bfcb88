-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The two serialised formats.  Everything is big endian.                  *)
(*                                                                         *)
(*  Graph            magic(4) version(4) dimension(W) entries(W)           *)
(*                   undirected(1) weighted(1)  { col(W) row(W) }*         *)
(*  CompressedGraph  magic(4) version(4) dimension(W) entries(W) edges(W)  *)
(*                   vertices(W) undirected(1) level(1)                    *)
(*                   { block(BB) col(W) row(W) }*                          *)
(*                                                                         *)
(* Records may come in any order.                                          *)
(***************************************************************************)
EXTENDS Graphrox

GraphMagic  == <<122, 231, 31, 253>>        \* 0x7ae71ffd
CGraphMagic == <<113, 255, 122, 237>>       \* 0x71ff7aed
GraphVersion  == <<0, 0, 0, 1>>
CGraphVersion == <<0, 0, 0, 2>>

BB == (K * K + 7) \div 8                    \* bytes in a block
GraphHeader  == 10 + 2 * W
CGraphHeader == 10 + 4 * W
GraphRec  == 2 * W
CGraphRec == 2 * W + BB

Slice(b, i, n) == [j \in 1..n |-> b[i + j]]         \* n bytes after the first i
Flag(x) == IF x THEN 1 ELSE 0

\* Bit K * row + col of a block is entry (col, row); bit 0 is the lowest bit of
\* the last byte.
BitsOf(b) == {n \in 0..(8 * BB - 1) : (b[BB - (n \div 8)] \div (2 ^ (n % 8))) % 2 = 1}
BlockOf(b) == {<<n % K, n \div K>> : n \in BitsOf(b)}
RECURSIVE SumPow(_)
SumPow(S) == IF S = {} THEN 0 ELSE LET n == CHOOSE n \in S : TRUE IN 2 ^ n + SumPow(S \ {n})
BlockBytes(s) == [i \in 1..BB |->
                    SumPow({n \in 0..7 : LET k == 8 * (BB - i) + n
                                         IN  <<k % K, k \div K>> \in s})]

Records(b, hdr, rec) ==                      \* as slices, in order
    [k \in 1..((Len(b) - hdr) \div rec) |-> Slice(b, hdr + (k - 1) * rec, rec)]

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

----------------------------------------------------------------------------
(* What an encoding must be.  The records are checked as a set, and their   *)
(* number against the header, because their order is unspecified.           *)

GraphHead(g) == GraphMagic \o GraphVersion \o g.dim \o WordOf(EdgeCount(g))
                \o <<Flag(g.und), 0>>
GraphRecords(g) == {e[1] \o e[2] : e \in g.ents}

CGraphHead(c) == CGraphMagic \o CGraphVersion \o c.mdim
                 \o WordOf(Cardinality(DOMAIN c.blocks)) \o c.ec \o c.vc
                 \o <<Flag(c.und), c.level>>
CGraphRecords(c) == {BlockBytes(c.blocks[p]) \o p[1] \o p[2] : p \in DOMAIN c.blocks}

EncodedAs(b, head, recs, rec) ==
    /\ Len(b) = Len(head) + rec * Cardinality(recs)
    /\ SubSeq(b, 1, Len(head)) = head
    /\ LET r == Records(b, Len(head), rec) IN {r[k] : k \in DOMAIN r} = recs

IsGraphEncoding(b, g)  == EncodedAs(b, GraphHead(g), GraphRecords(g), GraphRec)
IsCGraphEncoding(b, c) == EncodedAs(b, CGraphHead(c), CGraphRecords(c), CGraphRec)

RECURSIVE SetToSeqAny(_)
SetToSeqAny(S) == IF S = {} THEN <<>>
                  ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeqAny(S \ {x})
\* Some encoding (for models; the implementation chooses its own order).
EncodeGraph(g)  == GraphHead(g) \o Concat(SetToSeqAny(GraphRecords(g)))
EncodeCGraph(c) == CGraphHead(c) \o Concat(SetToSeqAny(CGraphRecords(c)))

----------------------------------------------------------------------------
(* Decoding: [verdict |-> "err"], or [verdict |-> "ok", obj |-> ...].  The   *)
(* verdict "either" leaves acceptance open (an undirected graph that lists   *)
(* one direction twice in place of both); the object is what acceptance must *)
(* yield.                                                                    *)

Err == [verdict |-> "err"]

LengthIs(b, hdr, rec, count) == BOf(Len(b)) = BAdd(BOf(hdr), BMul(BFromBE(count), BOf(rec)))

DecodeGraph(b) ==
    IF Len(b) < GraphHeader THEN Err
    ELSE
    LET dim == Slice(b, 8, W)
        cnt == Slice(b, 8 + W, W)
        und == b[9 + 2 * W]
        wei == b[10 + 2 * W]
    IN
    IF \/ Slice(b, 0, 4) # GraphMagic
       \/ Slice(b, 4, 4) # GraphVersion
       \/ und > 1
       \/ wei # 0
       \/ ~LengthIs(b, GraphHeader, GraphRec, cnt)
    THEN Err
    ELSE
    LET rs   == Records(b, GraphHeader, GraphRec)
        es   == {<<Slice(rs[k], 0, W), Slice(rs[k], W, W)>> : k \in DOMAIN rs}
        ents == IF und = 1 THEN es \cup Mirror(es) ELSE es
    IN
    IF \/ \E e \in es : ~(WLt(e[1], dim) /\ WLt(e[2], dim))
       \/ WordOf(Cardinality(ents)) # cnt
    THEN Err
    ELSE [verdict |-> IF Cardinality(es) = Len(rs) THEN "ok" ELSE "either",
          obj |-> [kind |-> "graph", und |-> und = 1, dim |-> dim, ents |-> ents]]

DecodeCGraph(b) ==
    IF Len(b) < CGraphHeader THEN Err
    ELSE
    LET mdim == Slice(b, 8, W)
        cnt  == Slice(b, 8 + W, W)
        ec   == Slice(b, 8 + 2 * W, W)
        vc   == Slice(b, 8 + 3 * W, W)
        und  == b[9 + 4 * W]
        lvl  == b[10 + 4 * W]
    IN
    IF \/ Slice(b, 0, 4) # CGraphMagic
       \/ Slice(b, 4, 4) # CGraphVersion
       \/ und > 1
       \/ lvl \notin 1..(K * K)
       \/ mdim # CDim(vc)
       \/ ~LengthIs(b, CGraphHeader, CGraphRec, cnt)
    THEN Err
    ELSE
    LET rs == Records(b, CGraphHeader, CGraphRec)
        ps == TLCEval([k \in DOMAIN rs |-> <<Slice(rs[k], BB, W), Slice(rs[k], BB + W, W)>>])
        bs == TLCEval([k \in DOMAIN rs |-> BlockOf(Slice(rs[k], 0, BB))])
        dom == {ps[k] : k \in DOMAIN ps}
    IN
    IF \/ \E k \in DOMAIN rs :
             \/ bs[k] = {}
             \/ ~(WLt(ps[k][1], mdim) /\ WLt(ps[k][2], mdim))
             \/ \E x \in bs[k] :
                   LET lim == BFromBE(vc)
                       abs(X, i) == BAdd(BMul(BFromBE(X), BOf(K)), BOf(i))
                   IN  ~(BLt(abs(ps[k][1], x[1]), lim) /\ BLt(abs(ps[k][2], x[2]), lim))
       \/ Cardinality(dom) # Len(rs)
    THEN Err
    ELSE
    LET blocks == TLCEval([p \in dom |-> bs[CHOOSE k \in DOMAIN ps : ps[k] = p]])
        c == [kind |-> "cgraph", und |-> und = 1, vc |-> vc, level |-> lvl,
              ec |-> WordOf(SumSizes(blocks, dom)), mdim |-> mdim, blocks |-> blocks]
    IN
    IF \/ c.ec # ec
       \/ c.und /\ \E p \in dom : LET q == <<p[2], p[1]>>
                                  IN  q \notin dom \/ blocks[q] # Mirror(blocks[p])
    THEN Err
    ELSE [verdict |-> "ok", obj |-> c]

----------------------------------------------------------------------------
\* from_bytes / TryFrom: on success the new object is held under h2.
DecodeTo(kind, b, h2) ==
    LET d == IF kind = "graph" THEN DecodeGraph(b) ELSE DecodeCGraph(b)
    IN  d.verdict # "err" /\ Put(h2, d.obj)
DecodeRefused(kind, b, h2) ==
    LET d == IF kind = "graph" THEN DecodeGraph(b) ELSE DecodeCGraph(b)
    IN  /\ d.verdict # "ok"
        /\ store' = Only(store, DOMAIN store \ {h2})
=============================================================================
