----------------------------- MODULE Graphrox -----------------------------
(***************************************************************************)
(* The observable state and the transitions of the graphrox library.       *)
(*                                                                         *)
(* `store` maps the handles a program holds to the objects behind them.    *)
(* Every public call that creates or changes an object is one named action *)
(* (the library is sequential: the linearization point is the return of    *)
(* the call); every query is an operator on an object, so that queries     *)
(* cannot change the state by construction and a trace in which one does   *)
(* is rejected at the next observation.                                    *)
(*                                                                         *)
(* Objects:                                                                *)
(*  graph    und, dim, ents          Graph                                 *)
(*  adj      dim, ents               matrix::CsrAdjacencyMatrix            *)
(*  mat      type, dim, vals         matrix::CsrSquareMatrix<T>            *)
(*  pool     dim, side, cnt          the CsrSquareMatrix<f64> returned by  *)
(*                                   find_avg_pool_matrix                  *)
(*  cgraph   und, vc, ec, level,     CompressedGraph                       *)
(*           mdim, blocks                                                  *)
(*  builder  as cgraph               builder::CompressedGraphBuilder       *)
(*                                                                         *)
(* ents is a set of pairs <<col, row>> = <<from, to>> of words; dim is a   *)
(* word; blocks maps a pair of block coordinates to the non-empty set of   *)
(* pairs <<col within block, row within block>> that are ones.             *)
(***************************************************************************)
EXTENDS Words, TLC, SequencesExt, FiniteSetsExt

CONSTANT K              \* dimension of a compression block (8 in graphrox)

VARIABLE store

Pair(c, r) == <<c, r>>

\* Vertex count and matrix dimension are "largest index + 1", so the largest
\* word cannot be an index: calls that name it are ignored.
\* Just S. (TLC unites, subtracts and searches sets it has sorted in far less time, and sorts them when counting.)
Sorted(S) == IF Cardinality(S) >= 0 THEN S ELSE {}

Addressable(id) == id # WMax

Grow(dim, c, r) == WMax2(dim, WMax2(WInc(c), WInc(r)))

Mirror(S) == {<<e[2], e[1]>> : e \in S}
Symmetric(S) == \A e \in S : <<e[2], e[1]>> \in S

----------------------------------------------------------------------------
(* CsrAdjacencyMatrix *)

AdjNew == [kind |-> "adj", dim |-> WZero, ents |-> {}]

AdjSet(m, e, c, r) ==
    IF ~(Addressable(c) /\ Addressable(r)) THEN m
    ELSE [m EXCEPT !.dim  = Grow(@, c, r),
                   !.ents = IF e = 0 THEN @ \ {<<c, r>>} ELSE @ \cup {<<c, r>>}]

AdjZero(m, c, r) == [m EXCEPT !.ents = @ \ {<<c, r>>}]

AdjGet(m, c, r) == IF <<c, r>> \in m.ents THEN 1 ELSE 0
Col(S, c) == {e[2] : e \in {x \in S : x[1] = c}}
Row(S, r) == {e[1] : e \in {x \in S : x[2] = r}}

----------------------------------------------------------------------------
(* Graph *)

GraphNew(und) == [kind |-> "graph", und |-> und, dim |-> WZero, ents |-> {}]

GraphAddEdge(g, u, v) ==
    IF ~(Addressable(u) /\ Addressable(v)) THEN g
    ELSE [g EXCEPT !.dim  = Grow(@, u, v),
                   !.ents = @ \cup IF g.und THEN {<<u, v>>, <<v, u>>} ELSE {<<u, v>>}]

GraphDeleteEdge(g, u, v) ==
    [g EXCEPT !.ents = @ \ IF g.und THEN {<<u, v>>, <<v, u>>} ELSE {<<u, v>>}]

\* vs is the sequence of neighbours to add; without any, the vertex itself is added.
Arcs(us, vs, und) == LET S == Sorted({<<u, v>> : u \in us, v \in vs})
                     IN  IF und THEN Sorted(S \cup Sorted(Mirror(S))) ELSE S

GraphAddVertex(g, u, vs) ==
    IF vs # <<>>
    THEN LET to == Sorted({vs[i] : i \in {i \in DOMAIN vs : Addressable(vs[i])}})
         IN  IF to = {} \/ ~Addressable(u) THEN g
             ELSE [g EXCEPT !.dim  = FoldSet(LAMBDA v, d : Grow(d, u, v), @, to),
                            !.ents = @ \cup Arcs({u}, to, g.und)]
    ELSE IF Addressable(u) THEN [g EXCEPT !.dim = WMax2(@, WInc(u))] ELSE g

GraphFromAdj(m, und) == [kind |-> "graph", und |-> und, dim |-> m.dim, ents |-> m.ents]

HasEdge(g, u, v) == <<u, v>> \in g.ents
OutEdges(g, v)   == Col(g.ents, v)
InEdges(g, v)    == IF g.und THEN Col(g.ents, v) ELSE Row(g.ents, v)
EdgeCount(g)     == Cardinality(g.ents)
VertexCount(g)   == g.dim

----------------------------------------------------------------------------
(* Average pooling and approximation *)

CeilDiv(x, b) ==      \* x > 0
    WInc(WDiv(WDec(x), b))

PoolSide(g, b) == IF b = WZero THEN WordOf(1) ELSE IF WLt(g.dim, b) THEN g.dim ELSE b

\* How many ones each block with at least one of them holds.
BlockCounts(S, side) ==
    LET idx == {e[1] : e \in S} \cup {e[2] : e \in S}
        d   == TLCEval([x \in idx |-> WDiv(x, side)])
        at  == TLCEval({<<d[e[1]], d[e[2]], e>> : e \in S})
        of  == TLCEval([x \in {t[1] : t \in at} |-> {t \in at : t[1] = x}])
    IN  TLCEval([p \in {<<t[1], t[2]>> : t \in at} |-> Cardinality({t \in of[p[1]] : t[2] = p[2]})])

PoolNew == [kind |-> "pool", dim |-> WZero, side |-> WordOf(1), cnt |-> <<>>]

Pool(g, b) ==
    IF g.dim = WZero THEN PoolNew
    ELSE LET side == PoolSide(g, b)
         IN  [kind |-> "pool", dim |-> CeilDiv(g.dim, side), side |-> side,
              cnt  |-> BlockCounts(g.ents, side)]

PoolArea(m) == BMul(BFromBE(m.side), BFromBE(m.side))

\* A threshold is "inf", "-inf", or the number (-1)^neg * p / q.  It is clamped to
\* [10^-18, 1].
ThrMin == [p |-> <<1>>, q |-> BPow10(18)]
ThrMax == [p |-> <<1>>, q |-> <<1>>]
ClampThr(t) ==
    CASE t.kind = "inf"  -> ThrMax
      [] t.kind = "-inf" -> ThrMin
      [] OTHER -> IF t.neg \/ BLt(BMul(t.p, ThrMin.q), t.q) THEN ThrMin
                  ELSE IF BLt(t.q, t.p) THEN ThrMax
                  ELSE [p |-> t.p, q |-> t.q]

\* cnt / area >= p / q
Meets(cnt, area, thr) == BLe(BMul(thr.p, area), BMul(BOf(cnt), thr.q))

Approximate(g, b, t) ==
    IF b = WZero \/ b = WordOf(1) \/ WLe(g.dim, WordOf(1)) THEN g
    ELSE LET m    == Pool(g, b)
             thr  == ClampThr(t)
             area == PoolArea(m)
             \* edges of equal count fare alike: one product per distinct count
             keep == {n \in {m.cnt[p] : p \in DOMAIN m.cnt} : Meets(n, area, thr)}
         IN  [kind |-> "graph", und |-> g.und, dim |-> m.dim,
              ents |-> {p \in DOMAIN m.cnt : m.cnt[p] \in keep}]

----------------------------------------------------------------------------
(* Compression *)

ClampLevel(l) == IF l < 1 THEN 1 ELSE IF l > K * K THEN K * K ELSE l

\* Block coordinate and position within the block of an index.
Div(x) == WDivMod(x, K)[1]
Mod(x) == WDivMod(x, K)[2]
\* The index at position i of block X, for an addressable result.
At(X, i) == WFromB(BAdd(BMul(BFromBE(X), BOf(K)), BOf(i)))

CDim(vc) == IF vc = WZero THEN WordOf(1) ELSE CeilDiv(vc, WordOf(K))

Blocks(S) ==
    LET idx == {e[1] : e \in S} \cup {e[2] : e \in S}
        dm  == TLCEval([x \in idx |-> WDivMod(x, K)])
        at  == TLCEval({<<dm[e[1]], dm[e[2]]>> : e \in S})
        of  == TLCEval([x \in {t[1][1] : t \in at} |-> {t \in at : t[1][1] = x}])
    IN  TLCEval([p \in {<<t[1][1], t[2][1]>> : t \in at} |->
            {<<t[1][2], t[2][2]>> : t \in {x \in of[p[1]] : x[2][1] = p[2]}}])

SumSizes(f, D) == FoldSet(LAMBDA p, n : n + Cardinality(f[p]), 0, D)

Only(f, D) == [x \in D |-> f[x]]

Compress(g, l) ==
    LET level == ClampLevel(l)
        all   == Blocks(g.ents)
        keep  == {p \in DOMAIN all : Cardinality(all[p]) >= level}
    IN  [kind |-> "cgraph", und |-> g.und, vc |-> g.dim, level |-> level,
         ec   |-> WordOf(SumSizes(all, keep)), mdim |-> CDim(g.dim),
         blocks |-> TLCEval(Only(all, keep))]

CBlock(c, p) == IF p \in DOMAIN c.blocks THEN c.blocks[p] ELSE {}

CHasEdge(c, u, v) == <<Mod(u), Mod(v)>> \in CBlock(c, <<Div(u), Div(v)>>)

CEdges(c) == Sorted({<<At(x[1][1], x[2]), At(x[1][2], x[3])>> :
                       x \in {x \in (DOMAIN c.blocks) \X (0..K-1) \X (0..K-1) : <<x[2], x[3]>> \in c.blocks[x[1]]}})

MaxIndex(S, m) == FoldSet(LAMBDA e, n : Grow(n, e[1], e[2]), m, S)

Decompress(c) ==
    LET S == CEdges(c)
    IN  [kind |-> "graph", und |-> c.und, dim |-> MaxIndex(S, c.vc),
         ents |-> IF c.und THEN S \cup Sorted(Mirror(S)) ELSE S]

BuilderNew(und, vc, l) ==
    [kind |-> "builder", und |-> und, vc |-> vc, level |-> ClampLevel(l),
     ec |-> WZero, mdim |-> CDim(vc), blocks |-> <<>>]

\* w is the number of edges the caller says the block has.
BuilderAdd(b, bits, p, w) ==
    LET c == [b EXCEPT !.ec = WAddSat(@, w)]
    IN  IF ~(Addressable(p[1]) /\ Addressable(p[2])) THEN c
        ELSE [c EXCEPT !.mdim   = Grow(@, p[1], p[2]),
                       !.blocks = IF bits = {} THEN Only(@, DOMAIN @ \ {p})
                                  ELSE (p :> bits) @@ @]

BuilderFinish(b) == [b EXCEPT !.kind = "cgraph"]

----------------------------------------------------------------------------
(* CsrSquareMatrix<T>.  Numbers are dyadic: (-1)^neg * m * 2^e. *)

NZero == [neg |-> FALSE, m |-> <<>>, e |-> 0]
NOne  == [neg |-> FALSE, m |-> <<1>>, e |-> 0]
NIsZero(x) == x.m = <<>>
\* The infinities and NaN, in the guise of digits that no number has.
NInf(neg) == [neg |-> neg, m |-> <<999>>, e |-> 0]
NNaN == [neg |-> FALSE, m |-> <<998>>, e |-> 0]
NFinite(x) == NIsZero(x) \/ x.m[1] < 256

NAligned(x, e) == BShl(x.m, x.e - e)              \* e <= x.e
NMinExp(x, y) == IF x.e < y.e THEN x.e ELSE y.e
NEq(x, y) == IF ~NFinite(x) \/ ~NFinite(y) THEN x = y
             ELSE IF NIsZero(x) \/ NIsZero(y) THEN NIsZero(x) /\ NIsZero(y)
             ELSE /\ x.neg = y.neg
                  /\ LET e == NMinExp(x, y) IN NAligned(x, e) = NAligned(y, e)
NAdd(x, y) ==
  IF ~NFinite(x) THEN x ELSE
    LET e == NMinExp(x, y)
        a == NAligned(x, e)
        b == NAligned(y, e)
    IN  IF x.neg = y.neg THEN [neg |-> x.neg, m |-> BAdd(a, b), e |-> e]
        ELSE IF BLt(a, b) THEN [neg |-> y.neg, m |-> BSub(b, a), e |-> e]
        ELSE [neg |-> x.neg, m |-> BSub(a, b), e |-> e]

\* The nearest number with at most n binary digits; of two, the one ending in an even digit.
NRound(x, n) ==
    LET k == IF NFinite(x) THEN BLog(x.m) - n ELSE 0
        fl == BShr(x.m, k)
        rest2 == BShl(BSub(x.m, BShl(fl, k)), 1)
        half == BShl(<<1>>, k)
        up == BLt(half, rest2) \/ (rest2 = half /\ fl[1] % 2 = 1)
    IN  IF k <= 0 THEN x ELSE [x EXCEPT !.m = IF up THEN BAdd(fl, <<1>>) ELSE fl, !.e = @ + k]
NFits(type, x) == CASE type = "f32" -> NRound(x, 24) [] type = "f64" -> NRound(x, 53) [] OTHER -> x

MatNew(type) == [kind |-> "mat", type |-> type, dim |-> WZero, vals |-> <<>>]
MatGet(m, c, r) == IF <<c, r>> \in DOMAIN m.vals THEN m.vals[<<c, r>>] ELSE NZero
MatSet(m, x, c, r) ==
    IF ~(Addressable(c) /\ Addressable(r)) THEN m
    ELSE [m EXCEPT !.dim  = Grow(@, c, r),
                   !.vals = IF NIsZero(x) THEN Only(@, DOMAIN @ \ {<<c, r>>})
                            ELSE (<<c, r>> :> x) @@ @]
MatZero(m, c, r) == [m EXCEPT !.vals = Only(@, DOMAIN @ \ {<<c, r>>})]
MatInc(m, c, r) == MatSet(m, NFits(m.type, NAdd(MatGet(m, c, r), NOne)), c, r)

----------------------------------------------------------------------------
(* Actions *)

Put(h, o) == store' = [x \in DOMAIN store \cup {h} |-> IF x = h THEN o ELSE store[x]]
Held(h, k) == h \in DOMAIN store /\ store[h].kind = k

Init == store = <<>>

NewGraph(h, und)      == Put(h, GraphNew(und))
AddVertex(h, u, vs)   == Held(h, "graph") /\ Put(h, GraphAddVertex(store[h], u, vs))
AddEdge(h, u, v)      == Held(h, "graph") /\ Put(h, GraphAddEdge(store[h], u, v))
DeleteEdge(h, u, v)   == Held(h, "graph") /\ Put(h, GraphDeleteEdge(store[h], u, v))
DeleteEdges(h, u, vs) == Held(h, "graph") /\ Put(h, [store[h] EXCEPT !.ents = @ \ Arcs({u}, vs, store[h].und)])      \* one after the other
AddEdges(h, us, v)    == Held(h, "graph") /\ Put(h, [store[h] EXCEPT !.ents = @ \cup Arcs(us, {v}, store[h].und),
                                                                     !.dim  = FoldSet(LAMBDA u, d : Grow(d, u, v), @, us)])
Duplicate(h, h2)      == h \in DOMAIN store /\ Put(h2, store[h])
Drop(h)               == /\ h \in DOMAIN store
                         /\ store' = Only(store, DOMAIN store \ {h})
FindAvgPool(h, h2, b) == Held(h, "graph") /\ Put(h2, Pool(store[h], b))
ApproximateTo(h, h2, b, t) == Held(h, "graph") /\ Put(h2, Approximate(store[h], b, t))
CompressTo(h, h2, l)  == Held(h, "graph") /\ Put(h2, Compress(store[h], l))
DecompressTo(h, h2)   == Held(h, "cgraph") /\ Put(h2, Decompress(store[h]))

NewAdj(h)             == Put(h, AdjNew)
SetAdj(h, e, c, r)    == Held(h, "adj") /\ Put(h, AdjSet(store[h], e, c, r))
ZeroAdj(h, c, r)      == Held(h, "adj") /\ Put(h, AdjZero(store[h], c, r))
DirectedFrom(h, h2)   == Held(h, "adj") /\ Put(h2, GraphFromAdj(store[h], FALSE))
\* undirected_from: refused unless the matrix is symmetric.
UndirectedFrom(h, h2) == /\ Held(h, "adj") /\ Symmetric(store[h].ents)
                         /\ Put(h2, GraphFromAdj(store[h], TRUE))
UndirectedFromRefused(h) == /\ Held(h, "adj") /\ ~Symmetric(store[h].ents)
                            /\ UNCHANGED store

NewMat(h, type)       == Put(h, MatNew(type))
SetMat(h, x, c, r)    == Held(h, "mat") /\ Put(h, MatSet(store[h], x, c, r))
IncMat(h, c, r)       == Held(h, "mat") /\ Put(h, MatInc(store[h], c, r))
ZeroMat(h, c, r)      == Held(h, "mat") /\ Put(h, MatZero(store[h], c, r))

NewBuilder(h, und, vc, l) == Put(h, BuilderNew(und, vc, l))
AddBlock(h, bits, p, w) == Held(h, "builder") /\ Put(h, BuilderAdd(store[h], bits, p, w))
Finish(h, h2)         == Held(h, "builder") /\
                         store' = [x \in (DOMAIN store \ {h}) \cup {h2} |->
                                      IF x = h2 THEN BuilderFinish(store[h]) ELSE store[x]]

----------------------------------------------------------------------------
\* The number of things an object consists of.
Extent(x) == CASE x.kind \in {"graph", "adj"} -> Cardinality(x.ents)
               [] x.kind = "mat"  -> Cardinality(DOMAIN x.vals)
               [] x.kind = "pool" -> Cardinality(DOMAIN x.cnt)
               [] x.kind \in {"cgraph", "builder"} -> SumSizes(x.blocks, DOMAIN x.blocks)
               [] OTHER -> 0

----------------------------------------------------------------------------
(* What holds of every object a program can reach (builders are trusted).  *)

WellFormedGraph(g) ==
    /\ IsWord(g.dim)
    /\ \A e \in g.ents : WLt(e[1], g.dim) /\ WLt(e[2], g.dim)
    /\ g.und => Symmetric(g.ents)

WellFormedCompressed(c) ==
    /\ c.level \in 1..(K * K)
    /\ c.mdim = CDim(c.vc)
    /\ \A p \in DOMAIN c.blocks :
          /\ c.blocks[p] # {}
          /\ \A b \in c.blocks[p] : /\ WLt(At(p[1], b[1]), c.vc)
                                    /\ WLt(At(p[2], b[2]), c.vc)
    /\ c.ec = WordOf(SumSizes(c.blocks, DOMAIN c.blocks))
    /\ c.und => Symmetric(CEdges(c))
=============================================================================
