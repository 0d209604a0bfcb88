------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks a recorded execution of the implementation against the            *)
(* specification.  Each event is matched by the specification's own action  *)
(* of that call; its result and the observations logged with it are then    *)
(* compared with what the specification's state implies.                    *)
(*                                                                          *)
(* SCOPE (environment) lists the aspects that the property under check is   *)
(* about: an event whose comparison fails in scope is not matched, and the  *)
(* trace is rejected there.  A comparison is in scope if its own aspect, or *)
(* the operation it was made by, is listed.  Panics, aborts and hangs are   *)
(* in every scope.                                                          *)
(***************************************************************************)
EXTENDS Render, Own, Json, IOUtils, TLCExt

VARIABLES l,            \* next event
          U,            \* ids that observations probe
          pools         \* f64 entries last observed, by handle of an average pooling matrix

tvars == <<store, owns, held, iters, l, U, pools>>

Events == ndJsonDeserialize(IOEnv.TRACE)
Scope  == LET s == JsonDeserialize(IOEnv.SCOPE) IN {s[i] : i \in DOMAIN s}

Ev == Events[l]
OpIs(o) == Ev.op = o

Has(r, f) == f \in DOMAIN r
SetOf(s) == {s[i] : i \in DOMAIN s}
NumOf(x) == [neg |-> x[1] = 1, m |-> BFromBE(x[2]), e |-> x[3]]

\* One comparison.
OpTag == IF Ev.op = "dec" THEN "dec-" \o Ev.k ELSE Ev.op
In(asp) == asp \in Scope \/ OpTag \in Scope \/ "all" \in Scope
\* (IF rather than \/: TLC would explore each disjunct of an action.)
Chk(asp, ok, what, exp, got) ==
    IF ok THEN TRUE
    ELSE IF ~In(asp) THEN TRUE
    ELSE /\ PrintT(<<"MISMATCH", l, asp, what, "expected", exp, "got", got>>)
         /\ FALSE
\* Evaluate P as a value, not as an action.
Holds(P) == IF P THEN TRUE ELSE FALSE
Same(asp, what, exp, got) == Chk(asp, exp = got, what, exp, got)

\* Long lists of pairs (or of ids, as pairs with 0) are recorded as runs <<first, second, how many seconds in a row>>.
Run(lo, n, step) == [i \in 1..n |-> WordOf(lo + (i - 1) * step)]
RunSet(rs) ==
    LET of(n)   == {i \in DOMAIN rs : rs[i][3] = n}
        ones    == {<<rs[i][1], rs[i][2]>> : i \in of(1)}
        more(n) == LET lo == [i \in of(n) |-> WToInt(rs[i][2])]
                   IN  {<<rs[i][1], WordOf(lo[i] + j)>> : i \in of(n), j \in 0..(n - 1)}
        lengths == {rs[i][3] : i \in DOMAIN rs} \ {1}
    IN  FoldSet(LAMBDA n, S : Sorted(S \cup Sorted(more(n))), Sorted(ones), lengths)
RunLen(rs) == FoldLeft(LAMBDA n, r : n + r[3], 0, rs)
Runs(s) == s # <<>> /\ Len(s[1]) = 3
Listed(s) == IF Runs(s) THEN [set |-> RunSet(s), len |-> RunLen(s)] ELSE [set |-> Sorted(SetOf(s)), len |-> Len(s)]
SameListed(asp, what, exp, got) ==
    /\ Chk(asp, got.set = exp, what, exp, got.set)
    /\ Chk(asp, got.len = Cardinality(exp), what \o " (duplicates)", Cardinality(exp), got.len)

\* A list without duplicates, in any order.
SameIds(asp, what, exp, got) ==
    SameListed(asp, what, Sorted(exp), IF Runs(got) THEN [set |-> Sorted({e[2] : e \in RunSet(got)}), len |-> RunLen(got)] ELSE Listed(got))
SameSet(asp, what, exp, got) ==
    /\ Chk(asp, SetOf(got) = exp, what, exp, SetOf(got))
    /\ Chk(asp, Len(got) = Cardinality(exp), what \o " (duplicates)", Cardinality(exp), Len(got))

Grid(asp, what, f(_, _), ids, got) ==
    \A i \in DOMAIN ids : \A j \in DOMAIN ids :
        Chk(asp, f(ids[i], ids[j]) = got[i][j], what, <<ids[i], ids[j], f(ids[i], ids[j])>>, got[i][j])

----------------------------------------------------------------------------
(* Observations *)

ObsGraph(g, o) ==
    LET it == TLCEval(Listed(o.it)) IN
    /\ Same("und", "is_undirected", g.und, o.und)
    /\ Same("vc", "vertex_count", VertexCount(g), o.vc)
    /\ Same("count", "edge_count", WordOf(EdgeCount(g)), o.ec)
    /\ SameListed("iter", "edges", g.ents, it)
    /\ Grid("exists", "does_edge_exist", LAMBDA u, v : Flag(HasEdge(g, u, v)), U, o.ex)
    /\ g.und => Chk("mirror", /\ \A i \in DOMAIN U : \A j \in DOMAIN U : o.ex[i][j] = o.ex[j][i]
                              /\ Symmetric(it.set), "symmetry", "symmetric", it)
    /\ g.und => Chk("mirror", /\ it.set = g.ents /\ it.len = Cardinality(g.ents)
                              /\ o.ec = WordOf(EdgeCount(g)), "edges of undirected graph",
                              g.ents, it)
    /\ \A i \in DOMAIN U :
          LET outs == OutEdges(g, U[i])
              ins  == InEdges(g, U[i])
          IN  /\ SameIds("nbr", "get_vertex_out_edges", outs, o.outl[i])
              /\ SameIds("nbr", "get_vertex_in_edges", ins, o.inl[i])
              /\ Same("nbr", "get_vertex_out_degree", WordOf(Cardinality(outs)), o.outd[i])
              /\ Same("nbr", "get_vertex_in_degree", WordOf(Cardinality(ins)), o.ind[i])

ObsCGraph(c, o) ==
    /\ Same("und", "is_undirected", c.und, o.und)
    /\ Same("vc", "vertex_count", c.vc, o.vc)
    /\ Same("count", "edge_count", c.ec, o.ec)
    /\ Same("level", "compression_level", c.level, o.lvl)
    /\ Grid("exists", "does_edge_exist", LAMBDA u, v : Flag(CHasEdge(c, u, v)), U, o.ex)
    /\ Grid("cexists", "does_edge_exist", LAMBDA u, v : Flag(CHasEdge(c, u, v)), U, o.ex)
    /\ c.und => Chk("mirror", \A i \in DOMAIN U : \A j \in DOMAIN U : o.ex[i][j] = o.ex[j][i],
                    "symmetry", "symmetric", o.ex)
    /\ Grid("block", "get_compressed_matrix_entry",
            LAMBDA a, b : BlockBytes(CBlock(c, <<a, b>>)), o.bu, o.cme)

ObsAdj(m, o) ==
    /\ Same("adj", "dimension", m.dim, o.dim)
    /\ Same("adj", "entry_count", WordOf(Cardinality(m.ents)), o.ec)
    /\ SameSet("adj", "entries", m.ents, o.it)
    /\ Grid("adj", "get_entry", LAMBDA c, r : AdjGet(m, c, r), U, o.get)
    /\ \A i \in DOMAIN U :
          /\ SameSet("adj", "get_sparse_col_vector", Col(m.ents, U[i]), o.cv[i])
          /\ SameSet("adj", "get_sparse_row_vector", Row(m.ents, U[i]), o.rv[i])
          /\ Same("adj", "col_nonzero_entry_count", WordOf(Cardinality(Col(m.ents, U[i]))), o.cc[i])
          /\ Same("adj", "row_nonzero_entry_count", WordOf(Cardinality(Row(m.ents, U[i]))), o.rc[i])

IsNum(x) == x # <<>> /\ NFinite(NumOf(x))        \* <<>> stands for any that is not
NumIs(exp, got) == got # <<>> /\ NEq(exp, NumOf(got))

ObsMat(m, o) ==
    /\ Same("mat", "dimension", m.dim, o.dim)
    /\ Same("mat", "entry_count", WordOf(Cardinality(DOMAIN m.vals)), o.ec)
    /\ SameSet("mat", "entries", DOMAIN m.vals, [i \in DOMAIN o.it |-> <<o.it[i][2], o.it[i][3]>>])
    /\ \A i \in DOMAIN o.it :
          Chk("mat", NumIs(MatGet(m, o.it[i][2], o.it[i][3]), o.it[i][1]), "entry",
              MatGet(m, o.it[i][2], o.it[i][3]), o.it[i])
    /\ \A i \in DOMAIN U : \A j \in DOMAIN U :
          Chk("mat", NumIs(MatGet(m, U[i], U[j]), o.get[i][j]), "get_entry",
              <<U[i], U[j], MatGet(m, U[i], U[j])>>, o.get[i][j])

\* |got - cnt / area| <= 2^-45 * cnt / area
Close(cnt, area, got) ==
    /\ IsNum(got) /\ got[1] = 0
    /\ LET m == BMul(BFromBE(got[2]), area)
           c == BOf(cnt)
       IN  IF got[3] >= 0 THEN BLe(BShl(BDiff(BShl(m, got[3]), c), 45), c)
           ELSE LET c2 == BShl(c, 0 - got[3]) IN BLe(BShl(BDiff(m, c2), 45), c2)

ObsPool(m, o) ==
    LET area == PoolArea(m)
        at   == TLCEval([i \in DOMAIN o.it |-> <<o.it[i][2], o.it[i][3]>>])
        \* few distinct values: judge each once
        good == TLCEval({x \in {<<m.cnt[at[i]], o.it[i][1]>> : i \in {j \in DOMAIN at : at[j] \in DOMAIN m.cnt}} :
                            Close(x[1], area, x[2])})
        val(c, r) == IF <<c, r>> \in DOMAIN m.cnt
                     THEN LET i == CHOOSE i \in DOMAIN at : at[i] = <<c, r>> IN o.it[i][1]
                     ELSE <<0, <<>>, 0>>
    IN
    /\ Same("pooled", "dimension", m.dim, o.dim)
    /\ Same("pooled", "entry_count", WordOf(Cardinality(DOMAIN m.cnt)), o.ec)
    /\ SameSet("pooled", "entries", DOMAIN m.cnt, at)
    /\ SetOf(at) = DOMAIN m.cnt =>
         /\ \A i \in DOMAIN o.it :
               Chk("pooled", <<m.cnt[at[i]], o.it[i][1]>> \in good, "average",
                   <<at[i], m.cnt[at[i]], "/", area>>, o.it[i])
         /\ Grid("pooled", "get_entry", val, U, o.get)

\* An object the implementation should not have returned is not followed any further.
Obs1(o, st) ==
    IF o.h \notin DOMAIN st THEN Chk("handle", FALSE, "object that should not exist", o.h, o.k)
    ELSE LET x == st[o.h] IN
         CASE x.kind = "unknown" -> TRUE
           [] x.kind = "graph"   -> Chk("handle", o.k = "graph", "kind", "graph", o.k) /\ ObsGraph(x, o)
           [] x.kind = "cgraph"  -> Chk("handle", o.k = "cgraph", "kind", "cgraph", o.k) /\ ObsCGraph(x, o)
           [] x.kind = "adj"     -> ObsAdj(x, o)
           [] x.kind = "mat"     -> ObsMat(x, o)
           [] x.kind = "pool"    -> ObsPool(x, o)
           [] OTHER              -> TRUE

NewPools ==
    IF ~Has(Ev, "obs") THEN pools
    ELSE LET os == Ev.obs
             ps == {i \in DOMAIN os : os[i].k = "mat" /\ os[i].h \in DOMAIN store'
                                      /\ store'[os[i].h].kind = "pool"}
         IN  [h \in {os[i].h : i \in ps} |-> LET i == CHOOSE i \in ps : os[i].h = h IN os[i].it] @@ pools

Observed == /\ Holds(Has(Ev, "obs") => \A i \in DOMAIN Ev.obs : Obs1(Ev.obs[i], store'))
            /\ pools' = NewPools

----------------------------------------------------------------------------
(* Events *)

Known(h) == h \in DOMAIN store /\ store[h].kind # "unknown"
\* Calls on an object that is not followed are accepted unseen.
Unknown == /\ Has(Ev, "h") /\ ~Known(Ev.h) /\ Ev.op \notin {"newg", "newa", "newm", "newb"}
           /\ IF Has(Ev, "h2") THEN Put(Ev.h2, [kind |-> "unknown"]) ELSE UNCHANGED store
           /\ UNCHANGED U

Thr(t) == IF t.kind = "num" THEN [t EXCEPT !.p = BFromBE(@), !.q = BFromBE(@)] ELSE t

Stutter == UNCHANGED <<store, U>>

\* Encoded and decoded again; a long message is not recorded as bytes.
Redecoded ==
    LET x  == store[Ev.same]
        it == TLCEval(Listed(Ev.it))
    IN  /\ Chk("gencode", /\ Ev.head = GraphHead(x) /\ Ev.rest = 0
                          /\ it.set = x.ents /\ it.len = Cardinality(x.ents), "to_bytes", <<GraphHead(x), x.ents>>, Ev)
        /\ Chk("gverdict", Ev.ok, "decoder verdict", "ok", Ev.ok)
        /\ IF Ev.ok THEN Put(Ev.h2, x) ELSE store' = Only(store, DOMAIN store \ {Ev.h2})

Decoded ==
    LET d == IF Ev.k = "graph" THEN DecodeGraph(Ev.b) ELSE DecodeCGraph(Ev.b)
        good == IF Ev.ok THEN d.verdict # "err" ELSE d.verdict # "ok"
    IN
        /\ Chk(IF Ev.k = "graph" THEN "gverdict" ELSE "cverdict", good, "decoder verdict", d.verdict, Ev.ok)
        /\ IF Ev.ok /\ d.verdict = "err" THEN Put(Ev.h2, [kind |-> "unknown"])
           ELSE IF Ev.ok THEN DecodeTo(Ev.k, Ev.b, Ev.h2)
           ELSE IF d.verdict = "ok" THEN store' = Only(store, DOMAIN store \ {Ev.h2})
           ELSE DecodeRefused(Ev.k, Ev.b, Ev.h2)

GraphFromAdjacency ==
    LET m == store[Ev.h]
    IN  CASE Ev.mode = "dir" -> Same("a2g", "directed_from", TRUE, Ev.ok) /\ DirectedFrom(Ev.h, Ev.h2)
          [] Ev.mode = "unchecked" -> UndirectedFrom(Ev.h, Ev.h2)
          [] OTHER ->
              /\ Same("a2g", "undirected_from accepts", Symmetric(m.ents), Ev.ok)
              /\ Chk("mirror", Ev.ok => Symmetric(m.ents), "undirected graph of an asymmetric matrix", m.ents, Ev.ok)
              /\ IF ~Ev.ok THEN Stutter
                 ELSE IF Symmetric(m.ents) THEN UndirectedFrom(Ev.h, Ev.h2)
                 ELSE Put(Ev.h2, [kind |-> "unknown"])

Encoded ==
    LET x == store[Ev.h]
    IN  CASE x.kind = "graph" ->
               Chk("gencode", Ev.ok /\ IsGraphEncoding(Ev.b, x), "to_bytes", <<GraphHead(x), GraphRecords(x)>>, Ev.b)
          [] x.kind = "cgraph" ->
               Chk("cencode", Ev.ok /\ IsCGraphEncoding(Ev.b, x), "to_bytes", <<CGraphHead(x), CGraphRecords(x)>>, Ev.b)
          [] OTHER -> TRUE

Says(p)  == [t |-> "ok", page |-> p]
Refused  == [t |-> "err"]
Anything == [t |-> "any"]

Text(x, h, d) ==      \* what the rendering of x, held under h, with d digits must be
    CASE x.kind \in {"graph", "adj"} ->
           IF TooLarge(x.dim) THEN Refused ELSE IF Printable(x.dim) THEN Says(BoolPage(x.dim, x.ents)) ELSE Anything
      [] x.kind = "cgraph" ->
           IF TooLarge(x.mdim) THEN Refused
           ELSE IF Printable(x.mdim) THEN Says(NumPage(x.mdim, [p \in DOMAIN x.blocks |-> BlockNum(x.blocks[p])], 0))
           ELSE Anything
      [] x.kind = "mat" ->
           IF TooLarge(x.dim) THEN Refused
           ELSE IF Printable(x.dim)
                THEN Says(NumPage(x.dim, x.vals, IF d < 0 THEN IF x.type \in {"f32", "f64"} THEN 2 ELSE 0
                                                             ELSE d))
                ELSE Anything
      [] x.kind = "pool" ->
           IF TooLarge(x.dim) THEN Refused
           ELSE IF Printable(x.dim) /\ h \in DOMAIN pools /\ \A i \in DOMAIN pools[h] : IsNum(pools[h][i][1])
                THEN LET it == pools[h]
                     IN  Says(NumPage(x.dim, [p \in {<<it[i][2], it[i][3]>> : i \in DOMAIN it} |->
                              LET i == CHOOSE i \in DOMAIN it : <<it[i][2], it[i][3]>> = p IN NumOf(it[i][1])], IF d < 0 THEN 2 ELSE d))
                ELSE Anything
      [] OTHER -> Anything

TextIs(exp, got) == CASE exp.t = "any" -> TRUE
                      [] exp.t = "err" -> ~got.ok
                      [] ~got.ok -> FALSE
                      [] Has(got, "ix") -> IsPage(exp.page, got.lines, got.ix)
                      [] OTHER -> got.c = Whole(exp.page)

Rendered ==
    LET x   == store[Ev.h]
        exp == TLCEval(Text(x, Ev.h, Ev.d))
        asp == IF x.kind \in {"mat", "pool"} THEN "numtext" ELSE "text"
    IN  /\ Chk(asp, TextIs(exp, Ev.s), "rendering", exp, Ev.s)
        /\ Has(Ev, "s2") => Chk(asp, TextIs(exp, Ev.s2), "Display", exp, Ev.s2)

\* Two iterations at once: <<value, column, row>> of numeric matrices, pairs otherwise.
IteratedTwice ==
    LET x == store[Ev.h]
        S == CASE x.kind \in {"graph", "adj"} -> x.ents
               [] x.kind = "mat" -> DOMAIN x.vals
               [] OTHER -> DOMAIN x.cnt
        asp == CASE x.kind = "graph" -> "iter" [] x.kind = "pool" -> "pooled" [] OTHER -> x.kind
        is(c) == LET at == IF x.kind \in {"graph", "adj"} THEN c ELSE [i \in DOMAIN c |-> <<c[i][2], c[i][3]>>]
                 IN  /\ SameSet(asp, "iteration beside another", S, at)
                     /\ x.kind = "mat" => \A i \in DOMAIN c :
                           Chk(asp, NumIs(MatGet(x, at[i][1], at[i][2]), c[i][1]), "entry", MatGet(x, at[i][1], at[i][2]), c[i])
    IN  is(Ev.c) /\ is(Ev.c2) /\ Same(asp, "iterators stay ended", TRUE, Ev.over)

\* The same iteration by other means than asking for the next item.
IteratedInWays ==
    LET x == store[Ev.h]
        S == CASE x.kind \in {"graph", "adj"} -> x.ents
               [] x.kind = "mat" -> DOMAIN x.vals
               [] OTHER -> DOMAIN x.cnt
        n == Cardinality(S)
        asp == CASE x.kind = "graph" -> "iter" [] x.kind = "pool" -> "pooled" [] OTHER -> x.kind
        at(c) == IF x.kind \in {"graph", "adj"} THEN c ELSE [i \in DOMAIN c |-> <<c[i][2], c[i][3]>>]
        some(what, k, c) ==
            /\ Chk(asp, SetOf(at(c)) \subseteq S, what, S, c)
            /\ Chk(asp, Len(c) = k /\ Cardinality(SetOf(at(c))) = k, what \o " (how many)", k, c)
    IN  /\ Same(asp, "counting an iterator", n, Ev.n)
        /\ Same(asp, "counting the rest of an iterator", IF n > 0 THEN n - 1 ELSE 0, Ev.left)
        /\ some("the last item of the rest", IF n > 1 THEN 1 ELSE 0, Ev.llast)
        /\ \A i \in DOMAIN Ev.ways : SameSet(asp, "another way to iterate", S, at(Ev.ways[i]))
        /\ some("every second item", n \div 2, Ev.odd)
        /\ some("the last item", IF n > 0 THEN 1 ELSE 0, Ev.last)
        /\ Same(asp, "an item past the end", FALSE, Ev.past)
        /\ Same(asp, "steps to the end", n + 1, Len(Ev.hints))
        /\ \A i \in DOMAIN Ev.hints :
              LET left == n + 1 - i
                  h == Ev.hints[i]
              IN  Chk(asp, h[1] <= left /\ (h[2] = -1 \/ left <= h[2]), "size_hint", left, h)

----------------------------------------------------------------------------
(* The errors of refused calls, and what calls may cost *)

ErrorPrefix == <<71, 114, 97, 112, 104, 82, 111, 120, 69, 114, 114, 111, 114, 58, 32>>     \* "GraphRoxError: "
Failed ==
    Has(Ev, "fail") =>
        /\ Same("fail", "kind of error", IF Ev.op = "str" THEN "CapacityOverflow" ELSE "InvalidFormat", Ev.fail.e)
        /\ Same("fail", "error text", ErrorPrefix \o Ev.fail.m, Ev.fail.d)
        /\ Chk("fail", Ev.fail.m # <<>>, "error message", "some message", Ev.fail)

\* How much there is to hold: memory may grow with this, not with ids or with what a header claims.
Size(st, h) == IF h \in DOMAIN st THEN Extent(st[h]) ELSE 0
Units == (IF Has(Ev, "h") THEN Size(store, Ev.h) + Size(store', Ev.h) ELSE 0)
         + (IF Has(Ev, "h2") THEN Size(store', Ev.h2) ELSE 0)
         + (IF Has(Ev, "vs") THEN Len(Ev.vs) ELSE 0)
         + (IF Has(Ev, "b") /\ Ev.op \in {"dec", "enc"} THEN Len(Ev.b) ELSE 0)
         + (IF Has(Ev, "same") THEN Size(store, Ev.same) ELSE 0)
         + (IF Has(Ev, "run") THEN Ev.run[2] ELSE 0)
         + (IF Ev.op = "str" /\ Ev.s.ok THEN IF Has(Ev.s, "n") THEN Ev.s.n ELSE Len(Ev.s.c) ELSE 0)
         + (IF Ev.op = "hold" THEN Len(Ev.c) ELSE 0)
\* In KiB.
Allowed(units) == 64 + 4 * units
Affordable == Has(Ev, "kb") => Chk("cost", Ev.kb <= Allowed(Units), "memory used by the call (KiB)", Allowed(Units), Ev.kb)

----------------------------------------------------------------------------
(* Null handles and buffers, out-parameters and error codes of the C interface *)

NullCalls ==
    /\ \A i \in DOMAIN Ev.r :
          /\ Same("cnull", <<"result for a null handle", Ev.r[i].f>>, 0, Ev.r[i].r)
          /\ Chk("cnull", Ev.r[i].n \in {0, -1}, <<"length for a null handle", Ev.r[i].f>>, 0, Ev.r[i].n)
    /\ \A i \in DOMAIN Ev.d :
          /\ Same("cnull", "null result for a null buffer", TRUE, Ev.d[i].null)
          /\ Same("cnull", "error code for a null buffer", 1, Ev.d[i].err)

Codes ==
    /\ Has(Ev, "err") => Same("cerr", "error code", IF Ev.ok THEN 0 ELSE 1, Ev.err)
    /\ Has(Ev, "exc") => Same("pyerr", "exception", "ValueError", Ev.exc)

----------------------------------------------------------------------------
(* Lists, strings and buffers that are held *)

\* A pooling matrix' entries are known exactly only up to rounding.
PoolEntries(x, c) ==
    LET area == PoolArea(x)
        at   == [i \in DOMAIN c |-> <<c[i][2], c[i][3]>>]
    IN  /\ SetOf(at) = DOMAIN x.cnt
        /\ Len(at) = Cardinality(DOMAIN x.cnt)
        /\ \A i \in DOMAIN c : Close(x.cnt[at[i]], area, c[i][1])

IsListOf(S, c) == SetOf(c) = S /\ Len(c) = Cardinality(S)

ContentIs(kind, x, h, a, c) ==
    CASE kind = "bytes" /\ x.kind = "graph"  -> IsGraphEncoding(c, x)
      [] kind = "bytes" /\ x.kind = "cgraph" -> IsCGraphEncoding(c, x)
      [] kind = "str"   -> TextIs(Text(x, h, IF a = <<>> THEN -1 ELSE IF WSmall(a) THEN WToInt(a) ELSE -1),
                                  [ok |-> TRUE, c |-> c])
      [] kind = "edges" -> IsListOf(x.ents, c)
      [] kind = "out"   -> IsListOf(OutEdges(x, a), c)
      [] kind = "in"    -> IsListOf(InEdges(x, a), c)
      [] kind = "entries" -> PoolEntries(x, c)
      [] OTHER -> FALSE

Held1 ==
    /\ Chk("hold", ContentIs(Ev.kind, store[Ev.h], Ev.h, Ev.a, Ev.c), <<"content", Ev.kind>>, store[Ev.h], Ev.c)
    /\ Has(Ev, "len") => Same("hold", "len", Len(Ev.c), Ev.len)

Released == Same("held", "content when freed", held[Ev.n], Ev.c)

Indexed ==
    LET c == held[Ev.n]
    IN  /\ Same("pylist", "len", Len(c), Ev.len)
        /\ CASE OutOfRange(c, Ev.i) -> Chk("pylist", ~Ev.ok /\ Ev.exc = "IndexError", "index out of range",
                                           <<"IndexError", Ev.i>>, Ev)
             [] OTHER -> Chk("pylist", Ev.ok /\ Ev.r = ElementAt(c, Ev.i), "index", <<Ev.i, ElementAt(c, Ev.i)>>, Ev)

Walked == LET c == held[Ev.n]
          IN  /\ Same("pylist", "len", Len(c), Ev.len)
              /\ Same("pylist", "iteration", c, Ev.c)
              /\ Same("pylist", "interleaved iteration", c, Ev.c2)
              /\ Same("pylist", "unpacking", c, Ev.c3)

Stepped == IF Exhausted(Ev.it)
           THEN Chk("pylist", ~Ev.ok /\ Ev.exc = "StopIteration", "end of iteration", "StopIteration", Ev)
           ELSE Chk("pylist", Ev.ok /\ Ev.r = NextElement(Ev.it), "next", NextElement(Ev.it), Ev)

HeldStep ==
    CASE OpIs("reset") -> held' = <<>> /\ iters' = <<>>
      [] OpIs("hold") -> Hold(Ev.n, Ev.c) /\ UNCHANGED iters
      [] OpIs("rel")  -> Release(Ev.n) /\ UNCHANGED iters
      [] OpIs("iter") -> Iterate(Ev.n, Ev.it) /\ UNCHANGED held
      [] OpIs("next") -> Advance(Ev.it) /\ UNCHANGED held
      [] OTHER -> UNCHANGED <<held, iters>>

----------------------------------------------------------------------------
(* Memory: every call changes the number of live blocks by exactly what the things it creates, *)
(* changes or frees own.                                                                      *)

Obj(h) == <<"object", h>>
Buf(n) == <<"buffer", n>>

Ledger ==
    IF ~Has(Ev, "mem") THEN UNCHANGED owns
    ELSE
    LET d == Ev.mem[2] - Ev.mem[1]
        becomes(x, least) ==
            /\ Chk("mem", d + Owned(x) >= least, "blocks of a new or changed object", least, <<d, Owned(x)>>)
            /\ Create(x, d + Owned(x))
        goes(x) == Same("mem", "blocks returned by freeing", 0 - Owned(x), d) /\ IF x \in DOMAIN owns THEN Free(x) ELSE Query
        \* iterators may keep what they iterate over
        keeps == Chk("mem", d <= 0, "blocks allocated by an iterator or for one", 0, d)
    IN  /\ Same("mem", "blocks freed that were not live", 0, Ev.mem[3])
        /\ CASE OpIs("reset") -> Same("mem", "live blocks with nothing held", 0, Ev.mem[2]) /\ FreeAll
             [] OpIs("drop")  -> goes(Obj(Ev.h))
             [] OpIs("rel") /\ Iterated(Ev.n) -> keeps /\ Create(<<"iterated", Ev.n>>, Owned(Buf(Ev.n)) + d)
             [] Ev.op \in {"iter", "next"} -> keeps /\ Query
             [] OpIs("rel")   -> goes(Buf(Ev.n))
             [] OpIs("dec")   -> IF Ev.ok THEN becomes(Obj(Ev.h2), 1) ELSE goes(Obj(Ev.h2))
             [] OpIs("newg")  -> becomes(Obj(Ev.h), 1)
             [] Ev.op \in {"clone", "pool", "approx", "compress", "decompress"} -> becomes(Obj(Ev.h2), 1)
             [] Ev.op \in {"addv", "adde", "dele"} -> becomes(Obj(Ev.h), 1)
             \* a list may be copied into the caller's language as soon as it is made
             [] OpIs("hold")  -> becomes(Buf(Ev.n), 0)
             [] OTHER -> Same("mem", "blocks retained by a query", 0, d) /\ Query

Step ==
    \/ OpIs("reset") /\ store' = <<>> /\ UNCHANGED U
    \/ OpIs("U") /\ U' = Ev.ids /\ UNCHANGED store
    \/ OpIs("skip") /\ Stutter
    \/ Unknown
    \/ OpIs("newg") /\ NewGraph(Ev.h, Ev.und) /\ UNCHANGED U
    \/ OpIs("newa") /\ NewAdj(Ev.h) /\ UNCHANGED U
    \/ OpIs("newm") /\ NewMat(Ev.h, Ev.type) /\ UNCHANGED U
    \/ OpIs("newb") /\ NewBuilder(Ev.h, Ev.und, Ev.vc, Ev.lvl) /\ UNCHANGED U
    \/ OpIs("dec") /\ ~Has(Ev, "same") /\ Decoded /\ Holds(Codes) /\ UNCHANGED U
    \/ OpIs("dec") /\ Has(Ev, "same") /\ Known(Ev.same) /\ Redecoded /\ Holds(Codes) /\ UNCHANGED U
    \/ OpIs("dec") /\ Has(Ev, "same") /\ ~Known(Ev.same) /\ Put(Ev.h2, [kind |-> "unknown"]) /\ UNCHANGED U
    \/ OpIs("null") /\ Holds(NullCalls) /\ Stutter
    \/ OpIs("rel") /\ Holds(Released) /\ Stutter
    \/ OpIs("idx") /\ Holds(Indexed) /\ Stutter
    \/ OpIs("walk") /\ Holds(Walked) /\ Stutter
    \/ OpIs("iter") /\ Stutter
    \/ OpIs("next") /\ Holds(Stepped) /\ Stutter
    \/ OpIs("obsall") /\ Stutter
    \/ /\ Has(Ev, "h") /\ Known(Ev.h) /\ UNCHANGED U
       /\ \/ OpIs("addv") /\ AddVertex(Ev.h, Ev.u, IF Has(Ev, "run") THEN Run(Ev.run[1], Ev.run[2], Ev.run[3]) ELSE Ev.vs)
          \/ OpIs("adde") /\ ~Has(Ev, "run") /\ AddEdge(Ev.h, Ev.u, Ev.v)
          \/ OpIs("adde") /\ Has(Ev, "run") /\ AddEdges(Ev.h, SetOf(Run(Ev.run[1], Ev.run[2], Ev.run[3])), Ev.v)
          \/ OpIs("dele") /\ ~Has(Ev, "run") /\ DeleteEdge(Ev.h, Ev.u, Ev.v)
          \/ OpIs("dele") /\ Has(Ev, "run") /\ DeleteEdges(Ev.h, Ev.u, SetOf(Run(Ev.run[1], Ev.run[2], Ev.run[3])))
          \/ OpIs("clone") /\ Duplicate(Ev.h, Ev.h2)
          \/ OpIs("drop") /\ Drop(Ev.h)
          \/ OpIs("obs") /\ Stutter
          \/ OpIs("pool") /\ FindAvgPool(Ev.h, Ev.h2, Ev.b)
          \/ OpIs("approx") /\ ApproximateTo(Ev.h, Ev.h2, Ev.b, Thr(Ev.thr))
          \/ OpIs("compress") /\ CompressTo(Ev.h, Ev.h2, Ev.lvl)
          \/ OpIs("decompress") /\ DecompressTo(Ev.h, Ev.h2)
          \/ OpIs("seta") /\ SetAdj(Ev.h, Ev.e, Ev.c, Ev.r)
          \/ OpIs("zeroa") /\ ZeroAdj(Ev.h, Ev.c, Ev.r)
          \/ OpIs("a2g") /\ GraphFromAdjacency
          \/ OpIs("setm") /\ SetMat(Ev.h, NumOf(Ev.x), Ev.c, Ev.r)
          \/ OpIs("incm") /\ IncMat(Ev.h, Ev.c, Ev.r)
          \/ OpIs("zerom") /\ ZeroMat(Ev.h, Ev.c, Ev.r)
          \/ OpIs("addb") /\ AddBlock(Ev.h, BlockOf(Ev.e), <<Ev.c, Ev.r>>,
                                      IF Ev.w = <<>> THEN WordOf(Cardinality(BlockOf(Ev.e))) ELSE Ev.w)
          \/ OpIs("finish") /\ Finish(Ev.h, Ev.h2)
          \/ OpIs("enc") /\ Holds(Encoded) /\ Stutter
          \/ OpIs("str") /\ Holds(Rendered) /\ Stutter
          \/ OpIs("iter2") /\ Holds(IteratedTwice) /\ Stutter
          \/ OpIs("iter3") /\ Holds(IteratedInWays) /\ Stutter
          \/ OpIs("hold") /\ Holds(Held1) /\ Stutter

TraceInit == Init /\ OInit /\ l = 1 /\ U = <<>> /\ pools = <<>>
TraceNext == /\ l <= Len(Events)
             /\ l' = l + 1
             /\ Step
             /\ Observed
             /\ Holds(Failed)
             /\ Affordable
             /\ HeldStep
             /\ Ledger

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* States are linear in l; fingerprinting l is enough.
TraceView == l

TraceAccepted ==
    LET n == TLCGet("stats").diameter - 1
    IN  \/ n = Len(Events)
        \/ /\ PrintT(<<"REJECTED", n + 1, IF n < Len(Events) THEN Events[n + 1].op ELSE "end">>)
           /\ FALSE
=============================================================================
