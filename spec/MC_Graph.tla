------------------------------ MODULE MC_Graph ------------------------------
(***************************************************************************)
(* All histories of one graph over a few vertex ids, the largest word      *)
(* among them (W = 1, so that is 255).                                     *)
(*                                                                         *)
(* The state is checked against ghosts that know nothing of matrices: for   *)
(* every pair, whether the last call naming it added or deleted it, and the *)
(* set of ids that were ever added.                                        *)
(***************************************************************************)
EXTENDS Graphrox, Json

CONSTANTS Ids,          \* vertex ids, as numbers
          Lists,        \* longest list of neighbours given to AddVertex
          Emit          \* print every transition

VARIABLES last, named

mvars == <<store, last, named>>
V == {<<n>> : n \in Ids}
g == store["g"]

Calls == {[op |-> "adde", u |-> u, vs |-> <<v>>] : u \in V, v \in V}
    \cup {[op |-> "dele", u |-> u, vs |-> <<v>>] : u \in V, v \in V}
    \cup {[op |-> "addv", u |-> u, vs |-> vs] : u \in V, vs \in UNION {[1..n -> V] : n \in 0..Lists}}

\* The links a call adds or removes.
Links(c) == LET s == {<<c.u, c.vs[i]>> : i \in DOMAIN c.vs}
                t == IF g.und THEN s \cup {<<p[2], p[1]>> : p \in s} ELSE s
            IN  {p \in t : p[1] # WMax /\ p[2] # WMax}

Ghost(c) ==
    /\ last'  = [p \in V \X V |-> IF p \in Links(c) THEN c.op # "dele" ELSE last[p]]
    /\ named' = named \cup
                CASE c.op = "dele" -> {}
                  [] c.vs = <<>> -> {c.u} \ {WMax}
                  [] OTHER -> UNION {{p[1], p[2]} : p \in Links(c)}

Do(c) == CASE c.op = "adde" -> AddEdge("g", c.u, c.vs[1])
           [] c.op = "dele" -> DeleteEdge("g", c.u, c.vs[1])
           [] OTHER -> AddVertex("g", c.u, c.vs)

Key(s) == ToString(s["g"])
Script(c) == CASE c.op = "addv" -> <<"addv", c.u[1], [i \in DOMAIN c.vs |-> c.vs[i][1]]>>
               [] OTHER -> <<c.op, c.u[1], c.vs[1][1]>>

MInit == /\ \E und \in BOOLEAN : store = ("g" :> GraphNew(und))
         /\ last = [p \in V \X V |-> FALSE]
         /\ named = {}
         /\ Emit => PrintT(ToJson([init |-> Key(store), und |-> g.und]))
MNext == \E c \in Calls :
            /\ Do(c)
            /\ Ghost(c)
            /\ Emit => PrintT(ToJson([s |-> Key(store), c |-> Script(c), t |-> Key(store')]))

MSpec == MInit /\ [][MNext]_mvars

----------------------------------------------------------------------------
Membership == \A p \in V \X V : HasEdge(g, p[1], p[2]) = last[p]
Mirrored   == g.und => Symmetric(g.ents)
Counted    == EdgeCount(g) = Cardinality({p \in V \X V : last[p]})
Vertices   == VertexCount(g) =
                  IF named = {} THEN WZero
                  ELSE <<1 + CHOOSE n \in Ids : <<n>> \in named /\ \A m \in Ids : <<m>> \in named => m <= n>>
Neighbours == \A v \in V :
    /\ OutEdges(g, v) = {w \in V : last[<<v, w>>]}
    /\ InEdges(g, v)  = {w \in V : last[<<w, v>>]}
RECURSIVE Sum(_, _)
Sum(f(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f(x) + Sum(f, S \ {x})
DegreeSums == /\ Sum(LAMBDA v : Cardinality(OutEdges(g, v)), V) = EdgeCount(g)
              /\ Sum(LAMBDA v : Cardinality(InEdges(g, v)), V) = EdgeCount(g)
Sound      == WellFormedGraph(g) /\ \A e \in g.ents : Addressable(e[1]) /\ Addressable(e[2])

Grows      == [][WLe(g.dim, g'.dim) /\ g.und = g'.und]_mvars
\* Deleting what is not there, or adding what is, changes nothing.
Idle       == [][last' = last /\ named' = named => g' = g]_mvars
=============================================================================
