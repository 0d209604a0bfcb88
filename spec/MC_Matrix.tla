------------------------------ MODULE MC_Matrix ------------------------------
(***************************************************************************)
(* All histories of an adjacency matrix ("adj") or a numeric matrix ("mat") *)
(* over a few indices, the largest word (255, as W = 1) among them.         *)
(* Ghosts: the value every cell should read as, and the indices ever set.   *)
(***************************************************************************)
EXTENDS Graphrox, Json

CONSTANTS Kind, Pairs, Values, Emit

VARIABLES cell, named

\* Choices for Pairs
AllPairs  == {0, 1, 255} \X {0, 1, 255}
FewPairs  == {<<0, 0>>, <<1, 0>>, <<255, 0>>, <<1, 255>>}
Signed5 == {-2, -1, 0, 1, 2}
Signed3 == {-1, 0, 1}
MorePairs == {0, 1, 2, 255} \X {0, 1, 2, 255}

mvars == <<store, cell, named>>
m == store["m"]
Wd(i) == <<i>>
Ix == {p[1] : p \in Pairs} \cup {p[2] : p \in Pairs}
N(v) == [neg |-> v < 0, m |-> BOf(IF v < 0 THEN 0 - v ELSE v), e |-> 0]
Lo == CHOOSE v \in Values : \A w \in Values : v <= w
Hi == CHOOSE v \in Values : \A w \in Values : w <= v

Calls == IF Kind = "adj"
         THEN {<<"seta", v, p[1], p[2]>> : v \in Values, p \in Pairs} \cup {<<"zeroa", p[1], p[2]>> : p \in Pairs}
         ELSE {<<"setm", v, p[1], p[2]>> : v \in Values, p \in Pairs} \cup {<<"zerom", p[1], p[2]>> : p \in Pairs}
              \cup {<<"incm", p[1], p[2]>> : p \in Pairs}

Do(c) == CASE c[1] = "seta" -> SetAdj("m", c[2], Wd(c[3]), Wd(c[4]))
           [] c[1] = "zeroa" -> ZeroAdj("m", Wd(c[2]), Wd(c[3]))
           [] c[1] = "setm" -> SetMat("m", N(c[2]), Wd(c[3]), Wd(c[4]))
           [] c[1] = "zerom" -> ZeroMat("m", Wd(c[2]), Wd(c[3]))
           [] c[1] = "incm" -> IncMat("m", Wd(c[2]), Wd(c[3]))

Cell(c) == IF Len(c) = 4 THEN <<c[3], c[4]>> ELSE <<c[2], c[3]>>
Sets(c) == c[1] \in {"seta", "setm", "incm"}
Can(p) == p[1] # 255 /\ p[2] # 255
Value(c) == CASE c[1] = "seta" -> IF c[2] = 0 THEN 0 ELSE 1
              [] c[1] = "setm" -> c[2]
              [] c[1] = "incm" -> cell[Cell(c)] + 1
              [] OTHER -> 0
Ghost(c) == /\ cell' = IF Can(Cell(c)) THEN [cell EXCEPT ![Cell(c)] = Value(c)] ELSE cell
            /\ named' = IF Sets(c) /\ Can(Cell(c)) THEN named \cup {Cell(c)[1], Cell(c)[2]} ELSE named

MInit == /\ store = ("m" :> IF Kind = "adj" THEN AdjNew ELSE MatNew("i8"))
         /\ cell = [p \in Pairs |-> 0]
         /\ named = {}
         /\ Emit => PrintT(ToJson([init |-> ToString(<<cell, m.dim>>), kind |-> Kind]))
MNext == \E c \in Calls :
            /\ c[1] = "incm" => cell[Cell(c)] < Hi
            /\ Do(c) /\ Ghost(c)
            /\ Emit => PrintT(ToJson([s |-> ToString(<<cell, m.dim>>), c |-> c, t |-> ToString(<<cell', m'.dim>>)]))
MSpec == MInit /\ [][MNext]_mvars

----------------------------------------------------------------------------
Ones == {p \in Pairs : cell[p] # 0}
W2(S) == {<<Wd(p[1]), Wd(p[2])>> : p \in S}
Dimension == m.dim = IF named = {} THEN WZero ELSE Wd(1 + CHOOSE i \in named : \A j \in named : j <= i)
Entries == IF Kind = "adj"
           THEN /\ m.ents = W2(Ones)
                /\ \A p \in Pairs : AdjGet(m, Wd(p[1]), Wd(p[2])) = cell[p]
                /\ \A i \in Ix : Col(m.ents, Wd(i)) = {Wd(p[2]) : p \in {q \in Ones : q[1] = i}}
                /\ \A i \in Ix : Row(m.ents, Wd(i)) = {Wd(p[1]) : p \in {q \in Ones : q[2] = i}}
           ELSE /\ DOMAIN m.vals = W2(Ones)
                /\ \A p \in Pairs : NEq(MatGet(m, Wd(p[1]), Wd(p[2])), N(cell[p]))
\* A graph can be made of it exactly if it is its own mirror image; then it has these edges.
ToGraph == Kind = "adj" =>
    /\ (ENABLED UndirectedFrom("m", "g")) = (\A p \in Pairs : p \in Ones => <<p[2], p[1]>> \in Ones)
    /\ LET g == GraphFromAdj(m, FALSE) IN WellFormedGraph(g) /\ \A p \in Pairs : HasEdge(g, Wd(p[1]), Wd(p[2])) = (p \in Ones)
Grows == [][WLe(m.dim, m'.dim)]_mvars
=============================================================================
