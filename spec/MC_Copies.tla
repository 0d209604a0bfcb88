------------------------------ MODULE MC_Copies ------------------------------
(***************************************************************************)
(* Two graphs and what is derived from them: copies, compressed copies,     *)
(* decompressed and re-decoded ones, changed on either side in every order. *)
(* A call changes the object it is called on, or the one it makes, and      *)
(* nothing else; an object made from another equals it at that moment.      *)
(***************************************************************************)
EXTENDS Wire, Json

CONSTANTS Ids, Emit

VARIABLE call

mvars == <<store, call>>
V == {<<n>> : n \in Ids}
H == {"g", "h"}

Calls == {<<"adde", h, u[1], v[1]>> : h \in H, u \in V, v \in V}
    \cup {<<"dele", h, u[1], v[1]>> : h \in H, u \in V, v \in V}
    \cup {<<"addv", h, u[1]>> : h \in H, u \in V}
    \cup {<<o, p[1], p[2]>> : o \in {"clone", "decm"}, p \in {<<"g", "h">>, <<"h", "g">>}}
    \cup {<<"compress", h, "c">> : h \in H} \cup {<<"decompress", "c", h>> : h \in H}
    \cup {<<"drop", h>> : h \in {"h", "c"}}
    \cup {<<"obs", h>> : h \in {"g"}}

Graphs(h) == h \in DOMAIN store /\ store[h].kind = "graph"
Do(c) == CASE c[1] = "adde" -> AddEdge(c[2], <<c[3]>>, <<c[4]>>)
           [] c[1] = "dele" -> DeleteEdge(c[2], <<c[3]>>, <<c[4]>>)
           [] c[1] = "addv" -> AddVertex(c[2], <<c[3]>>, <<>>)
           [] c[1] = "clone" -> Duplicate(c[2], c[3])
           [] c[1] = "decm" -> Graphs(c[2]) /\ DecodeTo("graph", EncodeGraph(store[c[2]]), c[3])
           [] c[1] = "compress" -> CompressTo(c[2], c[3], 1)
           [] c[1] = "decompress" -> DecompressTo(c[2], c[3])
           [] c[1] = "drop" -> Drop(c[2])
           [] c[1] = "obs" -> UNCHANGED store

Key(s) == ToString(s)
MInit == /\ \E und \in BOOLEAN : store = ("g" :> GraphNew(und))
         /\ call = <<"start">>
         /\ Emit => PrintT(ToJson([init |-> Key(store), und |-> store["g"].und]))
MNext == \E c \in Calls :
            /\ Do(c) /\ call' = c
            /\ Emit => PrintT(ToJson([s |-> Key(store), c |-> c, t |-> Key(store')]))
MSpec == MInit /\ [][MNext]_mvars
MView == store

----------------------------------------------------------------------------
Makes == {"clone", "decm", "compress", "decompress"}
Target(c) == IF c[1] \in Makes THEN c[3] ELSE c[2]
OnlyTarget == [][\A h \in (DOMAIN store \cup DOMAIN store') \ {Target(call')} :
                    h \in DOMAIN store /\ h \in DOMAIN store' /\ store'[h] = store[h]]_mvars
EqualAtFirst == [][/\ call'[1] \in {"clone", "decm"} => store'[call'[3]] = store[call'[2]]
                   /\ call'[1] = "compress" => Decompress(store'["c"]) = store[call'[2]]
                   /\ call'[1] = "decompress" => Compress(store'[call'[3]], 1) = store["c"]]_mvars
Sound == \A h \in DOMAIN store : IF store[h].kind = "graph" THEN WellFormedGraph(store[h])
                                 ELSE WellFormedCompressed(store[h])
=============================================================================
