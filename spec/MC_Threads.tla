------------------------------ MODULE MC_Threads ------------------------------
(***************************************************************************)
(* Calls made by several threads at a time. A call takes effect at some      *)
(* moment between its begin and its end. Threads change only what is theirs; *)
(* one graph is everybody's and is only read; an object may be given to      *)
(* another thread between calls. Then every thread sees exactly what it      *)
(* would see if it were alone: which is why a trace of one thread can be     *)
(* checked by itself, whatever the other threads did meanwhile.              *)
(***************************************************************************)
EXTENDS Wire, Json

CONSTANTS Ids, Threads, Depth, Emit

VARIABLES owner,    \* handle -> thread
          pend,     \* thread -> call under way and whether it has taken effect
          alone,    \* thread -> what its handles hold if nobody else runs
          call

mvars == <<store, owner, pend, alone, call>>
V == {<<n>> : n \in Ids}
Shared == "s"
SharedGraph == GraphAddEdge(GraphNew(FALSE), <<1>>, <<0>>)
\* every thread begins with one graph, and has room for another object
First(t) == <<"g", "h">>[t]
Room(t)  == <<"x", "y">>[t]

Idle == <<"idle">>
Mine(t) == {h \in DOMAIN owner : owner[h] = t}
GraphAt(h) == h \in DOMAIN store /\ store[h].kind = "graph"
CGraphAt(h) == h \in DOMAIN store /\ store[h].kind = "cgraph"
\* What a call makes of the things s of a thread (or of everything).
Effect(c, s) ==
    CASE c[1] = "adde" -> [s EXCEPT ![c[2]] = GraphAddEdge(@, <<c[3]>>, <<c[4]>>)]
      [] c[1] = "dele" -> [s EXCEPT ![c[2]] = GraphDeleteEdge(@, <<c[3]>>, <<c[4]>>)]
      [] c[1] = "clone" -> (c[3] :> IF c[2] = Shared THEN SharedGraph ELSE s[c[2]]) @@ s
      [] c[1] = "compress" -> (c[3] :> Compress(IF c[2] = Shared THEN SharedGraph ELSE s[c[2]], 1)) @@ s
      [] c[1] = "decompress" -> (c[3] :> Decompress(s[c[2]])) @@ s
      [] c[1] = "drop" -> [h \in DOMAIN s \ {c[2]} |-> s[h]]
      [] OTHER -> s
Answer(c, s) == IF c[1] = "obs" THEN s[c[2]] ELSE <<>>

Calls(t) ==
    {<<o, h, u[1], v[1]>> : o \in {"adde", "dele"}, h \in {x \in Mine(t) : GraphAt(x)}, u \in V, v \in V}
    \cup {<<o, h, Room(t)>> : o \in {"clone", "compress"}, h \in {x \in Mine(t) \cup {Shared} : GraphAt(x)}}
    \cup {<<"decompress", h, First(t)>> : h \in {x \in Mine(t) : CGraphAt(x)}}
    \cup {<<"drop", h>> : h \in Mine(t) \ {First(t)}}
    \cup {<<"obs", h>> : h \in Mine(t) \cup {Shared}}
\* Calls that would take a handle somebody else has are nobody's business here.
Free(t, c) == c[1] \in {"clone", "compress", "decompress"} => c[3] \in Mine(t) \/ c[3] \notin DOMAIN owner

Key(s, o) == ToString(<<s, o>>)
MInit == /\ store = (Shared :> SharedGraph) @@ [h \in {First(t) : t \in Threads} |-> GraphNew(FALSE)]
         /\ owner = [h \in {First(t) : t \in Threads} |-> CHOOSE t \in Threads : First(t) = h]
         /\ pend = [t \in Threads |-> Idle]
         /\ alone = [t \in Threads |-> First(t) :> GraphNew(FALSE)]
         /\ call = <<"start">>
         /\ Emit => PrintT(ToJson([init |-> Key(store, owner), threads |-> Cardinality(Threads)]))

Begin(t) == /\ pend[t] = Idle
            /\ \E c \in Calls(t) : Free(t, c) /\ pend' = [pend EXCEPT ![t] = <<"begun", c>>]
            /\ UNCHANGED <<store, owner, alone, call>>
Takes(t) == /\ pend[t][1] = "begun"
            /\ LET c == pend[t][2]
               IN  /\ store' = Effect(c, store)
                   /\ pend' = [pend EXCEPT ![t] = <<"done", c, Answer(c, store)>>]
                   /\ owner' = [h \in (DOMAIN store' \ {Shared}) |-> IF h \in DOMAIN owner THEN owner[h] ELSE t]
                   /\ call' = <<t>> \o c
                   /\ Emit => PrintT(ToJson([s |-> Key(store, owner), c |-> call', t |-> Key(store', owner')]))
            /\ UNCHANGED alone
End(t) == /\ pend[t][1] = "done"
          /\ LET c == pend[t][2]
             IN  alone' = [alone EXCEPT ![t] = Effect(c, @)]
          /\ pend' = [pend EXCEPT ![t] = Idle]
          /\ UNCHANGED <<store, owner, call>>
Give(t, u) == /\ t # u /\ pend[t] = Idle /\ pend[u] = Idle
              /\ UNCHANGED <<store, pend>>
              /\ \E h \in Mine(t) \ {First(t)} :
                    /\ owner' = [owner EXCEPT ![h] = u]
                    /\ alone' = [alone EXCEPT ![t] = [x \in DOMAIN @ \ {h} |-> @[x]], ![u] = (h :> alone[t][h]) @@ @]
                    /\ call' = <<t, "give", h, u>>
                    /\ Emit => PrintT(ToJson([s |-> Key(store, owner), c |-> call', t |-> Key(store', owner')]))
MNext == \E t \in Threads : Begin(t) \/ Takes(t) \/ End(t) \/ \E u \in Threads : Give(t, u)
MSpec == MInit /\ [][MNext]_mvars
Near == TLCGet("level") <= Depth
MView == <<store, owner, pend, alone>>

----------------------------------------------------------------------------
AsIfAlone == \A t \in Threads : pend[t] = Idle =>
                /\ DOMAIN alone[t] = Mine(t)
                /\ \A h \in Mine(t) : store[h] = alone[t][h]
\* An answer is that of the thread alone.
Answers == [][\A t \in Threads : pend[t][1] = "done" /\ pend'[t] = Idle =>
                 pend[t][3] = IF pend[t][2] = <<"obs", Shared>> THEN SharedGraph ELSE Answer(pend[t][2], alone[t])]_mvars
SharedStays == store[Shared] = SharedGraph
=============================================================================
