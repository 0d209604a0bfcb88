------------------------------- MODULE MC_Wire -------------------------------
(***************************************************************************)
(* The decoders on all messages of a small shape (words of one byte, blocks *)
(* of 2 x 2): every combination of header fields and records below, and     *)
(* every truncation and extension of well-formed messages.                  *)
(*                                                                         *)
(* A decoder accepts a message exactly if it is an encoding of some         *)
(* well-formed object, up to the order of the records - judged by listing   *)
(* all objects, not by the decoder's own rules.                             *)
(***************************************************************************)
EXTENDS Wire, SequencesExt, Json

CONSTANTS Kind,         \* "graph" or "cgraph"
          MaxRecs,      \* most records in a message
          Emit

VARIABLE msg            \* [head |-> ..., recs |-> ..., tail |-> bytes]

mvars == <<store, msg>>

Wd(i) == <<i>>
Bytes(m) == m.head \o Concat(m.recs) \o m.tail

GraphHeads == {GraphMagic \o v \o Wd(d) \o Wd(c) \o <<u, w>> :
    v \in {GraphVersion}, d \in 0..2, c \in 0..(MaxRecs + 1), u \in 0..2, w \in 0..1}
    \cup {<<123, 231, 31, 253>> \o GraphVersion \o <<1, 0, 0, 0>>, GraphMagic \o CGraphVersion \o <<1, 0, 0, 0>>,
          CGraphMagic \o GraphVersion \o <<1, 0, 0, 0>>}
GraphRecSet == {<<c, r>> : c \in 0..2, r \in 0..2}

CGraphHeads == {CGraphMagic \o CGraphVersion \o Wd(d) \o Wd(c) \o Wd(n) \o Wd(v) \o <<u, l>> :
    d \in 1..2, c \in 0..MaxRecs, n \in 0..(3 + MaxRecs), v \in 0..3, u \in 0..1, l \in {1, 4}}
    \cup {CGraphMagic \o CGraphVersion \o <<1, 0, 0, 1, u, l>> : u \in 0..3, l \in {0, 1, 4, 5, 255}}
    \cup {CGraphMagic \o CGraphVersion \o <<d, 0, 0, v, 0, 1>> : d \in 0..3, v \in 0..6}
    \cup {CGraphMagic \o GraphVersion \o <<1, 0, 0, 0, 0, 1>>, GraphMagic \o CGraphVersion \o <<1, 0, 0, 0, 0, 1>>}
CGraphRecSet == {<<b, c, r>> : b \in {0, 1, 2, 4, 8, 9}, c \in 0..1, r \in 0..1} \cup {<<16, 0, 0>>, <<1, 2, 0>>, <<1, 0, 2>>}

Tails == {<<>>, <<0>>}

Heads   == IF Kind = "graph" THEN GraphHeads ELSE CGraphHeads
RecSet  == IF Kind = "graph" THEN GraphRecSet ELSE CGraphRecSet

\* Head h goes with the records rs and the tail t if the length may be right, and a few times
\* when it is not.  With many records only the messages with one other thing wrong are listed.
Ones(r) == Cardinality(BlockOf(<<r[1]>>))
RECURSIVE AllOnes(_)
AllOnes(rs) == IF rs = <<>> THEN 0 ELSE Ones(Head(rs)) + AllOnes(Tail(rs))
Listed(h, rs, t) ==
    IF rs = <<>> THEN TRUE
    ELSE IF Len(rs) = 1
    THEN IF Kind = "graph" THEN TRUE
         ELSE /\ h[14] = 1
              /\ h[9] = CDim(<<h[12]>>)[1] \/ h[11] = 1
              /\ t = <<>> \/ h[11] = 1
    ELSE /\ t = <<>>
         /\ h[9 + W] = Len(rs)
         /\ Kind = "cgraph" =>
               /\ h[12] \in {2, 3} /\ h[9] = CDim(<<h[12]>>)[1]
               /\ h[14] = 1 /\ h[11] \in {AllOnes(rs), AllOnes(rs) + 1}

MInit == /\ store = <<>>
         /\ \E k \in 0..MaxRecs : \E h \in Heads : (k > 1 => h[9 + W] = k) /\
               \E rs \in [1..k -> RecSet] : \E t \in Tails :
                  /\ Listed(h, rs, t)
                  /\ msg = [head |-> h, recs |-> rs, tail |-> t]
         /\ Emit => PrintT(ToJson([h |-> msg.head, r |-> msg.recs, x |-> msg.tail]))
Verdict == IF Kind = "graph" THEN DecodeGraph(Bytes(msg)) ELSE DecodeCGraph(Bytes(msg))
MNext == /\ store = <<>>
         /\ \/ DecodeTo(Kind, Bytes(msg), "x")
            \/ DecodeRefused(Kind, Bytes(msg), "x")
         /\ UNCHANGED msg
MSpec == MInit /\ [][MNext]_mvars

----------------------------------------------------------------------------
(* All objects a message of this shape could stand for *)

Ix(n) == {Wd(i) : i \in 0..(n - 1)}
AllGraphs == {[kind |-> "graph", und |-> und, dim |-> Wd(n), ents |-> S] :
                 und \in BOOLEAN, n \in 0..2, S \in SUBSET (Ix(2) \X Ix(2))}
Graphs == TLCEval({g \in AllGraphs : WellFormedGraph(g)})

Cells == (0..1) \X (0..1)
BlockSets == {{}, {<<0, 0>>}, {<<1, 0>>}, {<<0, 1>>}, {<<1, 1>>}, {<<0, 0>>, <<1, 1>>}}
BlockMaps == TLCEval(
    {[p \in D |-> f[p]] : <<D, f>> \in UNION {{<<D, f>> : f \in [D -> BlockSets \ {{}}]} :
        D \in {E \in SUBSET (Ix(2) \X Ix(2)) : Cardinality(E) <= MaxRecs}}})
CObject(und, v, l, b) ==
    [kind |-> "cgraph", und |-> und, vc |-> Wd(v), level |-> l, mdim |-> CDim(Wd(v)),
     ec |-> WordOf(SumSizes(b, DOMAIN b)), blocks |-> b]
CGraphs == TLCEval(
    {c \in {CObject(und, v, l, b) : und \in BOOLEAN, v \in 0..3, l \in {1, 4}, b \in BlockMaps}
           \cup {CObject(und, v, l, <<>>) : und \in BOOLEAN, v \in 0..6, l \in 1..4} : WellFormedCompressed(c)})

\* Head and set of records: what an encoding is up to order.
Forms == IF Kind = "graph" THEN {<<GraphHead(g), GraphRecords(g)>> : g \in Graphs}
                           ELSE {<<CGraphHead(c), CGraphRecords(c)>> : c \in CGraphs}
AllForms == TLCEval(Forms)
IsEncoding == /\ msg.tail = <<>>
              /\ <<msg.head, {msg.recs[i] : i \in DOMAIN msg.recs}>> \in AllForms
              /\ Cardinality({msg.recs[i] : i \in DOMAIN msg.recs}) = Len(msg.recs)

ExactlyWellFormed ==
    CASE Verdict.verdict = "ok" ->
           IF Kind = "graph" THEN WellFormedGraph(Verdict.obj) /\ IsGraphEncoding(Bytes(msg), Verdict.obj)
           ELSE WellFormedCompressed(Verdict.obj) /\ IsCGraphEncoding(Bytes(msg), Verdict.obj)
      [] Verdict.verdict = "either" -> /\ Kind = "graph" /\ WellFormedGraph(Verdict.obj) /\ Verdict.obj.und
                                       /\ ~IsEncoding
      [] OTHER -> ~IsEncoding

\* Both outcomes occur and the object is held only on success.
Outcome == "x" \in DOMAIN store => Verdict.verdict # "err" /\ store["x"] = Verdict.obj
=============================================================================
