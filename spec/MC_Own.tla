------------------------------- MODULE MC_Own -------------------------------
(***************************************************************************)
(* Objects and buffers crossing the C interface, made, changed and freed in *)
(* every order.  An allocator beneath counts blocks without knowing whose   *)
(* they are; ownership must account for every one of them at every moment.  *)
(***************************************************************************)
EXTENDS Own, Json

CONSTANTS MaxBlocks,    \* most blocks a thing may own
          Emit

VARIABLES kind,         \* what each live handle is: "g", "c" or "m"
          allocated,    \* blocks the allocator has given out and not got back
          from          \* for each buffer, the version of the content it was made with

mvars == <<owns, held, iters, kind, allocated, from>>

H == {"a", "b"}
B == {"s"}
Kinds == {"g", "c", "m"}
Makes(k) == CASE k = "g" -> {<<"clone", "g">>, <<"compress", "c">>, <<"pool", "m">>, <<"approx", "g">>}
              [] k = "c" -> {<<"clone", "c">>, <<"decompress", "g">>}
              [] k = "m" -> {<<"clone", "m">>}
Shows(k) == CASE k = "g" -> {"bytes", "str", "edges", "out", "in"}
              [] k = "c" -> {"bytes", "str"}
              [] k = "m" -> {"str", "entries"}

Obj(h) == <<"object", h>>
Buf(s) == <<"buffer", s>>

\* x takes n blocks; whatever was held under that name goes.
Takes(x, n) == Create(x, n) /\ allocated' = allocated - Owned(x) + n
Gives(x)    == Free(x) /\ allocated' = allocated - Owned(x)

New(h, n) == /\ Takes(Obj(h), n) /\ kind' = With(kind, h, "g") /\ UNCHANGED <<held, iters, from>>
Make(h, h2, mk, n) ==
    /\ h \in DOMAIN kind /\ h # h2 /\ mk \in Makes(kind[h])
    /\ Takes(Obj(h2), n) /\ kind' = With(kind, h2, mk[2]) /\ UNCHANGED <<held, iters, from>>
Change(h, n) == /\ h \in DOMAIN kind /\ kind[h] = "g"
                /\ Resize(Obj(h), n) /\ allocated' = allocated - Owned(Obj(h)) + n
                /\ UNCHANGED <<held, iters, kind, from>>
Drop(h) == /\ h \in DOMAIN kind /\ Gives(Obj(h)) /\ kind' = Without(kind, h)
           /\ UNCHANGED <<held, iters, from>>
Show(h, s, k, n) ==
    /\ h \in DOMAIN kind /\ k \in Shows(kind[h]) /\ s \notin DOMAIN held
    /\ Takes(Buf(s), n) /\ Hold(s, <<k>>) /\ from' = With(from, s, <<k>>) /\ UNCHANGED <<iters, kind>>
Return(s) == /\ Release(s) /\ Gives(Buf(s)) /\ from' = Without(from, s) /\ UNCHANGED <<iters, kind>>
Ask(h) == h \in DOMAIN kind /\ UNCHANGED mvars

Key == ToString(<<kind, held>>)
Note(c) == Emit => PrintT(ToJson([s |-> Key, c |-> c, t |-> ToString(<<kind', held'>>)]))

MInit == /\ OInit /\ kind = <<>> /\ allocated = 0 /\ from = <<>>
         /\ Emit => PrintT(ToJson([init |-> Key]))
MNext == \E n \in 1..MaxBlocks :
    \/ \E h \in H : New(h, n) /\ Note(<<"newg", h>>)
    \/ \E h \in H, h2 \in H : \E mk \in {<<"clone", "g">>, <<"clone", "c">>, <<"clone", "m">>, <<"compress", "c">>,
                                         <<"pool", "m">>, <<"approx", "g">>, <<"decompress", "g">>} :
          Make(h, h2, mk, n) /\ Note(<<mk[1], h, h2>>)
    \/ \E h \in H : Change(h, n) /\ Note(<<"adde", h>>)
    \/ \E h \in H : Drop(h) /\ Note(<<"drop", h>>)
    \/ \E h \in H, s \in B, k \in {"bytes", "str", "edges", "out", "in", "entries"} :
          Show(h, s, k, n) /\ Note(<<"hold", h, s, k>>)
    \/ \E s \in B : Return(s) /\ Note(<<"rel", s>>)
    \/ \E h \in H : Ask(h) /\ Note(<<"obs", h>>)
MSpec == MInit /\ [][MNext]_mvars

----------------------------------------------------------------------------
Accounted == allocated = Live
NoneLeft  == (DOMAIN kind = {} /\ DOMAIN held = {}) => allocated = 0
Owners    == DOMAIN owns = {Obj(h) : h \in DOMAIN kind} \cup {Buf(s) : s \in DOMAIN held}
\* What is held keeps its content until it is released, whatever happens to what it came from.
Unchanged == held = from
OneAtATime == [][\A x \in DOMAIN owns \cap DOMAIN owns' : owns'[x] # owns[x] =>
                   \A y \in (DOMAIN owns \cup DOMAIN owns') \ {x} :
                      y \in DOMAIN owns /\ y \in DOMAIN owns' /\ owns'[y] = owns[y]]_mvars

----------------------------------------------------------------------------
(* Python indexing, worked out on lists of up to four elements. *)
Py(i, len) == IF i >= 0 THEN i + 1 ELSE len + i + 1
ASSUME \A len \in 0..4 : \A i \in -9..6 :
    LET c == [k \in 1..len |-> k] IN
    /\ OutOfRange(c, i) <=> (i >= len \/ len = 0)
    /\ ~OutOfRange(c, i) =>
        /\ ElementAt(c, i) \in 1..len
        /\ i > -len => ElementAt(c, i) = Py(i, len)
        /\ i = -len => ElementAt(c, i) = len
        /\ i < -len => ElementAt(c, i) = ElementAt(c, i + len)
=============================================================================
