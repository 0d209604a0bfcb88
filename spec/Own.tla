-------------------------------- MODULE Own --------------------------------
(***************************************************************************)
(* What a program holds across the C and Python interfaces.                *)
(*                                                                         *)
(*  owns   maps every thing handed out and not yet freed (objects, strings,*)
(*         lists, byte buffers) to the number of memory blocks it owns.    *)
(*         The library's live blocks are at all times exactly theirs:      *)
(*         nothing else is retained, nothing is shared, nothing is freed   *)
(*         early or twice.                                                 *)
(*  held   maps every list, string or buffer that is held to its content,  *)
(*         which never changes.                                            *)
(*  iters  maps every iterator to what it iterates over and its position.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES owns, held, iters

OInit == owns = <<>> /\ held = <<>> /\ iters = <<>>

Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

RECURSIVE Total(_, _)
Total(f, D) == IF D = {} THEN 0
               ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + Total(f, D \ {x})
Live == Total(owns, DOMAIN owns)

Owned(x) == IF x \in DOMAIN owns THEN owns[x] ELSE 0

----------------------------------------------------------------------------
(* Memory *)

\* x comes to life with n blocks; whatever was held under that name is freed.
Create(x, n) == owns' = With(owns, x, n)
\* x changes and now owns n blocks.
Resize(x, n) == x \in DOMAIN owns /\ owns' = With(owns, x, n)
Free(x)      == x \in DOMAIN owns /\ owns' = Without(owns, x)
FreeAll      == owns' = <<>>
Query        == UNCHANGED owns

----------------------------------------------------------------------------
(* Held contents *)

Hold(n, c)  == n \notin DOMAIN held /\ held' = With(held, n, c)
Release(n)  == n \in DOMAIN held /\ held' = Without(held, n)

\* The element at a Python index.  Negative indices count back from the end, and from the
\* end again when they have passed the start: -1, -len and -len-1 are all the last element.
OutOfRange(c, i) == Len(c) = 0 \/ i >= Len(c)
Back(c, i)      == LET k == (0 - i) % Len(c) IN IF k = 0 THEN 1 ELSE k
ElementAt(c, i) == IF i >= 0 THEN c[i + 1] ELSE c[Len(c) + 1 - Back(c, i)]

\* An iterator keeps what it iterates over alive.
Iterate(n, it) == n \in DOMAIN held /\ iters' = With(iters, it, [n |-> n, c |-> held[n], pos |-> 0])
Iterated(n)     == \E it \in DOMAIN iters : iters[it].n = n
NextElement(it) == iters[it].c[iters[it].pos + 1]
Exhausted(it)   == iters[it].pos = Len(iters[it].c)
Advance(it)     == /\ it \in DOMAIN iters
                   /\ iters' = IF Exhausted(it) THEN iters
                               ELSE [iters EXCEPT ![it].pos = @ + 1]
=============================================================================
