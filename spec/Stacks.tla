------------------------------- MODULE Stacks -------------------------------
(***************************************************************************)
(* Contract of stacks.  Every task has a pile of frames; the lowest one    *)
(* and those entered by a call on a separate stack own a stack of their    *)
(* own, a piece of memory.  A frame that ends is the topmost one of its    *)
(* task, its data is as it left them, and the value it gave is delivered.  *)
(* The memory of the stacks in use never overlaps.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* pieces of memory <<lo, hi>> under an order of addresses
Disjoint(x, y, Leq(_, _)) == Leq(x[2], y[1]) \/ Leq(y[2], x[1])
\* a frame: identity, kind, piece (<<>> if it uses the stack below)
Frame(f, kind, piece) == [f |-> f, kind |-> kind, piece |-> piece]
Pieces(pile) == {pile[i].piece : i \in 1..Len(pile)} \ {<<>>}
InUse(piles) == UNION {Pieces(piles[t]) : t \in DOMAIN piles}

CanEnter(piles, piece, Leq(_, _)) ==
    IF piece = <<>> THEN TRUE ELSE \A y \in InUse(piles) : Disjoint(piece, y, Leq)
Enter(piles, t, fr) == [piles EXCEPT ![t] = Append(@, fr)]
Top(pile) == pile[Len(pile)]
CanLeave(piles, t, f, kind) == piles[t] # <<>> /\ Top(piles[t]).f = f /\ Top(piles[t]).kind = kind
Leave(piles, t) == [piles EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
=============================================================================
