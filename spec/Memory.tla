------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* Contract of the allocator.  sys maps the blocks obtained from the       *)
(* system to their sizes, held maps the caller's handles to               *)
(* <<block, offset, size>>.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Overlap(x, y) == x[1] = y[1] /\ x[2] < y[2] + y[3] /\ y[2] < x[2] + x[3]
\* x may be handed out for a request while the others are held
Usable(x, sys, others) ==
    /\ x[1] \in DOMAIN sys /\ x[2] >= 0 /\ x[2] + x[3] <= sys[x[1]]
    /\ \A h \in DOMAIN others : ~Overlap(x, others[h])
Used(held) == {held[h][1] : h \in DOMAIN held}
\* freed blocks kept for reuse
Kept(sys, held, own) == DOMAIN sys \ (Used(held) \cup own)
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
=============================================================================
