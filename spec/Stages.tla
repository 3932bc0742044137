------------------------------- MODULE Stages -------------------------------
(***************************************************************************)
(* Contract of objects that hold references and of stages stacked on each  *)
(* other.  A heap h is a record with                                       *)
(*   alive  the objects that exist                                         *)
(*   mine   references held by the program, per object                     *)
(*   next   the stage below, 0 if none                                     *)
(* An object exists exactly as long as somebody holds a reference to it.   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

Holders(h, o) == {p \in h.alive : h.next[p] = o}
Kept(h, o) == h.mine[o] > 0 \/ Holders(h, o) # {}
\* what is left after releases
RECURSIVE Sweep(_)
Sweep(h) == LET dead == {o \in h.alive : ~Kept(h, o)} IN
            IF dead = {} THEN h ELSE Sweep([h EXCEPT !.alive = @ \ dead])

New(h, o) == [h EXCEPT !.alive = @ \cup {o}, !.mine[o] = 1, !.next[o] = 0]
Ref(h, o) == [h EXCEPT !.mine[o] = @ + 1]
Unref(h, o) == Sweep([h EXCEPT !.mine[o] = @ - 1])
\* the program gives its reference of p to o
Push(h, o, p) == [h EXCEPT !.next[o] = p, !.mine[p] = @ - 1]
\* and gets it back
Pop(h, o) == LET p == h.next[o] IN
    Sweep(IF p = 0 THEN [h EXCEPT !.mine[o] = @ - 1]
          ELSE [h EXCEPT !.next[o] = 0, !.mine[o] = @ - 1, !.mine[p] = @ + 1])
RECURSIVE Below(_, _)
Below(h, o) == IF o = 0 THEN {} ELSE {o} \cup Below(h, h.next[o])
MayPush(h, o, p) == o # p /\ h.next[o] = 0 /\ h.mine[p] > 0 /\ o \notin Below(h, p)
\* the stage that answers: the first that knows the operation, 0 if none
RECURSIVE Handler(_, _, _)
Handler(h, o, knows) == IF o = 0 \/ o \in knows THEN o ELSE Handler(h, h.next[o], knows)
=============================================================================
