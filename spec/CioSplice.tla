----------------------------- MODULE CioSplice ------------------------------
(***************************************************************************)
(* Contract of forwarding between two streams.  A direction is seen from   *)
(* outside by                                                              *)
(*   u      bytes that arrived at the input and were not taken             *)
(*   held   bytes taken and not yet delivered at the output                *)
(*   over   nothing more will arrive (end or error)                        *)
(*   room   the output accepts bytes                                       *)
(*   dirty  bytes were delivered and not flushed                           *)
(*   fblk   the output cannot be flushed now                               *)
(*   dead   the output reports an error                                    *)
(*   keep   bytes stages may hold above the output                         *)
(*   fail   that, or the input reports an error                            *)
(***************************************************************************)
EXTENDS Integers

Pending(d) == d.u > 0 \/ d.held > 0
Over(d) == d.over /\ ~Pending(d) /\ ~d.dirty
Doomed(d) == d.dead /\ (d.u > 0 \/ d.held > d.keep)
SleepOK(d) == /\ Pending(d) => (~d.room \/ d.dead)
              /\ d.dirty => (d.fblk \/ d.held > 0 \/ d.dead)
\* either side ends the whole
RestOK(f, b) == SleepOK(f) /\ SleepOK(b) /\ ~Over(f) /\ ~Over(b) /\ ~Doomed(f) /\ ~Doomed(b)
ReturnOK(f, b) == Over(f) \/ Over(b) \/ f.fail \/ b.fail
=============================================================================
