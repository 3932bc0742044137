------------------------------- MODULE Splice -------------------------------
(***************************************************************************)
(* Contract of forwarding between two descriptor pairs.  A direction is    *)
(* seen from outside by                                                    *)
(*   u     bytes that arrived at its input and were not taken              *)
(*   held  bytes taken and not yet delivered at its output                 *)
(*   eof   nothing more will arrive                                        *)
(*   room  the output accepts bytes                                        *)
(*   fail  the input or the output may report an error                     *)
(*   dead  the output accepts nothing any more and reports that            *)
(***************************************************************************)
EXTENDS Integers

Pending(d) == d.u > 0 \/ d.held > 0
Over(d) == d.eof /\ ~Pending(d)          \* everything was delivered
Doomed(d) == d.dead /\ Pending(d)        \* nothing more can be delivered
MayEnd(d) == Over(d) \/ d.fail
Both(shared, f, b) == IF shared THEN f \/ b ELSE f /\ b

\* nobody else will move: is it right that the call sleeps
SleepOK(d) == Pending(d) => (~d.room \/ d.fail)
RestOK(f, b, shared) == /\ SleepOK(f) /\ SleepOK(b)
                        /\ ~Both(shared, Over(f) \/ Doomed(f), Over(b) \/ Doomed(b))
ReturnOK(f, b, shared) == Both(shared, MayEnd(f), MayEnd(b))
=============================================================================
