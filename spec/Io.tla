--------------------------------- MODULE Io ---------------------------------
(***************************************************************************)
(* Contract of the blocking-style transfer calls on a byte stream.         *)
(*   n       bytes asked for (n > 0)      whole   all of them are wanted   *)
(*   r       result: bytes moved, 0 at the end of the stream, -1 error,    *)
(*           -2 given up because the callback said so                      *)
(*   left    bytes readable right after the call                           *)
(*   room    the stream is ready for writing right after the call          *)
(*   ended   the other side will not write any more                        *)
(*   broken  the other side is gone, or this side may not write            *)
(***************************************************************************)
EXTENDS Integers

\* A single read gives what is there up to n.  A whole read is short only at
\* the end of the stream or at an error.
ReadOK(n, whole, r, left, ended, broken) ==
    \/ r = n
    \/ r > 0 /\ r < n /\ left = 0 /\ (whole => ended \/ broken)
    \/ r = 0 /\ left = 0 /\ ended
    \/ r = -1 /\ broken
\* A single write is short only when no more fits.
WriteOK(n, whole, r, room, broken) ==
    \/ r = n
    \/ r > 0 /\ r < n /\ (broken \/ (~whole /\ ~room))
    \/ r = -1 /\ broken
\* a call that waits while this holds has missed something
CanRead(left, ended, broken) == left > 0 \/ ended \/ broken
CanWrite(room, broken) == room \/ broken

\* Messages keep their boundaries: q is the sequence of <<number, length>>.
MessageOK(n, r, q, id) == q # <<>> /\ q[1][1] = id /\ r = (IF n < q[1][2] THEN n ELSE q[1][2])
\* connect: answers the system call will give, in order
Waits(e) == e \in {115, 114}             \* in progress, already
First(ans) == CHOOSE i \in DOMAIN ans : ~Waits(ans[i]) /\ \A j \in 1..(i - 1) : Waits(ans[j])
ConnectOK(ans, r, err, tries) ==
    LET e == ans[First(ans)]
    IN  /\ tries = First(ans)
        /\ IF e = 0 \/ e = 106 THEN r = 0 ELSE r = -1 /\ err = e
=============================================================================
