-------------------------------- MODULE Cio ---------------------------------
(***************************************************************************)
(* Contract of a buffering stage (or a stack of them) seen from both       *)
(* sides, in numbers of bytes.  s is a record with                         *)
(*   got, used  bytes given by the stage below, bytes read above           *)
(*   acc, del   bytes accepted from above, bytes delivered below           *)
(*   end        "" or "eof" or "err": how the stage below ended reading    *)
(*   werr       the stage below failed to write or flush                   *)
(* The bytes themselves are compared by position.                          *)
(***************************************************************************)
EXTENDS Integers

Least(x, y) == IF x < y THEN x ELSE y
Avail(s) == s.got - s.used
EndOK(s, r) == Avail(s) = 0 /\ (IF r = 0 THEN s.end = "eof" ELSE s.end = "err")
\* a read of n bytes returned r (0: end of file, -1: error)
ReadOK(s, n, r) == IF r > 0 THEN r <= Least(n, Avail(s)) ELSE n = 0 \/ EndOK(s, r)
\* a read of all n bytes
ExactOK(s, n, r) == IF r > 0 THEN (r = n /\ r <= Avail(s)) \/ (r < n /\ r = Avail(s) /\ s.end # "")
                    ELSE n = 0 \/ EndOK(s, r)
\* a look at the next bytes, all that is here in a single stage
PeekOK(s, n, r, one) == IF one THEN r = Least(n, Avail(s))
                        ELSE r <= Least(n, Avail(s)) /\ (Least(n, Avail(s)) > 0 => r > 0)
\* s.acc counts the r bytes already
KeepOK(s, size) == s.del <= s.acc /\ s.acc - s.del <= size
WriteOK(s, n, r, size) == /\ KeepOK(s, size)
                          /\ IF r > 0 THEN r <= n ELSE IF r = 0 THEN n = 0 ELSE s.werr
WriteAllOK(s, n, r, size) == KeepOK(s, size) /\ (IF r = n THEN TRUE ELSE r < n /\ s.werr)
FlushOK(s, r, below) == IF r = 0 THEN s.acc = s.del /\ below ELSE s.werr
=============================================================================
