------------------------------ MODULE CioImpl -------------------------------
(***************************************************************************)
(* The buffering stage as it works: one ring for each direction, filled    *)
(* and emptied by one call of the stage below, which may move any part,    *)
(* have nothing to do ("again"), end or fail.  Bytes carry their position. *)
(* again tells that a call above waits for the stage below.                *)
(***************************************************************************)
EXTENDS Cio, Sequences
CONSTANTS R, W,     \* sizes of the rings, 0: none
          MaxR, MaxW  \* bytes in each direction
VARIABLES rb, wb, out, low,   \* rings, bytes read above, bytes arrived below
          s, again, right
vars == <<rb, wb, out, low, s, again, right>>

Init == /\ rb = <<>> /\ wb = <<>> /\ out = <<>> /\ low = <<>> /\ again = FALSE /\ right = TRUE
        /\ s = [got |-> 0, used |-> 0, acc |-> 0, del |-> 0, end |-> "", werr |-> FALSE]

Nums(a, b) == [i \in 1..(b - a) |-> a + i]      \* a+1 .. b
First(q, n) == SubSeq(q, 1, n)
After(q, n) == SubSeq(q, n + 1, Len(q))
\* answers of the stage below to a request for c > 0 bytes: bytes, 0, -1 again, -2 error
Answers(c) == IF s.end = "eof" THEN {0} ELSE IF s.end = "err" THEN {-2}
              ELSE {x \in -2..c : x <= MaxR - s.got}
Heard(k) == [s EXCEPT !.got = IF k > 0 THEN @ + k ELSE @,
                      !.end = IF k = 0 THEN "eof" ELSE IF k = -2 THEN "err" ELSE @]
\* --------------------------------------------------------------- reading
\* k: the answer if the stage below is asked
Read(n, k) ==
    /\ UNCHANGED <<wb, low>>
    /\ IF R = 0
       THEN /\ k \in Answers(n)
            /\ again' = (k = -1)
            /\ IF k > 0 THEN /\ out' = out \o Nums(s.got, s.got + k)
                             /\ s' = [Heard(k) EXCEPT !.used = @ + k]
                             /\ right' = ReadOK(Heard(k), n, k) /\ UNCHANGED rb
               ELSE /\ s' = Heard(k) /\ UNCHANGED <<out, rb>>
                    /\ right' = (k = -1 \/ ReadOK(Heard(k), n, IF k = -2 THEN -1 ELSE k))
       ELSE IF rb = <<>> /\ k <= 0
       THEN /\ k \in Answers(R) /\ again' = (k = -1) /\ s' = Heard(k)
            /\ right' = (k = -1 \/ ReadOK(Heard(k), n, IF k = -2 THEN -1 ELSE k))
            /\ UNCHANGED <<rb, out>>
       ELSE LET full == IF rb = <<>> THEN Nums(s.got, s.got + k) ELSE rb
                h == IF rb = <<>> THEN Heard(k) ELSE s
                m == Least(n, Len(full))
            IN /\ IF rb = <<>> THEN k \in Answers(R) ELSE k = 0
               /\ out' = out \o First(full, m) /\ rb' = After(full, m)
               /\ s' = [h EXCEPT !.used = @ + m] /\ right' = ReadOK(h, n, m) /\ again' = FALSE
Peek(n, k) ==
    /\ R > 0 /\ UNCHANGED <<wb, low, out, again>>
    /\ IF Len(rb) = R THEN k = 0 ELSE k \in Answers(R - Len(rb))
    /\ LET full == IF k > 0 THEN rb \o Nums(s.got, s.got + k) ELSE rb
           h == IF Len(rb) = R THEN s ELSE Heard(k)
       IN /\ rb' = full /\ s' = h
          /\ right' = (PeekOK(h, n, Least(n, Len(full)), TRUE)
                       /\ First(full, Least(n, Len(full))) = Nums(h.used, h.used + Least(n, Len(full))))
\* --------------------------------------------------------------- writing
WAnswers(c) == IF s.werr THEN {-2} ELSE {-2, -1} \cup 1..c
\* ks: answers of the stage below while the ring is emptied; all but the
\* last moved something, the last emptied it or did not move anything
RECURSIVE Plus(_)
Plus(ks) == IF ks = <<>> THEN 0 ELSE (IF ks[1] > 0 THEN ks[1] ELSE 0) + Plus(Tail(ks))
Emptying(ks) ==
    /\ \A i \in DOMAIN ks : ks[i] # 0 /\ (ks[i] < 0 => i = Len(ks))
    /\ Plus(ks) <= Len(wb) /\ (wb # <<>> => ks # <<>>) /\ (wb = <<>> => ks = <<>>)
    /\ (ks # <<>> /\ ks[Len(ks)] > 0) => (Plus(ks) = Len(wb) /\ Plus(First(ks, Len(ks) - 1)) < Len(wb))
    /\ \A i \in DOMAIN ks : ks[i] > 0 => ~s.werr
Runs == {<<>>} \cup {<<a>> : a \in {-2, -1} \cup 1..W} \cup {<<a, b>> : a \in 1..W, b \in {-2, -1} \cup 1..W}
Failed(ks) == ks # <<>> /\ ks[Len(ks)] = -2
Waits(ks) == ks # <<>> /\ ks[Len(ks)] = -1
Sent(ks) == [s EXCEPT !.del = @ + Plus(ks), !.werr = @ \/ Failed(ks)]
Write(n, ks) ==
    /\ s.acc + n <= MaxW /\ UNCHANGED <<rb, out>>
    /\ IF W = 0
       THEN \E k \in WAnswers(n) :
               /\ ks = <<k>> /\ again' = (k = -1) /\ UNCHANGED wb
               /\ LET m == IF k > 0 THEN k ELSE 0
                      h == [s EXCEPT !.acc = @ + m, !.del = @ + m, !.werr = @ \/ k = -2]
                  IN /\ s' = h /\ low' = low \o Nums(s.acc, s.acc + m)
                     /\ right' = (k = -1 \/ WriteOK(h, n, IF k = -2 THEN -1 ELSE k, 0))
       ELSE /\ IF Len(wb) = W THEN Emptying(ks) ELSE ks = <<>>
            /\ low' = low \o First(wb, Plus(ks))
            /\ LET b == After(wb, Plus(ks))
                   m == IF Failed(ks) \/ Waits(ks) THEN 0 ELSE Least(n, W - Len(b))
                   h == [Sent(ks) EXCEPT !.acc = @ + m]
               IN /\ wb' = b \o Nums(s.acc, s.acc + m) /\ s' = h /\ again' = Waits(ks)
                  /\ right' = (Waits(ks) \/ WriteOK(h, n, IF Failed(ks) THEN -1 ELSE m, W))
\* f: answer of the stage below to the flush passed on
Flush(ks, f) ==
    /\ IF W = 0 THEN ks = <<>> ELSE Emptying(ks)
    /\ UNCHANGED <<rb, out>>
    /\ low' = low \o First(wb, Plus(ks)) /\ wb' = After(wb, Plus(ks))
    /\ LET stop == Failed(ks) \/ Waits(ks)
           h == [Sent(ks) EXCEPT !.werr = @ \/ (~stop /\ f = -2)]
       IN /\ (stop => f = 0) /\ s' = h /\ again' = (Waits(ks) \/ (~stop /\ f = -1))
          /\ (s.werr => f # -1)
          /\ right' = (again' \/ FlushOK(h, IF Failed(ks) \/ f = -2 THEN -1 ELSE 0, f = 0))

Ns == 1..3
Next == \/ \E n \in Ns, k \in -2..3 : Read(n, k) \/ Peek(n, k)
        \/ \E n \in Ns, ks \in Runs \cup {<<a>> : a \in {-2, -1} \cup Ns} : Write(n, ks)
        \/ \E ks \in Runs, f \in -2..0 : Flush(ks, f)
Spec == Init /\ [][Next]_vars

Results == right
\* each byte once and in order, in both directions
InOrder == out \o rb = Nums(0, s.got) /\ low \o wb = Nums(0, s.acc)
Sizes == Len(rb) <= R /\ Len(wb) <= W /\ Len(out) = s.used /\ Len(low) = s.del
=============================================================================
