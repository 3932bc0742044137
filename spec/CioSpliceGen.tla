---------------------------- MODULE CioSpliceGen ----------------------------
EXTENDS CioSpliceImpl, Sequences, TLC, Json
VARIABLE hist
Depth == 60
GInit == Init /\ hist = <<<<"fblk", IF fblk THEN 1 ELSE 0, 0>>>>
Quietly(A) == A /\ UNCHANGED hist
Busy == pc = "run" \/ (pc = "wait" /\ woken)
\* a step outside, taken while nothing else happens or right after another one
Note(o, n) == hist' = Append(IF pc = "wait" /\ woken THEN [hist EXCEPT ![Len(hist)][3] = 1] ELSE hist, <<o, n, 0>>)
GNext == \/ Quietly(Round(FALSE)) \/ Quietly(Wake)
         \/ /\ pc = "wait"
            /\ \/ Put /\ Note("put", 1)
               \/ End /\ Note("eof", 0)
               \/ Room /\ Note("room", 1)
               \/ Block /\ Note("fblk", 1)
               \/ Unblock /\ Note("fblk", 0)
         \/ pc = "end" /\ UNCHANGED vars /\ hist' = Append(hist, <<"put", 0, 0>>)
Emit == TLCGet("level") < Depth \/ PrintT(<<"GEN", ToJson(hist)>>)
TourView == vars
Tour == hist' = hist \/ pc = "end" \/ PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
