------------------------------ MODULE RingGen -------------------------------
EXTENDS RingImpl, TLC, Json
VARIABLE hist
GInit == Init /\ hist = <<<<"new", cap>>>>
GNext == \/ KeepW /\ hist' = Append(hist, <<"ow", 0>>)
         \/ KeepR /\ hist' = Append(hist, <<"or", 0>>)
         \/ \E n \in 0..MaxCap : \/ Put(n) /\ hist' = Append(hist, <<"w", n>>)
                                 \/ Get(n) /\ hist' = Append(hist, <<"r", n>>)
                                 \/ PutKept(n) /\ hist' = Append(hist, <<"kw", n>>)
                                 \/ GetKept(n) /\ hist' = Append(hist, <<"kr", n>>)
TourView == <<cap, rp, use, woff, roff>>
Tour == PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
