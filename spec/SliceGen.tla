------------------------------ MODULE SliceGen ------------------------------
EXTENDS SliceImpl, Json
VARIABLE hist
Note(x) == hist' = Append(hist, x)
GInit == Init /\ hist = <<>>
GNext == \E h \in Handles : \/ Free(h) /\ Note(<<"f", h, 0>>)
                            \/ \E z \in Classes \cup {Large} : \/ Alloc(h, z) /\ Note(<<"m", h, z>>)
                                                               \/ Resize(h, z) /\ Note(<<"r", h, z>>)
TourView == <<[c \in Classes |-> Len(list[c])], lru, [h \in DOMAIN held |-> held[h][3]]>>
Tour == PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
