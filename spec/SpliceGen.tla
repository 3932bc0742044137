----------------------------- MODULE SpliceGen ------------------------------
EXTENDS SpliceImpl, Sequences, TLC, Json
VARIABLE hist
Depth == 60
GInit == Init /\ hist = <<<<"shared", IF shared THEN 1 ELSE 0>>>>
Quietly(A) == A /\ UNCHANGED hist
Note(o, d) == hist' = Append(hist, <<o, d>>)
Busy == pc # "wait" \/ woken
Done == pc = "done" /\ UNCHANGED vars /\ Note("done", 0)
GNext == \/ Quietly(Decide) \/ Quietly(Wake) \/ Done
         \/ \E d \in Dir : \/ Quietly(Round(d))
                           \/ /\ ~Busy
                              /\ \/ Put(d) /\ Note("put", d)
                                 \/ End(d) /\ Note("end", d)
                                 \/ Drain(d) /\ Note("drain", d)
                                 \/ Break(d) /\ Note("break", d)
         \/ ~Busy /\ Stray /\ Note("wake", 0)
Emit == TLCGet("level") < Depth \/ PrintT(<<"GEN", ToJson(hist)>>)
TourView == <<inq, eof, held, outq, broken, res, pc, woken, shared>>
Tour == hist' = hist \/ hist'[Len(hist')][1] = "done" \/ PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
