------------------------------- MODULE IoGen --------------------------------
EXTENDS IoImpl, Sequences, TLC, Json
VARIABLE hist
Depth == 60
Note(x) == hist' = Append(hist, x)
GInit == Init /\ hist = <<>>
Quietly(A) == A /\ UNCHANGED hist
\* what the library does on its own comes first
Busy == rd.pc \in {"try", "ret"} \/ wr.pc \in {"try", "ret"} \/ news # {}
GNext == \/ Quietly(TryR) \/ Quietly(TryW) \/ Quietly(RetR) \/ Quietly(RetW) \/ Quietly(Report)
         \/ /\ ~Busy
            /\ \/ ~broken /\ StartR /\ Note(<<"r", rd'.n, IF rd'.whole THEN 1 ELSE 0>>)
               \/ ~ended /\ StartW /\ Note(<<"w", wr'.n, IF wr'.whole THEN 1 ELSE 0>>)
               \/ Stray /\ Note(<<"wake", IF rd' # rd THEN 1 ELSE 2, 0>>)
               \/ Put /\ Note(<<"put", 1, 0>>)
               \/ Get /\ Note(<<"get", 1, 0>>)
               \/ End /\ Note(<<"end", 0, 0>>)
               \/ Break /\ Note(<<"break", 0, 0>>)
\* the end: nothing more can happen
GEnd == ended /\ broken
Emit == TLCGet("level") < Depth \/ PrintT(<<"GEN", ToJson(hist)>>)
TourView == <<buf, ended, broken, rd, wr, news>>
Tour == hist' = hist \/ PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
