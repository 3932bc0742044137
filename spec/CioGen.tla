------------------------------- MODULE CioGen -------------------------------
EXTENDS CioImpl, TLC, Json
VARIABLE hist
Depth == 40
GInit == Init /\ hist = <<>>
\* what is called, how the stage below answers, whether the call would wait
Note(o, n, ks, f) == hist' = Append(hist, [o |-> o, n |-> n, ks |-> ks, f |-> f, again |-> again'])
Asked(k, full) == IF full THEN <<>> ELSE <<k>>
GNext == \/ \E n \in Ns, k \in -2..3 :
              \/ Read(n, k) /\ Note("rd", n, Asked(k, R > 0 /\ rb # <<>>), <<>>)
              \/ Peek(n, k) /\ Note("pk", n, Asked(k, Len(rb) = R), <<>>)
         \/ \E n \in Ns, ks \in Runs \cup {<<a>> : a \in {-2, -1} \cup Ns} : Write(n, ks) /\ Note("wr", n, ks, <<>>)
         \/ \E ks \in Runs, f \in -2..0 : Flush(ks, f) /\ Note("fl", 0, ks, IF Failed(ks) \/ Waits(ks) THEN <<>> ELSE <<f>>)
Emit == TLCGet("level") < Depth \/ PrintT(<<"GEN", ToJson(hist)>>)
TourView == <<Len(rb), Len(wb), s.got, s.acc, s.end, s.werr, again>>
Tour == PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
