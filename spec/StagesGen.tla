----------------------------- MODULE StagesGen ------------------------------
EXTENDS StagesImpl, Json
VARIABLE hist
Depth == 30
GInit == Init /\ hist = <<>>
Note(o, x, y) == hist' = Append(hist, <<o, x, y>>)
GNext == \/ \E o \in Obj : \/ Create(o) /\ (\A p \in 1..(o - 1) : died[p] > 0 \/ p \in live) /\ Note("new", o, 0)
                           \/ DoRef(o) /\ Note("ref", o, 0)
                           \/ DoUnref(o) /\ Note("unref", o, 0)
                           \/ DoPop(o) /\ Note("pop", o, 0)
                           \/ \E p \in Obj : DoPush(o, p) /\ Note("push", o, p)
         \/ Release /\ UNCHANGED hist
Emit == TLCGet("level") < Depth \/ PrintT(<<"GEN", ToJson(hist)>>)
TourView == vars
Tour == hist' = hist \/ PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
