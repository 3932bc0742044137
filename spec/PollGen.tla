------------------------------ MODULE PollGen -------------------------------
EXTENDS PollImpl, TLC, Json
VARIABLE hist
Depth == 50
Note(x) == hist' = Append(hist, x)
GInit == Init /\ hist = <<>>
Quietly(A) == A /\ UNCHANGED hist
Flat(e) == [i \in 1..(2 * Len(e)) |-> IF i % 2 = 1 THEN e[(i + 1) \div 2][1]
                                      ELSE IF e[i \div 2][2] = {"in"} THEN 1 ELSE 4]
Busy == c.pc = "look" \/ news # {} \/ (c.pc = "wait" /\ Over(c.dl))
GNext == \/ Quietly(Report) \/ Quietly(Timer) \/ Quietly(Look)
         \/ /\ ~Busy
            /\ \/ \E e \in Entries, to \in Timeouts : Call(e, to) /\ Note(<<"call", to>> \o Flat(e))
               \/ Stray /\ Note(<<"wake">>)
               \/ Tick /\ Note(<<"tick">>)
               \/ \E f \in Fds : \/ Close(f) /\ Note(<<"close", f>>)
                                 \/ Start(f, "hup") /\ Note(<<"hup", f>>)
                                 \/ \E k \in {"in", "out"} : \/ Start(f, k) /\ Note(<<"start", f, k>>)
                                                             \/ Stop(f, k) /\ Note(<<"stop", f, k>>)
Emit == TLCGet("level") < Depth \/ PrintT(<<"GEN", ToJson(hist)>>)
TourView == <<ready, reg, news, c>>
Tour == hist' = hist \/ PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
