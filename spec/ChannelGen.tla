---------------------------- MODULE ChannelGen ----------------------------
(* Random behaviours of the channel algorithm, printed as call sequences.  *)
EXTENDS ChannelImpl, TLC, Json
VARIABLE hist
Depth == 45
CONSTANT Touring
Note(t, o, x) == hist' = Append(hist, <<t, o, x>>)
GInit == Init /\ hist = <<>>
GNext == \/ \E t \in Tasks, e \in Ends :
              \/ Read(t, e) /\ Note(t, "chr", e)
              \/ \E id \in Ids : Write(t, e, id) /\ Note(t, "chw", e)
              \/ SelAdd(t, e) /\ Note(t, "seladd", e)
              \/ SelDel(t, e) /\ Note(t, "seldel", e)
              \/ (Touring \/ TLCGet("level") > 20) /\ Close(t, e) /\ Note(t, "chd", e)
         \/ \E t \in Tasks : (ReadMore(t) \/ WriteMore(t) \/ SelMore(t)) /\ UNCHANGED hist
         \/ \E t \in Tasks : /\ (Touring \/ TLCGet("level") > 15) /\ Cardinality({u \in Tasks : st[u] # "end"}) > 1
                            /\ EndTask(t) /\ Note(t, "ret", 0)
         \/ (\A t \in Tasks : st[t] # "run") /\ UNCHANGED vars /\ Note(0, "turn", 0)
         \/ \E t, u \in Tasks : t # u /\ st[u] = "run" /\ pc[u] = "idle" /\ Stray(t)
               /\ Note(u, "wake", t)
         \/ \E t \in Tasks, c \in {"sr", "sw"} : Select(t, c)
               /\ Note(t, IF c = "sr" THEN "selr" ELSE "selw", 0)
Emit == TLCGet("level") < Depth \/ PrintT(<<"GEN", ToJson(hist)>>)
\* tours: one sequence per transition of the graph without the history
TourView == <<open, use, task, insel, rl, wl, st, pc, at>>
Tour == hist' = hist \/ PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
