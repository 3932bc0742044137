------------------------------ MODULE PollImpl ------------------------------
(***************************************************************************)
(* The polling call: look once, register the union of what is asked at     *)
(* each descriptor, then sleep and look again at every wakeup until the    *)
(* deadline.  Readiness is edge-triggered: a registered condition that     *)
(* starts to hold, or holds at registration, makes news.  dl is the time   *)
(* left; right tells whether the last result was as the contract says.     *)
(***************************************************************************)
EXTENDS Poll
CONSTANTS Fds, Timeouts
Never == 999
VARIABLES ready, reg, news, c, right
vars == <<ready, reg, news, c, right>>

Idle == [pc |-> "idle", ents |-> <<>>, dl |-> Never]
Init == /\ ready = [f \in Fds |-> {}] /\ reg = [f \in Fds |-> {"none"}]
        /\ news = {} /\ c = Idle /\ right = TRUE

Asked(ents, f) == UNION {ents[i][2] : i \in {j \in DOMAIN ents : ents[j][1] = f}}
Mentioned(ents) == {ents[i][1] : i \in DOMAIN ents}
Revents(ents) == [i \in DOMAIN ents |-> Answer(ents[i], ready)]
Over(d) == d = 0
Finish(ents, over) ==
    /\ c' = Idle /\ right' = ReturnOK(ents, ready, Count(Revents(ents)), Revents(ents), over)

\* to: -1 for ever, otherwise the time to wait
Call(ents, to) ==
    /\ c.pc = "idle" /\ UNCHANGED ready
    /\ IF Some(ents, ready) \/ to = 0
       THEN Finish(ents, to = 0) /\ UNCHANGED <<reg, news>>
       ELSE /\ reg' = [f \in Fds |-> IF f \in Mentioned(ents) THEN Asked(ents, f) ELSE reg[f]]
            /\ news' = news \cup {f \in Mentioned(ents) : ready[f] \cap (Asked(ents, f) \cup Always) # {}}
            /\ c' = [pc |-> "wait", ents |-> ents, dl |-> IF to < 0 THEN Never ELSE to]
            /\ UNCHANGED right
Woken == c.pc = "wait" /\ c' = [c EXCEPT !.pc = "look"] /\ UNCHANGED <<ready, reg, right>>
Report == /\ news # {} /\ news' = {}
          /\ Woken \/ (c.pc # "wait" /\ UNCHANGED <<c, ready, reg, right>>)
Stray == Woken /\ UNCHANGED news
Timer == Over(c.dl) /\ Woken /\ UNCHANGED news
Look == /\ c.pc = "look" /\ UNCHANGED <<ready, reg, news>>
        /\ IF Some(c.ents, ready) \/ Over(c.dl) THEN Finish(c.ents, Over(c.dl))
           ELSE c' = [c EXCEPT !.pc = "wait"] /\ UNCHANGED right
\* the other side
Start(f, k) == /\ k \notin ready[f] /\ "nval" \notin ready[f]
               /\ ready' = [ready EXCEPT ![f] = @ \cup {k}]
               /\ news' = IF "none" \notin reg[f] /\ k \in reg[f] \cup Always THEN news \cup {f} ELSE news
               /\ UNCHANGED <<reg, c, right>>
Stop(f, k) == /\ k \in ready[f] /\ ready' = [ready EXCEPT ![f] = @ \ {k}]
              /\ UNCHANGED <<reg, news, c, right>>
\* closed while nobody polls it
Close(f) == /\ f \notin Mentioned(c.ents) /\ ready[f] # {"nval"}
            /\ ready' = [ready EXCEPT ![f] = {"nval"}] /\ reg' = [reg EXCEPT ![f] = {"none"}]
            /\ news' = news \ {f} /\ UNCHANGED <<c, right>>
Tick == /\ c.dl \notin {0, Never} /\ c' = [c EXCEPT !.dl = @ - 1]
        /\ UNCHANGED <<ready, reg, news, right>>

TO == {-1, 0, 2}
Masks == {{"in"}, {"out"}}
Entries == {<<<<f, m>>>> : f \in Fds, m \in Masks}
           \cup {<<<<f, m>>, <<g, k>>>> : f \in Fds, m \in Masks, g \in Fds, k \in Masks}
Next == \/ \E e \in Entries, to \in Timeouts : Call(e, to)
        \/ Report \/ Stray \/ Timer \/ Look \/ Tick
        \/ \E f \in Fds : \/ Close(f) \/ Start(f, "hup")
                          \/ \E k \in {"in", "out"} : Start(f, k) \/ Stop(f, k)
Spec == Init /\ [][Next]_vars

Returned == right
\* nothing left to do for the library
Resting == c.pc = "wait" /\ news = {} /\ ~Over(c.dl)
RestOK == Resting => WaitOK(c.ents, ready, Over(c.dl))
=============================================================================
