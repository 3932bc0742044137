----------------------------- MODULE SleepImpl -----------------------------
(***************************************************************************)
(* The timer algorithm: sleepers in a tree ordered by deadline, one clock  *)
(* armed for the first, an edge-triggered expiry that wakes the task       *)
(* recorded as the clock's owner (ent).  Time advances at any moment.      *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Tasks, Max, Durs
NoDl == Max + 99
Fake == 0
VARIABLES now, dl, arm, fired, ent, st, woken
vars == <<now, dl, arm, fired, ent, st, woken>>

Init == /\ now = 0 /\ dl = [t \in Tasks |-> NoDl]
        /\ arm = NoDl /\ fired = TRUE /\ ent = Fake
        /\ st = [t \in Tasks |-> "run"] /\ woken = [t \in Tasks |-> FALSE]

InTree(D) == {t \in Tasks : D[t] # NoDl}
Before(D, a, b) == D[a] < D[b] \/ (D[a] = D[b] /\ a < b)
First(D) == CHOOSE t \in InTree(D) : \A u \in InTree(D) : u = t \/ Before(D, t, u)

Sleep(t, d) ==
    /\ st[t] = "run" /\ dl[t] = NoDl
    /\ LET D == [dl EXCEPT ![t] = now + d] IN
       /\ dl' = D
       /\ IF First(D) = t
          THEN arm' = D[t] /\ fired' = FALSE /\ ent' = t
          ELSE UNCHANGED <<arm, fired, ent>>
    /\ st' = [st EXCEPT ![t] = "wait"]
    /\ woken' = [woken EXCEPT ![t] = FALSE] /\ UNCHANGED now

Resume(t) ==
    /\ st[t] = "run" /\ dl[t] # NoDl
    /\ LET D == [dl EXCEPT ![t] = NoDl] IN
       /\ dl' = D
       /\ IF First(dl) = t
          THEN IF InTree(D) = {} THEN ent' = Fake /\ UNCHANGED <<arm, fired>>
               ELSE arm' = D[First(D)] /\ fired' = FALSE /\ ent' = First(D)
          ELSE UNCHANGED <<arm, fired, ent>>
    /\ woken' = [woken EXCEPT ![t] = FALSE]
    /\ UNCHANGED <<st, now>>

Wake(u) == /\ st' = IF st[u] = "wait" THEN [st EXCEPT ![u] = "run"] ELSE st
           /\ woken' = [woken EXCEPT ![u] = dl[u] # NoDl]
           /\ UNCHANGED <<now, dl, arm, fired, ent>>

Pending == ~fired /\ arm <= now
Fire == /\ Pending /\ fired' = TRUE
        /\ st' = IF ent # Fake /\ st[ent] = "wait" THEN [st EXCEPT ![ent] = "run"] ELSE st
        /\ UNCHANGED <<now, dl, arm, ent, woken>>

Tick == now < Max /\ now' = now + 1 /\ UNCHANGED <<dl, arm, fired, ent, st, woken>>

Next == \/ \E t \in Tasks : Resume(t) \/ Wake(t) \/ \E d \in Durs : Sleep(t, d)
        \/ Fire \/ Tick
Spec == Init /\ [][Next]_vars

S == INSTANCE Sleep WITH Leq <- <=
Resting == ~Pending /\ \A t \in Tasks : st[t] = "run" => dl[t] = NoDl
RestOK == Resting => S!Rest(IF fired THEN NoDl ELSE arm)
\* nobody resumes who is neither due nor woken
NoEarly == \A t \in Tasks : (st[t] = "run" /\ dl[t] # NoDl) => (dl[t] <= now \/ woken[t])
Refines == [][\/ \E t \in Tasks : S!Wake(t) \/ S!Ret(t)
              \/ \E t \in Tasks, d \in 0..(2 * Max) : S!SleepCall(t, d)
              \/ (now' = now + 1 /\ UNCHANGED <<dl, woken>>)]_<<dl, woken, now>>
=============================================================================
