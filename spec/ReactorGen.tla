----------------------------- MODULE ReactorGen -----------------------------
(***************************************************************************)
(* Call sequences around descriptor registration, at the level of the      *)
(* contract: who waits, what is registered and what is readable.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Tasks, Fds, Evs
VARIABLES reg, rd, wait, hist
Depth == 50
None == 0
Note(x) == hist' = Append(hist, x)
GInit == /\ reg = [f \in Fds |-> <<None, 0>>] /\ rd = {} /\ wait = {} /\ hist = <<>>
Ready(f, ev) == ev >= 4 \/ (f \in rd /\ ev % 2 = 1)
By(t) == t = 0 \/ t \notin wait      \* 0: a task that never waits
Put(t, f) == /\ By(t) /\ rd' = rd \cup {f} /\ wait' = wait \ {reg[f][1]}
             /\ UNCHANGED reg /\ Note(<<t, "put", f, 0, 0>>)
Get(t, f) == /\ By(t) /\ f \in rd /\ rd' = rd \ {f} /\ UNCHANGED <<reg, wait>>
             /\ Note(<<t, "get", f, 0, 0>>)
Add(t, u, f, ev) ==
    /\ By(t) /\ Note(<<t, "fadd", u, f, ev>>) /\ UNCHANGED rd
    /\ IF reg[f][1] = None
       THEN reg' = [reg EXCEPT ![f] = <<u, ev>>] /\ wait' = IF Ready(f, ev) THEN wait \ {u} ELSE wait
       ELSE UNCHANGED <<reg, wait>>
Mod(t, u, f, ev) ==
    /\ By(t) /\ Note(<<t, "fmod", u, f, ev>>) /\ UNCHANGED rd
    /\ IF reg[f][1] # None
       THEN reg' = [reg EXCEPT ![f] = <<u, ev>>] /\ wait' = IF Ready(f, ev) THEN wait \ {u} ELSE wait
       ELSE UNCHANGED <<reg, wait>>
Del(t, f) == /\ By(t) /\ reg' = [reg EXCEPT ![f] = <<None, 0>>] /\ UNCHANGED <<rd, wait>>
             /\ Note(<<t, "fdel", f, 0, 0>>)
Wait(t) == /\ t \notin wait /\ wait' = wait \cup {t} /\ UNCHANGED <<reg, rd>>
           /\ Note(<<t, "waitio", 0, 0, 0>>)
Wake(t, u) == /\ By(t) /\ u \in wait /\ wait' = wait \ {u} /\ UNCHANGED <<reg, rd>>
              /\ Note(<<t, "wake", u, 0, 0>>)
Yield(t) == /\ t \notin wait /\ UNCHANGED <<reg, rd, wait>> /\ Note(<<t, "yield", 0, 0, 0>>)
GNext == \E t \in Tasks \cup {0} :
            \/ \E f \in Fds : Put(t, f) \/ Get(t, f) \/ Del(t, f)
                 \/ \E u \in Tasks, ev \in Evs : Add(t, u, f, ev) \/ Mod(t, u, f, ev)
            \/ \E u \in Tasks : u # t /\ Wake(t, u)
            \/ t # 0 /\ (Wait(t) \/ Yield(t))
Emit == TLCGet("level") < Depth \/ PrintT(<<"GEN", ToJson(hist)>>)
TourView == <<reg, rd, wait>>
Tour == hist' = hist \/ PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
