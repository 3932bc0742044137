------------------------------ MODULE Reactor ------------------------------
(***************************************************************************)
(* Contract of descriptor registration.  A registration names a task and   *)
(* a set of directions.  When readiness in a registered direction is       *)
(* raised, the task must be woken if it waits.  A task that does not wait  *)
(* at that moment may or may not find the wakeup when it waits later,      *)
(* except that readiness raised since the last scheduling point is still   *)
(* found by a task that waits right away.                                  *)
(*   edge[f]  "none"   nothing raised                                      *)
(*            "fresh"  raised, no task switch since                        *)
(*            "may"    raised earlier, possibly consumed                   *)
(*            "must"   raised, the task waits and has to be woken          *)
(*            "again"  the same, and the wakeup for an earlier one may be  *)
(*                     on its way, so that it can be found again           *)
(* poss: waiting tasks that may have been woken for a registration that    *)
(* was changed or ended since.                                             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Tasks, Fds
None == 0
VARIABLES reg, edge, st, poss
rvars == <<reg, edge, st, poss>>
NoReg == [t |-> None, ev |-> {}]

Init == /\ reg = [f \in Fds |-> NoReg] /\ edge = [f \in Fds |-> "none"]
        /\ st = [t \in Tasks |-> "run"] /\ poss = {}

Of(t) == {f \in Fds : reg[f].t = t}
\* edges after readiness of the given kinds was raised at f
RaisedAt(E, f, kinds) ==
    IF reg[f].t # None /\ kinds \cap (reg[f].ev \cup {"hup"}) # {}
    THEN IF st[reg[f].t] # "wait" THEN "fresh"
         ELSE IF E[f] \in {"none", "fresh"} THEN "must" ELSE "again"
    ELSE E[f]
Raised(E, f, kinds) == [E EXCEPT ![f] = RaisedAt(E, f, kinds)]
\* the same for readiness that need not be reported
MayRaised(E, f, kinds) ==
    IF reg[f].t # None /\ kinds \cap (reg[f].ev \cup {"hup"}) # {} /\ E[f] = "none"
    THEN [E EXCEPT ![f] = "may"] ELSE E
\* a scheduling point, with task states s
Switch(E, s) == [f \in Fds |->
    IF E[f] = "fresh" THEN IF s[reg[f].t] = "wait" THEN "must" ELSE "may" ELSE E[f]]

Raise(f, kinds) == edge' = Raised(edge, f, kinds) /\ UNCHANGED <<reg, st, poss>>
\* readiness ended before it was reported: it need not be any more
Ended(E, f, ready) == IF E[f] # "none" /\ ready \cap (reg[f].ev \cup {"hup"}) = {}
                      THEN [E EXCEPT ![f] = "may"] ELSE E
Drain(f, ready) == edge' = Ended(edge, f, ready) /\ UNCHANGED <<reg, st, poss>>
Old(f) == IF edge[f] \in {"may", "must", "again"} /\ st[reg[f].t] = "wait" THEN {reg[f].t} ELSE {}

\* ready: the directions in which the descriptor is ready now
Set(f, t, ev, ready) ==
    /\ reg' = [reg EXCEPT ![f] = [t |-> t, ev |-> ev]]
    /\ edge' = [edge EXCEPT ![f] = IF ready \cap (ev \cup {"hup"}) = {} THEN "none"
                                   ELSE IF st[t] = "wait" THEN "must" ELSE "fresh"]
    /\ poss' = poss \cup Old(f) /\ UNCHANGED st
Add(f, t, ev, ready) == reg[f].t = None /\ Set(f, t, ev, ready)
AddFail(f) == reg[f].t # None /\ UNCHANGED rvars
Mod(f, t, ev, ready) == reg[f].t # None /\ Set(f, t, ev, ready)
ModFail(f) == reg[f].t = None /\ UNCHANGED rvars
Clear(f) == /\ reg' = [reg EXCEPT ![f] = NoReg]
            /\ edge' = [edge EXCEPT ![f] = "none"]
            /\ poss' = poss \cup Old(f) /\ UNCHANGED st
Del(f) == reg[f].t # None /\ Clear(f)
DelFail(f) == reg[f].t = None /\ UNCHANGED rvars

WaitCall(t) == /\ st[t] = "run"
               /\ st' = [st EXCEPT ![t] = "wait"]
               /\ edge' = Switch(edge, st') /\ UNCHANGED <<reg, poss>>
\* the task gives up the processor and stays runnable, or ends
Turn == edge' = Switch(edge, st) /\ UNCHANGED <<reg, st, poss>>
Wake(t) == /\ st' = IF st[t] = "wait" THEN [st EXCEPT ![t] = "woken"] ELSE st
           /\ UNCHANGED <<reg, edge, poss>>

\* after the task was resumed others of its edges may have been consumed
Weak(E, t) == [f \in Fds |-> IF reg[f].t = t /\ E[f] # "none" THEN "may" ELSE E[f]]
Cause(t) == {f \in Of(t) : edge[f] \in {"may", "must", "again"}}
WaitRet(t) ==
    /\ \/ (st[t] = "woken" \/ t \in poss) /\ edge' = Weak(edge, t)
       \/ /\ st[t] = "wait" /\ Cause(t) # {}
          /\ IF Cardinality(Cause(t)) > 3
             THEN edge' = Weak(edge, t)
             ELSE \E f \in Cause(t) : edge' = [Weak(edge, t) EXCEPT ![f] =
                                                IF edge[f] = "again" THEN "may" ELSE "none"]
    /\ st' = [st EXCEPT ![t] = "run"] /\ poss' = poss \ {t} /\ UNCHANGED reg

\* nobody runs and nothing is left to be delivered
Forgotten == {t \in Tasks : st[t] = "woken"}
             \cup {t \in {reg[f].t : f \in {g \in Fds : edge[g] \in {"must", "again"}}} : st[t] = "wait"}
Quiet == /\ Forgotten = {}
         /\ edge' = [f \in Fds |-> "none"] /\ poss' = {} /\ UNCHANGED <<reg, st>>
=============================================================================
