------------------------------ MODULE TaskRef ------------------------------
(***************************************************************************)
(* Contract of task references.                                            *)
(*   own[t]   references held by the program                               *)
(*   sys[t]   the system holds the reference handed over by the start      *)
(*   obj[t]   "none", "there", "gone" (last reference dropped, memory not  *)
(*            yet released): only the release may follow "gone"            *)
(***************************************************************************)
EXTENDS Naturals
CONSTANT Tasks
VARIABLES own, sys, obj
vars == <<own, sys, obj>>

Init == /\ own = [t \in Tasks |-> 0] /\ sys = [t \in Tasks |-> FALSE]
        /\ obj = [t \in Tasks |-> "none"]

NoneGone == \A t \in Tasks : obj[t] # "gone"
\* what is left after dropping one
After(u, o, s) == IF o = 0 /\ ~s THEN [obj EXCEPT ![u] = "gone"] ELSE obj

New(u) == /\ NoneGone /\ obj[u] = "none"
          /\ obj' = [obj EXCEPT ![u] = "there"]
          /\ own' = [own EXCEPT ![u] = 1] /\ UNCHANGED sys
Ref(u) == /\ NoneGone /\ obj[u] = "there"
          /\ own' = [own EXCEPT ![u] = @ + 1] /\ UNCHANGED <<sys, obj>>
Unref(u) == /\ NoneGone /\ obj[u] = "there" /\ own[u] > 0
            /\ own' = [own EXCEPT ![u] = @ - 1]
            /\ obj' = After(u, own[u] - 1, sys[u]) /\ UNCHANGED sys
Start(u) == /\ NoneGone /\ obj[u] = "there" /\ own[u] > 0 /\ ~sys[u]
            /\ own' = [own EXCEPT ![u] = @ - 1]
            /\ sys' = [sys EXCEPT ![u] = TRUE] /\ UNCHANGED obj
End(u) == /\ NoneGone /\ sys[u]
          /\ sys' = [sys EXCEPT ![u] = FALSE]
          /\ obj' = After(u, own[u], FALSE) /\ UNCHANGED own
Release(u) == /\ obj[u] = "gone" /\ obj' = [obj EXCEPT ![u] = "none"]
              /\ UNCHANGED <<own, sys>>

Next == \E u \in Tasks : New(u) \/ Ref(u) \/ Unref(u) \/ Start(u) \/ End(u) \/ Release(u)
Spec == Init /\ [][Next]_vars
Alive == \A t \in Tasks : (sys[t] \/ own[t] > 0) <=> obj[t] = "there"
=============================================================================
