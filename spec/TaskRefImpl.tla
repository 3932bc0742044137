---------------------------- MODULE TaskRefImpl ----------------------------
(* The reference counter of the implementation against the contract.       *)
EXTENDS Naturals
CONSTANTS Tasks, Max
VARIABLES rc, run, mem, own
vars == <<rc, run, mem, own>>
Init == /\ rc = [t \in Tasks |-> 0] /\ run = [t \in Tasks |-> FALSE]
        /\ mem = [t \in Tasks |-> "none"] /\ own = [t \in Tasks |-> 0]
Calm == \A t \in Tasks : mem[t] # "gone"
New(u) == /\ Calm /\ mem[u] = "none" /\ mem' = [mem EXCEPT ![u] = "there"]
          /\ rc' = [rc EXCEPT ![u] = 1] /\ own' = [own EXCEPT ![u] = 1] /\ UNCHANGED run
Ref(u) == /\ Calm /\ mem[u] = "there" /\ own[u] < Max
          /\ rc' = [rc EXCEPT ![u] = @ + 1] /\ own' = [own EXCEPT ![u] = @ + 1]
          /\ UNCHANGED <<run, mem>>
Drop(u) == /\ rc' = [rc EXCEPT ![u] = @ - 1]
           /\ mem' = IF rc[u] = 1 THEN [mem EXCEPT ![u] = "gone"] ELSE mem
Unref(u) == /\ Calm /\ own[u] > 0 /\ own' = [own EXCEPT ![u] = @ - 1] /\ Drop(u) /\ UNCHANGED run
Start(u) == /\ Calm /\ mem[u] = "there" /\ own[u] > 0 /\ ~run[u]
            /\ own' = [own EXCEPT ![u] = @ - 1] /\ run' = [run EXCEPT ![u] = TRUE]
            /\ UNCHANGED <<rc, mem>>
End(u) == Calm /\ run[u] /\ run' = [run EXCEPT ![u] = FALSE] /\ Drop(u) /\ UNCHANGED own
Free(u) == mem[u] = "gone" /\ mem' = [mem EXCEPT ![u] = "none"] /\ UNCHANGED <<rc, run, own>>
Next == \E u \in Tasks : New(u) \/ Ref(u) \/ Unref(u) \/ Start(u) \/ End(u) \/ Free(u)
Spec == Init /\ [][Next]_vars
R == INSTANCE TaskRef WITH sys <- run, obj <- mem
Refines == R!Spec
Alive == R!Alive
=============================================================================
