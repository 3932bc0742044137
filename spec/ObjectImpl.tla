----------------------------- MODULE ObjectImpl -----------------------------
(***************************************************************************)
(* Threads that use, reference and release a shared object whose count is  *)
(* changed with the orders RefOrder and UnrefOrder.                        *)
(***************************************************************************)
EXTENDS Object, FiniteSets
CONSTANTS RefOrder, UnrefOrder, MaxRef, MaxUse
VARIABLES o, m, mine, cnt, pc, used, right
vars == <<o, m, mine, cnt, pc, used, right>>
Init == /\ mine = [t \in Threads |-> 1] /\ pc = [t \in Threads |-> "run"] /\ used = [t \in Threads |-> 0]
        /\ cnt = Cardinality(Threads) /\ m = Start /\ right = TRUE
        /\ o = [out |-> Cardinality(Threads), seen |-> Zero, gone |-> 0]
Use(t) == /\ pc[t] = "run" /\ mine[t] > 0 /\ used[t] < MaxUse /\ used' = [used EXCEPT ![t] = @ + 1]
          /\ o' = Touch(o, m, t) /\ m' = Tick(m, t) /\ UNCHANGED <<mine, cnt, pc, right>>
Ref(t) == /\ pc[t] = "run" /\ mine[t] \in 1..(MaxRef - 1) /\ used[t] < MaxUse /\ used' = [used EXCEPT ![t] = @ + 1]
          /\ mine' = [mine EXCEPT ![t] = @ + 1]
          /\ cnt' = cnt + 1 /\ m' = Update(m, t, 1, RefOrder)
          /\ o' = [Touch(o, m, t) EXCEPT !.out = @ + 1] /\ UNCHANGED <<pc, right>>
Unref(t) == /\ pc[t] = "run" /\ mine[t] > 0 /\ mine' = [mine EXCEPT ![t] = @ - 1]
            /\ cnt' = cnt - 1 /\ m' = Update(m, t, 1, UnrefOrder)
            /\ o' = [Touch(o, m, t) EXCEPT !.out = @ - 1]
            /\ pc' = IF cnt = 1 THEN [pc EXCEPT ![t] = "last"] ELSE pc
            /\ UNCHANGED <<used, right>>
Destroy(t) == /\ pc[t] = "last" /\ pc' = [pc EXCEPT ![t] = "end"] /\ right' = (right /\ DestroyOK(o, m, t))
              /\ o' = [o EXCEPT !.gone = @ + 1] /\ UNCHANGED <<m, mine, cnt, used>>
Next == \E t \in Threads : Use(t) \/ Ref(t) \/ Unref(t) \/ Destroy(t)
Spec == Init /\ [][Next]_vars
Right == right
Rest == (\A t \in Threads : pc[t] # "last") => RestOK(o)
=============================================================================
