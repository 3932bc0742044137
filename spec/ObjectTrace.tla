---------------------------- MODULE ObjectTrace -----------------------------
(***************************************************************************)
(* Recorded executions of threads over shared objects: calls, accesses to  *)
(* the counts with their memory orders, destructions.                      *)
(***************************************************************************)
EXTENDS TraceIO, Object
VARIABLES o, m
vars_ == <<o, m>>
Thread0 == 0..4            \* 0: before and after the others
Objs == 1..7
TraceInit == TInit /\ m = Start /\ o = [i \in Objs |-> [out |-> 0, seen |-> Zero, gone |-> 1]]
Make == IsOp("new") /\ o' = [o EXCEPT ![Cur.a] = [out |-> Cur.b, seen |-> Zero, gone |-> 0]] /\ UNCHANGED m
Fresh == /\ IsEv("note") /\ Cur.o = "fresh" /\ m' = Tick(m, Cur.a)
         /\ o' = [o EXCEPT ![Cur.b] = Touch([out |-> 1, seen |-> Zero, gone |-> 0], m, Cur.a)]
Call == /\ IsEv("call")
        /\ IF Cur.o = "fresh" THEN UNCHANGED vars_
           ELSE /\ m' = Tick(m, Cur.a)
                /\ LET x == Touch(o[Cur.b], m, Cur.a) IN
                   o' = [o EXCEPT ![Cur.b] = CASE Cur.o = "ref" -> [x EXCEPT !.out = @ + 1]
                                               [] Cur.o = "unref" -> [x EXCEPT !.out = @ - 1]
                                               [] OTHER -> x]
Mem == /\ IsEv("mem") /\ UNCHANGED o
       /\ m' = CASE Cur.o = "fence" -> Fence(m, Cur.a, Cur.c)
                 [] Cur.o = "load" -> Load(m, Cur.a, Cur.b, Cur.c)
                 [] Cur.o = "store" -> Store(m, Cur.a, Cur.b, Cur.c)
                 [] Cur.o = "rmw" -> Update(m, Cur.a, Cur.b, Cur.c)
Destroy == /\ IsEv("destroy") /\ DestroyOK(o[Cur.b], m, Cur.a) /\ UNCHANGED m
           /\ o' = [o EXCEPT ![Cur.b].gone = 1]
Final == IsEv("final") /\ (\A i \in Objs : RestOK(o[i])) /\ UNCHANGED vars_
Step == Make \/ Fresh \/ Call \/ Mem \/ Destroy \/ Final
TraceNext == (Step /\ Eat) \/ (Accepted /\ UNCHANGED vars_)
=============================================================================
