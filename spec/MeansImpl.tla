----------------------------- MODULE MeansImpl -----------------------------
(***************************************************************************)
(* How the library's creating calls work: they obtain one thing after the  *)
(* other, nested constructors included, and when a request is refused go   *)
(* back through labels that return what was obtained so far.  Every        *)
(* request can be refused.  Undo says for which step of which call the     *)
(* way back starts; with Careless one label is missing.                    *)
(***************************************************************************)
EXTENDS Means, TLC

CONSTANTS Things, Careless

M == "mem"
P == "page"
F == "fd"
N == "none"        \* a request that obtains nothing but can be refused

\* the requests of each call: task, channel, buffering stage, pipe, splicer
Calls == [task |-> <<M, M, P, N>>,
          chan |-> <<M, M>>,
          cbuf |-> <<M, M, M>>,
          pipe |-> <<F, N, N>>,
          splice |-> <<F, N, N, F, N, N>>,
          ring |-> <<M>>]
Amount(c, i) == IF Calls[c][i] = F THEN 2 ELSE IF Calls[c][i] = N THEN 0 ELSE 1

VARIABLES call,    \* what is being made
          step,    \* requests done
          way,     \* "out", "forth" or "back"
          held     \* kind -> amount

iv == <<cost, busy, call, step, way, held>>

Init == MeansInit /\ call = "ring" /\ step = 0 /\ way = "out" /\ held = None

Plus(f, k, n) == IF k = N THEN f ELSE [f EXCEPT ![k] = @ + n]

Enter(t, c) == /\ way = "out" /\ Start(t)
               /\ call' = c /\ step' = 0 /\ way' = "forth" /\ UNCHANGED held
Request == /\ way = "forth" /\ step < Len(Calls[call])
           /\ step' = step + 1
           /\ held' = Plus(held, Calls[call][step + 1], Amount(call, step + 1))
           /\ UNCHANGED <<cost, busy, call, way>>
Refuse == /\ way = "forth" /\ step < Len(Calls[call])
          /\ way' = "back"
          /\ step' = IF Careless /\ step = 2 THEN 1 ELSE step
          /\ UNCHANGED <<cost, busy, call, held>>
Return == /\ way = "back" /\ step > 0
          /\ held' = Plus(held, Calls[call][step], -Amount(call, step))
          /\ step' = step - 1
          /\ UNCHANGED <<cost, busy, call, way>>
Fail == /\ way = "back" /\ step = 0
        /\ way' = "out" /\ Failed(busy) /\ UNCHANGED <<call, step, held>>
RECURSIVE Sums(_, _)
Sums(c, i) == IF i = 0 THEN None ELSE Plus(Sums(c, i - 1), Calls[c][i], Amount(c, i))
Succeed == /\ way = "forth" /\ step = Len(Calls[call])
           /\ way' = "out" /\ Made(busy, Sums(call, step))
           /\ UNCHANGED <<call, step, held>>
Drop(t) == /\ way = "out" /\ GiveUp(t)
           /\ held' = [k \in Kinds |-> held[k] - cost[t][k]]
           /\ UNCHANGED <<call, step, way>>

Next == \/ \E t \in Things : (\E c \in DOMAIN Calls : Enter(t, c)) \/ Drop(t)
        \/ Request \/ Refuse \/ Return \/ Fail \/ Succeed
Spec == Init /\ [][Next]_iv

\* outside of calls exactly what exists holds something
Exact == way = "out" => held = Total
Never == \A k \in Kinds : held[k] >= 0
=============================================================================
