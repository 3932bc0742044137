-------------------------------- MODULE Dns ---------------------------------
(***************************************************************************)
(* Name lookups.  A task asks a query; one helper, the same for everybody, *)
(* resolves it exactly once in between; the task gets the answer to its    *)
(* own query.  Only when the helper cannot be had for want of resources is *)
(* the query refused without being resolved.                               *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Askers,      \* 10 * thread + task
          Queries, Helpers
VARIABLES asked,       \* asker -> query or 0
          seen,        \* queries resolved since they were asked
          helper       \* who resolves, 0: not known yet

dvars == <<asked, seen, helper>>
DInit == asked = [a \in Askers |-> 0] /\ seen = {} /\ helper = 0

Ask(a, q) == /\ asked[a] = 0 /\ \A b \in Askers : asked[b] # q
             /\ asked' = [asked EXCEPT ![a] = q]
             /\ seen' = seen \ {q}
             /\ UNCHANGED helper
Resolve(h, q) == /\ \E a \in Askers : asked[a] = q
                 /\ q \notin seen
                 /\ helper \in {0, h} /\ helper' = h
                 /\ seen' = seen \cup {q}
                 /\ UNCHANGED asked
Answer(a, q) == /\ asked[a] = q /\ q \in seen
                /\ asked' = [asked EXCEPT ![a] = 0]
                /\ UNCHANGED <<seen, helper>>
Refuse(a, q) == /\ asked[a] = q /\ q \notin seen
                /\ asked' = [asked EXCEPT ![a] = 0]
                /\ UNCHANGED <<seen, helper>>
DNext == \E a \in Askers, q \in Queries :
            Ask(a, q) \/ (\E h \in Helpers : Resolve(h, q)) \/ Answer(a, q) \/ Refuse(a, q)
DSpec == DInit /\ [][DNext]_dvars
=============================================================================
