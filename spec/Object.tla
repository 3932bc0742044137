------------------------------- MODULE Object -------------------------------
(***************************************************************************)
(* Contract of an object shared by threads.  o is a record with            *)
(*   out   references taken and not given back (counted when the call      *)
(*         that takes or gives it back begins)                             *)
(*   seen  per thread: its last step on the object, 0 if none              *)
(*   gone  how often it was destroyed                                      *)
(***************************************************************************)
EXTENDS C11
Touch(o, m, t) == [o EXCEPT !.seen[t] = m.vc[t][t]]
\* thread t destroys it
DestroyOK(o, m, t) == /\ o.out = 0 /\ o.gone = 0
                      /\ \A u \in Threads : Knows(m, t, u, o.seen[u])
RestOK(o) == o.gone = IF o.out = 0 THEN 1 ELSE 0
=============================================================================
