-------------------------------- MODULE C11 ---------------------------------
(***************************************************************************)
(* What one thread knows of the others under the C memory model, as vector *)
(* clocks.  A memory m is a record with                                    *)
(*   vc    per thread: what it knows (its own entry counts its steps)      *)
(*   rel   per thread: what a later relaxed write publishes (release fence)*)
(*   acq   per thread: what an acquire fence would make known              *)
(*   view  per atomic variable: what reading it publishes                  *)
(* Orders: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acquire-release,  *)
(* 5 sequentially consistent, as the compiler numbers them.                *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Threads, Atoms

Max_(x, y) == IF x > y THEN x ELSE y
Join(u, v) == [t \in Threads |-> Max_(u[t], v[t])]
Zero == [t \in Threads |-> 0]
Start == [vc |-> [t \in Threads |-> [u \in Threads |-> IF u = t THEN 1 ELSE 0]],
          rel |-> [t \in Threads |-> Zero], acq |-> [t \in Threads |-> Zero],
          view |-> [a \in Atoms |-> Zero]]
Acquires(mo) == mo \in {1, 2, 4, 5}
Releases(mo) == mo \in {3, 4, 5}

Tick(m, t) == [m EXCEPT !.vc[t][t] = @ + 1]
\* what t learns by reading a
Heard(m, t, a, mo) == [m EXCEPT !.acq[t] = Join(@, m.view[a]),
                                !.vc[t] = IF Acquires(mo) THEN Join(@, m.view[a]) ELSE @]
Given(m, t, mo) == IF Releases(mo) THEN m.vc[t] ELSE m.rel[t]
Load(m, t, a, mo) == Tick(Heard(m, t, a, mo), t)
Store(m, t, a, mo) == Tick([m EXCEPT !.view[a] = Given(m, t, mo)], t)
\* read and write in one: continues what was published before
Update(m, t, a, mo) == LET n == Heard(m, t, a, mo) IN
                       Tick([n EXCEPT !.view[a] = Join(@, Given(n, t, mo))], t)
Fence(m, t, mo) == LET n == IF Acquires(mo) THEN [m EXCEPT !.vc[t] = Join(@, m.acq[t])] ELSE m
                   IN Tick(IF Releases(mo) THEN [n EXCEPT !.rel[t] = n.vc[t]] ELSE n, t)
\* starting t and waiting for its end
Fork(m, t, u) == Tick([m EXCEPT !.vc[u] = Join(@, m.vc[t])], t)
EndOf(m, t, u) == Tick([m EXCEPT !.vc[t] = Join(@, m.vc[u])], t)
\* t knows step n of u
Knows(m, t, u, n) == m.vc[t][u] >= n
=============================================================================
