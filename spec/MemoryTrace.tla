---------------------------- MODULE MemoryTrace -----------------------------
(***************************************************************************)
(* Recorded executions of the allocation functions; "sys" events are the   *)
(* requests made to the system.                                            *)
(***************************************************************************)
EXTENDS TraceIO, Memory
VARIABLES sys, held, own, short, run
vars_ == <<sys, held, own, short, run>>
None == <<>>
TraceInit == TInit /\ sys = None /\ held = None /\ own = {} /\ short = FALSE /\ run = FALSE
Limit == Traces[tid].limit
Slice == Traces[tid].slice = 1

Sys == /\ IsEv("sys") /\ UNCHANGED <<held, own, run>>
       /\ \/ Cur.o = "alloc" /\ Cur.a \notin DOMAIN sys /\ sys' = (Cur.a :> Cur.b) @@ sys /\ UNCHANGED short
          \/ Cur.o = "free" /\ Cur.a \in DOMAIN sys /\ sys' = Without(sys, {Cur.a}) /\ UNCHANGED short
          \/ Cur.o = "nomem" /\ short' = TRUE /\ UNCHANGED sys
\* what the task system itself obtained while it was set up
Start == IsOp("init") /\ own' = DOMAIN sys /\ run' = TRUE /\ UNCHANGED <<sys, held, short>>
Call == IsEv("call") /\ short' = FALSE /\ UNCHANGED <<sys, held, own, run>>
Bound(s, h) == Cardinality(Kept(s, h, own)) <= Limit
Fair(x) == Cur.x[3] = 0 /\ Usable(x, sys, Without(held, {Cur.a}))
Get == /\ More /\ Cur.e = "op" /\ Cur.o \in {"m", "z", "k", "r"}
       /\ UNCHANGED <<sys, own, short, run>>
       /\ LET h == Cur.a
              x == <<Cur.x[1], Cur.x[2], Cur.b>>
          IN IF Cur.r = 1
             THEN /\ Cur.c = 0 /\ (Slice => Cur.b > 0) /\ Fair(x)
                  /\ held' = (h :> x) @@ Without(held, {h})
             ELSE /\ Cur.b = 0 \/ Cur.c = 1 \/ short
                  /\ held' = (IF Cur.o = "r" /\ Cur.b = 0 THEN Without(held, {h}) ELSE held)
       /\ Bound(sys, held')
Free == /\ IsOp("f") /\ held' = Without(held, {Cur.a}) /\ UNCHANGED <<sys, own, short, run>>
        /\ Bound(sys, held')
\* everything but what the caller still holds goes back
Stop == /\ IsOp("fini") /\ run' = FALSE /\ DOMAIN sys = Used(held) \cap DOMAIN sys
        /\ UNCHANGED <<sys, held, own, short>>
\* the blocks in use exist
Whole == Used(held) \subseteq DOMAIN sys
Step == Sys \/ Start \/ Call \/ Get \/ Free \/ Stop \/ (IsEv("final") /\ Whole /\ UNCHANGED vars_)
TraceNext == (Step /\ Eat) \/ (Accepted /\ UNCHANGED vars_)
=============================================================================
