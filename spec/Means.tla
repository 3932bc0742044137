------------------------------- MODULE Means -------------------------------
(***************************************************************************)
(* Calls that obtain means: memory blocks, pages of address space and      *)
(* descriptors.  A call either succeeds and from then on what it made      *)
(* holds what was obtained, or fails and holds nothing.  Giving a thing    *)
(* up returns all it holds.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Kinds     \* of means

VARIABLES cost,    \* thing -> kind -> amount, of the things that exist
          busy     \* 0, or the thing a call is about

mv == <<cost, busy>>
None == [k \in Kinds |-> 0]

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN None
             ELSE LET x == CHOOSE y \in S : TRUE
                      r == Sum(f, S \ {x})
                  IN [k \in Kinds |-> f[x][k] + r[k]]
\* what all things together hold
Total == Sum(cost, DOMAIN cost)

MeansInit == cost = <<>> /\ busy = 0

Start(t) == /\ busy = 0 /\ t \notin DOMAIN cost
            /\ busy' = t /\ UNCHANGED cost
\* with what is held in addition
Made(t, c) == /\ busy = t
              /\ cost' = [x \in DOMAIN cost \cup {t} |-> IF x = t THEN c ELSE cost[x]]
              /\ busy' = 0
Failed(t) == busy = t /\ busy' = 0 /\ UNCHANGED cost
GiveUp(t) == /\ busy = 0 /\ t \in DOMAIN cost
             /\ cost' = [x \in DOMAIN cost \ {t} |-> cost[x]]
             /\ UNCHANGED busy
=============================================================================
