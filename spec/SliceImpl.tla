----------------------------- MODULE SliceImpl ------------------------------
(***************************************************************************)
(* The slice allocator: a list of freed blocks per size class, the classes *)
(* with freed blocks in order of last use, at most Limit freed blocks kept *)
(* in total; requests larger than the largest class go to the system.      *)
(***************************************************************************)
EXTENDS Memory
CONSTANTS Handles, Classes, Limit, Blocks, Large
VARIABLES sys, held, class, list, lru
vars == <<sys, held, class, list, lru>>
None == <<>>

Init == /\ sys = None /\ held = None /\ class = None
        /\ list = [c \in Classes |-> <<>>] /\ lru = <<>>

Del(s, c) == SelectSeq(s, LAMBDA y : y # c)
Hold(h, b, z) == held' = (h :> <<b, 0, z>>) @@ held
Alloc(h, z) ==
    /\ h \notin DOMAIN held
    /\ IF z \in Classes /\ list[z] # <<>>
       THEN /\ Hold(h, list[z][1], z)
            /\ list' = [list EXCEPT ![z] = Tail(@)]
            /\ lru' = (IF Len(list[z]) > 1 THEN <<z>> ELSE <<>>) \o Del(lru, z)
            /\ UNCHANGED <<sys, class>>
       ELSE /\ \E b \in Blocks \ DOMAIN sys :
                  /\ Hold(h, b, z) /\ sys' = (b :> z) @@ sys
                  /\ class' = (b :> IF z \in Classes THEN z ELSE 0) @@ class
            /\ UNCHANGED <<list, lru>>
\* class c has room after the least recently used class gave up a block
Free(h) ==
    /\ h \in DOMAIN held /\ held' = Without(held, {h})
    /\ LET b == held[h][1]
           c == class[b]
           n == Cardinality(UNION {{list[x][i] : i \in DOMAIN list[x]} : x \in Classes})
           v == lru[Len(lru)]
           l1 == IF n >= Limit THEN [list EXCEPT ![v] = Tail(@)] ELSE list
           r1 == IF n >= Limit /\ Len(list[v]) = 1 THEN Del(lru, v) ELSE lru
       IN IF c = 0 THEN /\ sys' = Without(sys, {b}) /\ class' = Without(class, {b})
                        /\ UNCHANGED <<list, lru>>
          ELSE /\ list' = [l1 EXCEPT ![c] = <<b>> \o @]
               /\ lru' = (IF l1[c] = <<>> THEN <<c>> ELSE <<>>) \o r1
               /\ sys' = (IF n >= Limit THEN Without(sys, {list[v][1]}) ELSE sys)
               /\ class' = (IF n >= Limit THEN Without(class, {list[v][1]}) ELSE class)
\* the system's resize: same block in the model
Resize(h, z) ==
    /\ h \in DOMAIN held
    /\ LET b == held[h][1] IN
       /\ held' = [held EXCEPT ![h] = <<b, 0, z>>] /\ sys' = [sys EXCEPT ![b] = z]
       /\ class' = [class EXCEPT ![b] = IF z \in Classes THEN z ELSE 0]
    /\ UNCHANGED <<list, lru>>
Next == \E h \in Handles : \/ Free(h)
                           \/ \E z \in Classes \cup {Large} : Alloc(h, z) \/ Resize(h, z)
Spec == Init /\ [][Next]_vars

Sym == Permutations(Handles) \cup Permutations(Blocks)
Others(h) == Without(held, {h})
Fits == \A h \in DOMAIN held : Usable(held[h], sys, Others(h))
Bound == Cardinality(Kept(sys, held, {})) <= Limit
\* destroying walks the classes in lru: it finds everything kept
Found == Kept(sys, held, {}) = UNION {{list[lru[i]][j] : j \in DOMAIN list[lru[i]]} : i \in DOMAIN lru}
Once == /\ \A c, d \in Classes : \A i \in DOMAIN list[c], j \in DOMAIN list[d] :
              list[c][i] = list[d][j] => c = d /\ i = j
        /\ \A i, j \in DOMAIN lru : lru[i] = lru[j] => i = j
=============================================================================
