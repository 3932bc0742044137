----------------------------- MODULE MeansGen ------------------------------
(***************************************************************************)
(* Sequences of creating calls, one of whose requests may be refused, uses *)
(* and releases.                                                           *)
(***************************************************************************)
EXTENDS MeansImpl, Json
VARIABLES hist, kind
GInit == Init /\ hist = <<>> /\ kind = <<>>
Same == UNCHANGED <<cost, busy, call, step, way, held>>
\* n: which request is refused, 0 for none
New(t, c, n) == /\ t \notin DOMAIN kind /\ n <= Len(Calls[c]) /\ (c = "splice" => n > 0)
                /\ kind' = IF n > 0 THEN kind
                           ELSE [x \in DOMAIN kind \cup {t} |-> IF x = t THEN c ELSE kind[x]]
                /\ hist' = Append(hist, <<"new", t, c, n>>) /\ Same
Use(t) == t \in DOMAIN kind /\ UNCHANGED kind /\ hist' = Append(hist, <<"use", t>>) /\ Same
Del(t) == /\ t \in DOMAIN kind /\ kind' = [x \in DOMAIN kind \ {t} |-> kind[x]]
          /\ hist' = Append(hist, <<"del", t>>) /\ Same
GNext == \E t \in Things : \/ \E c \in DOMAIN Calls, n \in 0..6 : New(t, c, n)
                           \/ Use(t) \/ Del(t)
TourView == kind
Tour == PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
