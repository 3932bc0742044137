----------------------------- MODULE StagesImpl -----------------------------
(***************************************************************************)
(* Counting references: every object has a count, releasing the last one   *)
(* destroys the object, which releases its reference of the stage below.   *)
(* todo holds the releases still to be carried out.                        *)
(***************************************************************************)
EXTENDS Stages, Sequences, TLC
CONSTANTS Obj, MaxRef
VARIABLES h,                 \* what the program sees
          cnt, nx, live,     \* the counts, next pointers, existing objects
          todo, died         \* releases under way, how often each died
vars == <<h, cnt, nx, live, todo, died>>
Init == /\ h = [alive |-> {}, mine |-> [o \in Obj |-> 0], next |-> [o \in Obj |-> 0]]
        /\ cnt = [o \in Obj |-> 0] /\ nx = [o \in Obj |-> 0] /\ live = {}
        /\ todo = <<>> /\ died = [o \in Obj |-> 0]
Idle == todo = <<>>
Mine(o) == h.mine[o] > 0
Create(o) == /\ Idle /\ died[o] = 0 /\ o \notin live /\ h' = New(h, o) /\ live' = live \cup {o}
             /\ cnt' = [cnt EXCEPT ![o] = 1] /\ nx' = [nx EXCEPT ![o] = 0] /\ UNCHANGED <<todo, died>>
DoRef(o) == /\ Idle /\ Mine(o) /\ h.mine[o] < MaxRef /\ h' = Ref(h, o) /\ cnt' = [cnt EXCEPT ![o] = @ + 1]
            /\ UNCHANGED <<nx, live, todo, died>>
DoUnref(o) == /\ Idle /\ Mine(o) /\ h' = Unref(h, o) /\ todo' = <<o>> /\ UNCHANGED <<cnt, nx, live, died>>
DoPush(o, p) == /\ Idle /\ Mine(o) /\ MayPush(h, o, p) /\ h' = Push(h, o, p)
                /\ nx' = [nx EXCEPT ![o] = p] /\ UNCHANGED <<cnt, live, todo, died>>
DoPop(o) == /\ Idle /\ Mine(o) /\ h.next[o] # 0 /\ h' = Pop(h, o) /\ nx' = [nx EXCEPT ![o] = 0]
            /\ todo' = <<o>> /\ UNCHANGED <<cnt, live, died>>
Release == /\ ~Idle
           /\ LET o == Head(todo) IN
              IF cnt[o] > 1 THEN /\ cnt' = [cnt EXCEPT ![o] = @ - 1] /\ todo' = Tail(todo)
                                 /\ UNCHANGED <<live, died>>
              ELSE /\ cnt' = [cnt EXCEPT ![o] = 0] /\ live' = live \ {o}
                   /\ died' = [died EXCEPT ![o] = @ + 1]
                   /\ todo' = Tail(todo) \o (IF nx[o] # 0 THEN <<nx[o]>> ELSE <<>>)
           /\ UNCHANGED <<h, nx>>
Next == \/ \E o \in Obj : Create(o) \/ DoRef(o) \/ DoUnref(o) \/ DoPop(o) \/ \E p \in Obj : DoPush(o, p)
        \/ Release
Spec == Init /\ [][Next]_vars
Symm == Permutations(Obj)
Agree == Idle => live = h.alive /\ \A o \in live : nx[o] = h.next[o]
Counts == Idle => \A o \in live : cnt[o] = h.mine[o] + Cardinality(Holders(h, o)) /\ cnt[o] > 0
Once == \A o \in Obj : died[o] <= 1 /\ (died[o] = 1 => o \notin live)
Safe == \A i \in DOMAIN todo : todo[i] \in live
NoDangling == Idle => \A o \in live : nx[o] # 0 => nx[o] \in live
=============================================================================
