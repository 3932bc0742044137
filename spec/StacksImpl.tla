----------------------------- MODULE StacksImpl -----------------------------
(***************************************************************************)
(* How stacks are realised: cells of memory handed out as areas, a stack   *)
(* pointer that moves down, a saved pointer per task, and calls that store *)
(* the pointer at the top of another area.  The lowest cell of a task's    *)
(* area is never accessible.  A frame takes one cell.                      *)
(***************************************************************************)
EXTENDS Stacks
CONSTANTS Tasks, Cells, Size, MaxFrames
VARIABLES mem,       \* contents of the cells: 0 unused, frame identity, -frame: saved pointer of a call
          saved,     \* what a saved pointer says
          area,      \* areas in use <<lo, hi>>: cells lo .. hi - 1
          guard,     \* inaccessible cells
          sp,        \* stack pointer of each task (next cell is sp - 1)
          piles,     \* the contract's view
          cur, next, fault
vars == <<mem, saved, area, guard, sp, piles, cur, next, fault>>
C == 1..Cells
Init == /\ mem = [c \in C |-> 0] /\ saved = <<>> /\ area = {} /\ guard = {} /\ sp = [t \in Tasks |-> 0]
        /\ piles = [t \in Tasks |-> <<>>] /\ cur = 0 /\ next = 1 /\ fault = FALSE
LEq(x, y) == x <= y
Free(lo, hi) == lo >= 1 /\ hi <= Cells + 1 /\ \A a \in area : Disjoint(<<lo, hi>>, a, LEq)
Live == {t \in Tasks : piles[t] # <<>>}
Ok == ~fault
\* a new task gets an area with an inaccessible lowest cell; its first frame
\* is there before it runs
Spawn(t) == /\ Ok /\ piles[t] = <<>> /\ next <= MaxFrames
            /\ \E lo \in C : LET hi == lo + Size + 1 IN
                 /\ Free(lo, hi) /\ area' = area \cup {<<lo, hi>>} /\ guard' = guard \cup {lo}
                 /\ CanEnter(piles, <<lo + 1, hi>>, LEq)
                 /\ piles' = Enter(piles, t, Frame(next, "task", <<lo + 1, hi>>))
                 /\ mem' = [mem EXCEPT ![hi - 1] = next] /\ sp' = [sp EXCEPT ![t] = hi - 1]
            /\ next' = next + 1 /\ UNCHANGED <<saved, cur, fault>>
Switch(t) == Ok /\ t \in Live /\ t # cur /\ cur' = t
             /\ UNCHANGED <<mem, saved, area, guard, sp, piles, next, fault>>
\* a plain call pushes a frame
Push == LET t == cur
            c == sp[t] - 1 IN
        /\ Ok /\ t \in Live /\ next <= MaxFrames /\ c >= 1
        /\ IF c \in guard
           THEN fault' = TRUE /\ UNCHANGED <<mem, saved, area, guard, sp, piles, cur, next>>
           ELSE /\ \E a \in area : a[1] <= c /\ sp[t] < a[2]     \* a call keeps to the size it asked for
                /\ mem' = [mem EXCEPT ![c] = next] /\ sp' = [sp EXCEPT ![t] = c]
                /\ piles' = Enter(piles, t, Frame(next, "fn", <<>>))
                /\ next' = next + 1 /\ UNCHANGED <<saved, area, guard, cur, fault>>
\* a call on another stack keeps the pointer at the top there
Call == LET t == cur IN
        /\ Ok /\ t \in Live /\ next <= MaxFrames
        /\ \E lo \in C : LET hi == lo + Size + 1 IN
             /\ Free(lo, hi) /\ area' = area \cup {<<lo, hi>>}
             /\ CanEnter(piles, <<lo, hi>>, LEq)
             /\ piles' = Enter(piles, t, Frame(next, "call", <<lo, hi>>))
             /\ saved' = Append(saved, sp[t])
             /\ mem' = [mem EXCEPT ![hi - 1] = -Len(saved'), ![hi - 2] = next]
             /\ sp' = [sp EXCEPT ![t] = hi - 2]
        /\ next' = next + 1 /\ UNCHANGED <<guard, cur, fault>>
Ret == LET t == cur IN
    /\ Ok /\ t \in Live /\ UNCHANGED <<saved, next, fault, cur>>
    /\ LET fr == Top(piles[t])
           c == sp[t]
       IN /\ CanLeave(piles, t, mem[c], fr.kind)
          /\ piles' = Leave(piles, t)
          /\ IF fr.kind = "fn"
             THEN sp' = [sp EXCEPT ![t] = c + 1] /\ mem' = [mem EXCEPT ![c] = 0] /\ UNCHANGED <<area, guard>>
             ELSE LET a == CHOOSE a \in area : a[1] <= c /\ c < a[2] IN
                  /\ area' = area \ {a} /\ guard' = guard \ {a[1]}
                  /\ mem' = [x \in C |-> IF a[1] <= x /\ x < a[2] THEN 0 ELSE mem[x]]
                  /\ sp' = [sp EXCEPT ![t] = IF fr.kind = "call" THEN saved[-mem[c + 1]] ELSE 0]
Next == (\E t \in Tasks : Spawn(t) \/ Switch(t)) \/ Push \/ Call \/ Ret
Spec == Init /\ [][Next]_vars

\* every frame finds its data at its place, and can always be left
TopIsThere == Ok => \A t \in Live : mem[sp[t]] = Top(piles[t]).f
AllThere == \A t \in Live : \A i \in 1..Len(piles[t]) : \E c \in C : mem[c] = piles[t][i].f
Apart == \A t, u \in Live : \A i \in 1..Len(piles[t]), j \in 1..Len(piles[u]) :
            (t # u \/ i # j) /\ piles[t][i].piece # <<>> /\ piles[u][j].piece # <<>>
            => Disjoint(piles[t][i].piece, piles[u][j].piece, LEq)
GuardClean == \A c \in guard : mem[c] = 0
=============================================================================
