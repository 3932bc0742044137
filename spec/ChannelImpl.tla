---------------------------- MODULE ChannelImpl ----------------------------
(***************************************************************************)
(* The channel algorithm, one channel with ends 1 and 2.  Each end has a   *)
(* ring of Buffers + 1 slots holding what can be read at it, a use count   *)
(* and the task to wake.  A write stores its message and then waits until  *)
(* at most Buffers messages are queued.  Any task may use any idle end;    *)
(* tasks may also end, and waking an ended task is an error.               *)
(* Select: end in a set has a watcher and list membership flags rl, wl.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Tasks, Buffers, Ids, WithSelect, WithEnd
Ends == {1, 2}
Sets == {1}
Peer(e) == 3 - e
Max == Buffers + 1
Slots == 0..Max - 1

VARIABLES open, ring, rd, wr, use, task, insel, rl, wl,
          st,      \* "run", "wait", "end"
          pc,      \* "idle", "read", "full", "sync", "sr", "sw"
          at,      \* end (or set) the task is busy with
          err      \* an ended task was woken
vars == <<open, ring, rd, wr, use, task, insel, rl, wl, st, pc, at, err>>

Init == /\ open = [e \in Ends |-> TRUE]
        /\ ring = [e \in Ends |-> [i \in Slots |-> 0]]
        /\ rd = [e \in Ends |-> 0] /\ wr = [e \in Ends |-> 0]
        /\ use = [e \in Ends |-> 0] /\ task = [e \in Ends |-> 0]
        /\ insel = [e \in Ends |-> FALSE]
        /\ rl = [e \in Ends |-> FALSE] /\ wl = [e \in Ends |-> FALSE]
        /\ st = [t \in Tasks |-> "run"] /\ pc = [t \in Tasks |-> "idle"]
        /\ at = [t \in Tasks |-> 0] /\ err = FALSE

Readable(e) == use[e] # 0
Writable(e) == use[Peer(e)] < Max              \* for a writer at e
Busy(e) == \E t \in Tasks : pc[t] \in {"read", "full", "sync"} /\ at[t] = e
\* the task that watches a set is the one that added its ends
Watcher == CHOOSE t \in Tasks : \A u \in Tasks : t <= u
May(t, e) == st[t] = "run" /\ pc[t] = "idle" /\ ~Busy(e) /\ (insel[e] => t = Watcher)

\* states after waking w (0: nobody)
Woken(s, w) == IF w # 0 /\ s[w] = "wait" THEN [s EXCEPT ![w] = "run"] ELSE s
Bad(s, w) == w # 0 /\ s[w] = "end"

\* ---- read at e by t: the part after the wait loop
DoRead(t, e, s0, t0) ==
    LET p == Peer(e)
        n == use[e] - 1
        over == use[e] = Max
        edge == use[e] >= Max - 1 IN
    /\ rd' = [rd EXCEPT ![e] = (@ + 1) % Max]
    /\ use' = [use EXCEPT ![e] = n]
    /\ wl' = IF edge /\ open[p] /\ insel[p] /\ (Max = 1 \/ n < Max - 1)
             THEN [wl EXCEPT ![p] = TRUE] ELSE wl
    /\ rl' = IF insel[e] /\ n = 0 THEN [rl EXCEPT ![e] = FALSE] ELSE rl
    /\ LET w == IF open[p] /\ (over \/ (edge /\ insel[p])) THEN t0[p] ELSE 0 IN
       /\ st' = Woken(s0, w) /\ err' = (err \/ Bad(s0, w))
    /\ task' = t0
    /\ pc' = [pc EXCEPT ![t] = "idle"] /\ at' = [at EXCEPT ![t] = 0]
    /\ UNCHANGED <<open, ring, wr, insel>>
Sleep(t, e, c) == /\ st' = [st EXCEPT ![t] = "wait"]
                  /\ task' = [task EXCEPT ![e] = t]
                  /\ pc' = [pc EXCEPT ![t] = c] /\ at' = [at EXCEPT ![t] = e]
                  /\ UNCHANGED <<open, ring, rd, wr, use, insel, rl, wl, err>>
Leave(t, tk) == /\ pc' = [pc EXCEPT ![t] = "idle"] /\ at' = [at EXCEPT ![t] = 0]
                /\ task' = tk
                /\ UNCHANGED <<open, ring, rd, wr, use, insel, rl, wl, st, err>>
\* the wait is over: the record of the waiting task is withdrawn
Clear(e) == IF insel[e] THEN task ELSE [task EXCEPT ![e] = 0]

ReadAt(t, e, tk) == IF Readable(e) THEN DoRead(t, e, st, tk)
                    ELSE IF ~open[Peer(e)] THEN Leave(t, tk)
                    ELSE Sleep(t, e, "read")
Read(t, e) == May(t, e) /\ open[e] /\ ReadAt(t, e, task)
ReadMore(t) == st[t] = "run" /\ pc[t] = "read" /\ ReadAt(t, at[t], Clear(at[t]))

\* ---- write at e by t
Sync(t, e, s0, u0) == \* after storing: wait until the message fits
    IF u0[Peer(e)] < Max
    THEN /\ st' = s0 /\ pc' = [pc EXCEPT ![t] = "idle"] /\ at' = [at EXCEPT ![t] = 0]
    ELSE /\ st' = [s0 EXCEPT ![t] = "wait"]
         /\ pc' = [pc EXCEPT ![t] = "sync"] /\ at' = [at EXCEPT ![t] = e]
Store(t, e, id, tk) ==
    LET p == Peer(e)
        w == IF use[p] = 0 THEN tk[p] ELSE 0
        u == [use EXCEPT ![p] = @ + 1] IN
    /\ ring' = [ring EXCEPT ![p][wr[p]] = id]
    /\ wr' = [wr EXCEPT ![p] = (@ + 1) % Max]
    /\ rl' = IF use[p] = 0 /\ insel[p] THEN [rl EXCEPT ![p] = TRUE] ELSE rl
    /\ wl' = IF insel[e] /\ ~(u[p] < Max - 1) THEN [wl EXCEPT ![e] = FALSE] ELSE wl
    /\ use' = u
    /\ err' = (err \/ Bad(st, w))
    /\ Sync(t, e, Woken(st, w), u)
    /\ task' = IF u[p] < Max THEN tk ELSE [tk EXCEPT ![e] = t]
    /\ UNCHANGED <<open, rd, insel>>
Write(t, e, id) ==
    /\ May(t, e) /\ open[e]
    /\ IF ~open[Peer(e)] THEN UNCHANGED vars
       ELSE IF Writable(e) THEN Store(t, e, id, task)
       ELSE FALSE           \* not reachable: see NoFull
WriteMore(t) ==
    /\ st[t] = "run" /\ pc[t] = "sync"
    /\ IF Writable(at[t]) \/ ~open[Peer(at[t])] THEN Leave(t, Clear(at[t]))
       ELSE Sleep(t, at[t], "sync")

Close(t, e) ==
    /\ May(t, e) /\ open[e] /\ ~insel[e]
    /\ open' = [open EXCEPT ![e] = FALSE]
    /\ LET w == IF open[Peer(e)] THEN task[Peer(e)] ELSE 0 IN
       /\ st' = Woken(Woken(st, w), task[e])
       /\ err' = (err \/ Bad(st, w) \/ Bad(st, task[e]))
    /\ UNCHANGED <<ring, rd, wr, use, task, insel, rl, wl, pc, at>>

\* ---- select
SelAdd(t, e) ==
    /\ WithSelect /\ t = Watcher /\ May(t, e) /\ open[e] /\ ~insel[e]
    /\ insel' = [insel EXCEPT ![e] = TRUE] /\ task' = [task EXCEPT ![e] = t]
    /\ rl' = [rl EXCEPT ![e] = Readable(e)]
    /\ wl' = [wl EXCEPT ![e] = open[Peer(e)] /\ use[Peer(e)] < Max - 1]
    /\ UNCHANGED <<open, ring, rd, wr, use, st, pc, at, err>>
SelDel(t, e) ==
    /\ t = Watcher /\ May(t, e) /\ insel[e]
    /\ insel' = [insel EXCEPT ![e] = FALSE] /\ task' = [task EXCEPT ![e] = 0]
    /\ rl' = [rl EXCEPT ![e] = FALSE] /\ wl' = [wl EXCEPT ![e] = FALSE]
    /\ UNCHANGED <<open, ring, rd, wr, use, st, pc, at, err>>
ListOf(c) == {e \in Ends : insel[e] /\ IF c = "sr" THEN rl[e] ELSE wl[e]}
SelAt(t, c) == IF ListOf(c) # {} \/ (\A e \in Ends : ~insel[e])
               THEN /\ pc' = [pc EXCEPT ![t] = "idle"] /\ at' = [at EXCEPT ![t] = 0]
                    /\ UNCHANGED <<open, ring, rd, wr, use, task, insel, rl, wl, st, err>>
               ELSE /\ st' = [st EXCEPT ![t] = "wait"]
                    /\ pc' = [pc EXCEPT ![t] = c] /\ at' = [at EXCEPT ![t] = 1]
                    /\ UNCHANGED <<open, ring, rd, wr, use, task, insel, rl, wl, err>>
Select(t, c) == WithSelect /\ t = Watcher /\ st[t] = "run" /\ pc[t] = "idle" /\ SelAt(t, c)
SelMore(t) == st[t] = "run" /\ pc[t] \in {"sr", "sw"} /\ SelAt(t, pc[t])

Stray(t) == st[t] = "wait" /\ st' = [st EXCEPT ![t] = "run"]
            /\ UNCHANGED <<open, ring, rd, wr, use, task, insel, rl, wl, pc, at, err>>
EndTask(t) == /\ WithEnd /\ st[t] = "run" /\ pc[t] = "idle"
              /\ (t = Watcher => \A e \in Ends : ~insel[e])
              /\ st' = [st EXCEPT ![t] = "end"]
              /\ UNCHANGED <<open, ring, rd, wr, use, task, insel, rl, wl, pc, at, err>>

Next == \/ \E t \in Tasks, e \in Ends : Read(t, e) \/ Close(t, e) \/ SelAdd(t, e) \/ SelDel(t, e)
              \/ \E id \in Ids : Write(t, e, id)
        \/ \E t \in Tasks : ReadMore(t) \/ WriteMore(t) \/ SelMore(t) \/ Stray(t) \/ EndTask(t)
              \/ \E c \in {"sr", "sw"} : Select(t, c)
Spec == Init /\ [][Next]_vars

NoErr == ~err
NoFull == \A e \in Ends : (open[e] /\ open[Peer(e)] /\ ~Busy(e)) => Writable(e)
Lists == \A e \in Ends : insel[e] =>
            /\ rl[e] = Readable(e)
            /\ (Buffers > 0 /\ open[Peer(e)]) => wl[e] = (use[Peer(e)] < Buffers)

Slot(e, i) == ring[e][(rd[e] + i - 1) % Max]
aq == [e \in Ends |-> [i \in 1..use[e] |-> [id |-> Slot(e, i), n |-> 1]]]
Kind(t) == CASE pc[t] = "idle" -> [k |-> "none", e |-> 0]
             [] pc[t] = "read" -> [k |-> "r", e |-> at[t]]
             [] pc[t] = "sync" -> [k |-> "w", e |-> at[t]]
             [] pc[t] \in {"sr", "sw"} -> [k |-> pc[t], e |-> 1]
aop == [t \in Tasks |-> Kind(t)]
C == INSTANCE Channel WITH q <- aq, op <- aop, set <- [s \in Sets |-> {e \in Ends : insel[e]}],
                           cap <- [e \in Ends |-> Buffers], size <- [e \in Ends |-> 1], Lens <- {1}
Refines == C!Spec
\* blocked calls that could complete have a runnable task
NoneStuck == \A t \in Tasks : C!Stuck(t) => st[t] = "run"
=============================================================================
