------------------------------ MODULE DnsImpl -------------------------------
(***************************************************************************)
(* How lookups are handed over.  Every task system has a relay: a mutex, a *)
(* slot for the call, a byte in each direction, registered with the helper *)
(* (an edge-triggered reactor).  The helper is started by the first that   *)
(* needs it; a system that is finished removes its relay and releases it.  *)
(*   Sync = FALSE: relays are released without asking the helper           *)
(*   Once = FALSE: whoever finds no helper starts one                      *)
(***************************************************************************)
EXTENDS Dns

CONSTANTS Threads, Sync, Once, Rounds, Refusals
Thread(a) == a \div 10

VARIABLES pc,          \* asker: "idle", "get", "start", "wait", "lock", "write", "read"
          relay,       \* thread -> "none", "up", "freed"
          owner,       \* thread -> holder of the relay's mutex or 0
          slot,        \* thread -> query in the slot
          req, rep,    \* thread -> byte under way
          edge,        \* thread -> the reactor has an event for the helper
          reg,         \* threads whose relay is registered with the helper
          started, ready, helpers,   \* helper: being started, running, how many
          fetched,     \* events the helper has fetched and not handled
          cur,         \* thread whose relay the helper handles, 0
          hpc,         \* "wait", "take", "read", "resolve", "reply"
          got,         \* query the helper works on
          bad,         \* released memory was used
          rounds, refusals, fin   \* budget; thread -> being finished

ivars == <<asked, seen, helper, pc, relay, owner, slot, req, rep, edge, reg, started, ready, helpers,
           fetched, cur, hpc, got, bad, rounds, refusals, fin>>

IInit == /\ DInit
         /\ pc = [a \in Askers |-> "idle"]
         /\ relay = [t \in Threads |-> "none"] /\ owner = [t \in Threads |-> 0]
         /\ slot = [t \in Threads |-> 0] /\ req = [t \in Threads |-> 0] /\ rep = [t \in Threads |-> 0]
         /\ edge = [t \in Threads |-> FALSE] /\ reg = {}
         /\ started = FALSE /\ ready = FALSE /\ helpers = 0
         /\ fetched = {} /\ cur = 0 /\ hpc = "wait" /\ got = 0 /\ bad = FALSE
         /\ rounds = [t \in Threads |-> 0] /\ refusals = 0 /\ fin = [t \in Threads |-> FALSE]

\* tasks of one thread take turns: nobody starts while another is in the start-up
Busy(t) == \E a \in Askers : Thread(a) = t /\ pc[a] \in {"get", "start", "wait"}

DoAsk(a, q) == /\ pc[a] = "idle" /\ ~Busy(Thread(a)) /\ ~fin[Thread(a)] /\ relay[Thread(a)] # "freed"
               /\ rounds[Thread(a)] < Rounds
               /\ Ask(a, q)
               /\ rounds' = [rounds EXCEPT ![Thread(a)] = @ + 1]
               /\ pc' = [pc EXCEPT ![a] = IF relay[Thread(a)] = "up" THEN "lock" ELSE "get"]
               /\ UNCHANGED <<relay, owner, slot, req, rep, edge, reg, started, ready, helpers, fetched, cur, hpc,
                              got, bad, refusals, fin>>
\* start-up of the helper, under its mutex
Get(a) == /\ pc[a] = "get"
          /\ IF (IF Once THEN ~started ELSE ~ready)
             THEN /\ started' = TRUE /\ helpers' = helpers + 1
             ELSE UNCHANGED <<started, helpers>>
          /\ pc' = [pc EXCEPT ![a] = "wait"]
          /\ UNCHANGED <<asked, seen, helper, relay, owner, slot, req, rep, edge, reg, ready, fetched, cur, hpc,
                         got, bad, rounds, refusals, fin>>
HelperUp == /\ started /\ ~ready /\ ready' = TRUE
            /\ UNCHANGED <<asked, seen, helper, pc, relay, owner, slot, req, rep, edge, reg, started, helpers,
                           fetched, cur, hpc, got, bad, rounds, refusals, fin>>
HelperFails == /\ started /\ ~ready /\ refusals < Refusals
               /\ started' = FALSE /\ refusals' = refusals + 1 /\ helpers' = helpers - 1
               /\ UNCHANGED <<asked, seen, helper, pc, relay, owner, slot, req, rep, edge, reg, ready,
                              fetched, cur, hpc, got, bad, rounds, fin>>
\* the relay is made and registered; the helper failed meanwhile: refused
Made(a) == LET t == Thread(a) IN
           /\ pc[a] = "wait" /\ ready
           /\ relay' = [relay EXCEPT ![t] = "up"] /\ reg' = reg \cup {t}
           /\ pc' = [pc EXCEPT ![a] = "lock"]
           /\ UNCHANGED <<asked, seen, helper, owner, slot, req, rep, edge, started, ready, helpers, fetched, cur, hpc,
                          got, bad, rounds, refusals, fin>>
Give(a) == /\ pc[a] = "wait" /\ ~started /\ ~ready
           /\ Refuse(a, asked[a])
           /\ pc' = [pc EXCEPT ![a] = "idle"]
           /\ UNCHANGED <<relay, owner, slot, req, rep, edge, reg, started, ready, helpers, fetched, cur, hpc,
                          got, bad, rounds, refusals, fin>>
Lock(a) == LET t == Thread(a) IN
           /\ pc[a] = "lock" /\ owner[t] = 0
           /\ owner' = [owner EXCEPT ![t] = a] /\ slot' = [slot EXCEPT ![t] = asked[a]]
           /\ pc' = [pc EXCEPT ![a] = "write"]
           /\ UNCHANGED <<asked, seen, helper, relay, req, rep, edge, reg, started, ready, helpers, fetched, cur, hpc,
                          got, bad, rounds, refusals, fin>>
Write(a) == LET t == Thread(a) IN
            /\ pc[a] = "write"
            /\ req' = [req EXCEPT ![t] = @ + 1] /\ edge' = [edge EXCEPT ![t] = t \in reg]
            /\ pc' = [pc EXCEPT ![a] = "read"]
            /\ UNCHANGED <<asked, seen, helper, relay, owner, slot, rep, reg, started, ready, helpers, fetched, cur,
                           hpc, got, bad, rounds, refusals, fin>>
Read(a) == LET t == Thread(a) IN
           /\ pc[a] = "read" /\ rep[t] > 0
           /\ rep' = [rep EXCEPT ![t] = @ - 1]
           /\ owner' = [owner EXCEPT ![t] = 0]
           /\ Answer(a, asked[a])
           /\ pc' = [pc EXCEPT ![a] = "idle"]
           /\ UNCHANGED <<relay, slot, req, edge, reg, started, ready, helpers, fetched, cur, hpc,
                          got, bad, rounds, refusals, fin>>

\* the helper
HFetch == /\ ready /\ hpc = "wait" /\ fetched = {}
          /\ \E t \in Threads : edge[t]
          /\ fetched' = {t \in Threads : edge[t]}
          /\ edge' = [t \in Threads |-> FALSE]
          /\ hpc' = "take"
          /\ UNCHANGED <<asked, seen, helper, pc, relay, owner, slot, req, rep, reg, started, ready, helpers, cur,
                         got, bad, rounds, refusals, fin>>
HTake(t) == /\ hpc = "take" /\ t \in fetched /\ fetched' = fetched \ {t}
            /\ IF Sync /\ t \notin reg
               THEN hpc' = (IF fetched = {t} THEN "wait" ELSE "take") /\ UNCHANGED cur
               ELSE hpc' = "read" /\ cur' = t
            /\ UNCHANGED <<asked, seen, helper, pc, relay, owner, slot, req, rep, edge, reg, started, ready, helpers,
                           got, bad, rounds, refusals, fin>>
Touched == bad' = (bad \/ relay[cur] # "up")
HRead == /\ hpc = "read" /\ Touched
         /\ IF req[cur] > 0
            THEN req' = [req EXCEPT ![cur] = @ - 1] /\ hpc' = "resolve" /\ got' = slot[cur] /\ UNCHANGED cur
            ELSE /\ UNCHANGED <<req, got>> /\ cur' = 0
                 /\ hpc' = IF fetched = {} THEN "wait" ELSE "take"
         /\ UNCHANGED <<asked, seen, helper, pc, relay, owner, slot, rep, edge, reg, started, ready, helpers, fetched,
                        rounds, refusals, fin>>
HResolve == /\ hpc = "resolve" /\ Resolve(1, got) /\ hpc' = "reply"
            /\ UNCHANGED <<pc, relay, owner, slot, req, rep, edge, reg, started, ready, helpers, fetched, cur,
                           got, bad, rounds, refusals, fin>>
HReply == /\ hpc = "reply" /\ rep' = [rep EXCEPT ![cur] = @ + 1] /\ hpc' = "read" /\ Touched
          /\ UNCHANGED <<asked, seen, helper, pc, relay, owner, slot, req, edge, reg, started, ready, helpers, fetched,
                         cur, got, rounds, refusals, fin>>

\* finishing a system, when none of its tasks is left
Remove(t) == /\ relay[t] = "up" /\ ~fin[t] /\ \A a \in Askers : Thread(a) = t => pc[a] = "idle"
             /\ fin' = [fin EXCEPT ![t] = TRUE]
             /\ reg' = reg \ {t} /\ edge' = [edge EXCEPT ![t] = FALSE]
             /\ UNCHANGED <<asked, seen, helper, pc, relay, owner, slot, req, rep, started, ready, helpers, fetched,
                            cur, hpc, got, bad, rounds, refusals>>
Free(t) == /\ fin[t] /\ relay[t] = "up" /\ (Sync => cur # t)
           /\ relay' = [relay EXCEPT ![t] = "freed"]
           /\ UNCHANGED <<asked, seen, helper, pc, owner, slot, req, rep, edge, reg, started, ready, helpers, fetched,
                          cur, hpc, got, bad, rounds, refusals, fin>>
\* the thread starts over; an old event may meet the new relay
Over(t) == /\ fin[t] /\ relay[t] = "freed"
           /\ relay' = [relay EXCEPT ![t] = "none"] /\ fin' = [fin EXCEPT ![t] = FALSE]
           /\ UNCHANGED <<asked, seen, helper, pc, owner, slot, req, rep, edge, reg, started, ready, helpers, fetched,
                          cur, hpc, got, bad, rounds, refusals>>

INext == \/ \E a \in Askers : (\E q \in Queries : DoAsk(a, q)) \/ Get(a) \/ Made(a) \/ Give(a) \/ Lock(a) \/ Write(a)
                              \/ Read(a)
         \/ HelperUp \/ HelperFails \/ HFetch \/ HRead \/ HResolve \/ HReply
         \/ \E t \in Threads : HTake(t) \/ Remove(t) \/ Free(t) \/ Over(t)
Fair == /\ \A a \in Askers : WF_ivars(Get(a)) /\ WF_ivars(Made(a)) /\ WF_ivars(Give(a)) /\ SF_ivars(Lock(a))
                             /\ WF_ivars(Write(a)) /\ WF_ivars(Read(a))
        /\ WF_ivars(HelperUp) /\ WF_ivars(HFetch) /\ WF_ivars(HRead) /\ WF_ivars(HResolve) /\ WF_ivars(HReply)
        /\ \A t \in Threads : WF_ivars(HTake(t)) /\ WF_ivars(Free(t))
ISpec == IInit /\ [][INext]_ivars /\ Fair

Contained == ~bad
OneHelper == helpers <= 1
\* an answer is that to the query in the slot
InStep == \A a \in Askers : pc[a] = "read" => slot[Thread(a)] = asked[a]
Refines == DSpec
Ends == \A a \in Askers : asked[a] # 0 ~> asked[a] = 0
=============================================================================
