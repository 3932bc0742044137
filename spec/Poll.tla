-------------------------------- MODULE Poll --------------------------------
(***************************************************************************)
(* Contract of polling from a task.  An entry is <<descriptor, asked>>;    *)
(* ready[f] is the set of conditions that hold at f, with "nval" for a     *)
(* descriptor that is not open.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Always == {"err", "hup", "nval"}       \* reported without being asked for
Answer(e, ready) == ready[e[1]] \cap (e[2] \cup Always)
Some(ents, ready) == \E i \in DOMAIN ents : Answer(ents[i], ready) # {}
Count(rev) == Cardinality({i \in DOMAIN rev : rev[i] # {}})

\* the result r with conditions rev is the system call's at this moment
Right(ents, ready, r, rev) ==
    /\ DOMAIN rev = DOMAIN ents
    /\ \A i \in DOMAIN ents : rev[i] = Answer(ents[i], ready)
    /\ r = Count(rev)
\* over: the time is up (or there was none)
ReturnOK(ents, ready, r, rev, over) == Right(ents, ready, r, rev) /\ (r = 0 => over)
\* nothing can happen by itself, so this call may still be waiting
WaitOK(ents, ready, over) == ~Some(ents, ready) /\ ~over
=============================================================================
