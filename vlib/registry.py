from . import chan, cio, io, kern, obj, res, seq, stk, sysm

CHECKS = {
    "C01": (kern.c01, {
        "technique": "TLA+ refinement model checking plus TLC trace validation",
        "note": "TLC shows that the run queue algorithm refines the order-free life cycle contract for 3 tasks; "
                "recorded executions (spec-generated and random) with all task states read at every event "
                "are validated against the contract."}),
    "C02": (kern.c02, {
        "technique": "TLA+ refinement model checking plus TLC trace validation",
        "note": "Same contract as C01; stimuli concentrate on waits, wakeups, stray wakeups and timers, up to "
                "120 tasks."}),
    "C03": (kern.c03, {
        "technique": "TLA+ refinement model checking plus TLC trace validation",
        "note": "Exact dispatch rule in TLA+: order, spread bound and starvation freedom model checked; every "
                "recorded turn must be the one the rule prescribes, up to 200 tasks, with and without a "
                "charging clock."}),
    "C04": (kern.c04, {
        "technique": "TLA+ refinement model checking plus TLC trace validation",
        "note": "TLC proves the join loop refines the join contract (incl. liveness) for 4 tasks; recorded "
                "executions with joins, exits, restarts and stray wakeups are validated."}),
    "C05": (kern.c05, {
        "technique": "TLA+ refinement model checking plus TLC trace validation",
        "note": "Reference contract model checked; recorded executions log the release of all memory obtained "
                "for each task and are validated against the contract."}),
    "C06": (kern.c06, {
        "technique": "TLA+ refinement model checking plus TLC trace validation",
        "note": "TLC proves that the waiter-stack algorithm refines the mutex contract for "
                "3 tasks and 2 mutexes under every scheduling; recorded executions of "
                "spec-generated and random programs are validated against the contract."}),
    "C07": (kern.c07, {
        "technique": "TLA+ refinement model checking plus TLC trace validation",
        "note": "TLC proves that the linked-list algorithm (wait, timed wait, signal, broadcast) "
                "refines the condition variable contract for 3 tasks; recorded executions of "
                "spec-generated and random programs are validated against the contract."}),
    "C08": (kern.c08, {
        "technique": "TLA+ refinement model checking plus TLC trace validation",
        "note": "Same specification as C07 with a clock: time-outs are checked against a virtual "
                "clock that the harness controls, including races of time-out and signal."}),
    "C09": (chan.c09, {
        "technique": "TLA+ refinement model checking plus TLC trace validation",
        "note": "TLC proves that the ring algorithm (both directions, any task at any idle end, tasks ending, "
                "0-2 buffers) refines a bounded-queue contract; recorded executions with tagged payloads "
                "are validated against the contract."}),
    "C10": (chan.c10, {
        "technique": "TLA+ refinement model checking plus TLC trace validation",
        "note": "Same contract: blocked calls must be those that cannot complete, closing releases both sides, "
                "ended tasks are never woken; memory is unreadable after release in part of the runs."}),
    "C11": (chan.c11, {
        "technique": "TLA+ refinement model checking plus TLC trace validation",
        "note": "TLC proves that the ready lists of a select set equal the ready ends and that a selecting task "
                "is woken; recorded executions with time-outs under a virtual clock are validated."}),
    "C12": (kern.c12, {
        "technique": "TLA+ refinement model checking plus TLC trace validation",
        "note": "TLC checks the timer algorithm (deadline tree, single clock, owner pointer, early wakeups, time "
                "passing at any moment) for 4 sleepers; recorded executions under a virtual clock are "
                "validated, durations over the whole 32-bit range, up to 200 sleepers."}),
    "C13": (io.c13, {
        "technique": "TLA+ refinement model checking plus TLC trace validation",
        "note": "TLC checks that polling an edge-triggered readiness list in small batches with interruptions wakes "
                "exactly the tasks the registration contract demands; recorded executions on socket pairs and "
                "pipes, up to 1,200 descriptors ready at once, are validated against the contract."}),
    "C14": (io.c14, {
        "technique": "TLA+ refinement model checking plus TLC trace validation",
        "note": "TLC checks the retry loops over a stream with limited space and edge-triggered readiness against "
                "the call contract; recorded calls of every kind on sockets and pipes, with callbacks, stray "
                "wakeups, ends and errors, are validated with the kernel's own readiness recorded."}),
    "C15": (io.c15, {
        "technique": "TLA+ refinement model checking plus TLC trace validation",
        "note": "Same specification: whole-amount transfers move exactly the bytes asked for; contents are "
                "position coded, small buffers force fragmentation, vectors have empty segments."}),
    "C16": (io.c16, {
        "technique": "TLA+ refinement model checking plus TLC trace validation",
        "note": "TLC checks register-and-look-again over edge-triggered readiness against the contract of poll; "
                "recorded calls are compared with the system's own answer recorded at the same moment, under a "
                "controlled clock."}),
    "C17": (io.c17, {
        "technique": "TLA+ model checking plus TLC trace validation",
        "note": "TLC checks the forwarding loop over edge-triggered readiness against the contract for all "
                "arrivals, drains, ends and failures; recorded executions of both library variants are "
                "validated with the bytes taken and delivered counted from outside."}),
    "C18": (seq.c18, {
        "technique": "TLA+ model checking plus TLC trace validation",
        "note": "TLC checks offers and commits for every capacity up to 9; every transition of the model for "
                "small capacities and random histories for large ones are executed, and the offered pieces, "
                "located in the buffer's memory block, validated."}),
    "C22": (seq.c22, {
        "technique": "TLA+ model checking plus TLC trace validation",
        "note": "TLC checks the slice allocator with its lists, use order and limit; every transition of the model "
                "and random histories (sizes around classes and numeric limits, failing system allocator) are "
                "executed over a checking system allocator and validated, for three library variants."}),
    "C19": (cio.c19, {
        "technique": "TLA+ model checking plus TLC trace validation",
        "note": "TLC checks the two-ring stage against the contract for all answers of the stage below; recorded "
                "calls on stacks of stages over a scripted one, with every call made below and every wait, are "
                "validated; contents are position coded."}),
    "C20": (cio.c20, {
        "technique": "TLA+ model checking plus TLC trace validation",
        "note": "TLC checks that counting references keeps exactly the reachable objects of all heaps of 4 stages; "
                "recorded programs over all provided stages with every release, close and byte seen from outside "
                "are validated."}),
    "C21": (cio.c21, {
        "technique": "TLA+ model checking plus TLC trace validation",
        "note": "TLC checks the forwarding loop with stage buffers, back-pressure and refused flushes; tours of the "
                "model and random histories over stacks of stages on scripted lower ends are executed and every "
                "state of rest and the return validated."}),
    "C25": (obj.c25, {
        "technique": "TLA+ model checking plus TLC trace validation",
        "note": "TLC checks counting under the C memory model (vector clocks) for 3 threads; recorded executions of "
                "the instrumented library under a controlled scheduler, with every access to a count and its memory "
                "order, are validated; single-threaded programs against the reference contract."}),
    "C26": (stk.c26, {
        "technique": "TLA+ model checking plus TLC trace validation",
        "note": "TLC checks stacks as areas of memory with saved pointers and guards for 2 tasks and nested calls; "
                "recorded nests of plain and separate-stack calls in several tasks, with the memory each may use, "
                "preserved registers, locals and faults of overruns, are validated for three library variants."}),
    "C23": (sysm.c23, {
        "technique": "TLA+ model checking plus TLC trace validation",
        "note": "TLC checks the hand-over of lookups, the one-time start of the helper and the removal of a system "
                "from it for 2 threads; lookups of up to 4 threads with a stand-in resolver run under a controlled "
                "scheduler that can switch at every memory access and descriptor call of the library and are "
                "validated."}),
    "C24": (sysm.c24, {
        "technique": "TLA+ model checking plus TLC trace validation",
        "note": "TLC checks how systems acquire and give back their parts, with refusals and process-wide fault "
                "handlers, for 3 threads; histories of up to 4 threads run under a controlled scheduler that can "
                "switch at every memory access of the library and are validated, and programs of several threads "
                "are validated against the contracts of the other properties."}),
    "C27": (res.c27, {
        "technique": "TLA+ model checking plus TLC trace validation",
        "note": "TLC checks acquisition and unwinding of the creating calls with every request refusable; recorded "
                "calls of every kind with each of their requests refused, between uses of other things, are "
                "validated against the contract with all blocks, pages and descriptors counted, for four library "
                "variants."}),
}

NOT_APPLICABLE = {}
