t("C01", "generated task programs, per-task trace oracle, virtual-clock stall detection",
  SIM + "Held on all generated programs of up to a dozen tasks in six build configurations; a lost "
  "wake-up or early loop exit is a deterministic failure. Bounded program size; not a proof.")
t("C02", "generated interleavings with pattern-filled frames and register-held values",
  SIM + "Frames, locals and callee-saved registers are compared after every resumption. Checks the "
  "x86-64 switch code only; bounded depth and task count.")
t("C03", "generated programs against an executable model of the weighted scheduler",
  SIM + "Every scheduling decision is predicted by the model. Default scheduling clock only; "
  "bounded program size.")
t("C04", "generated handle histories against a state and ownership model, tracked allocations",
  SIM + "States, priorities and the exact moment memory is released are compared with the model. "
  "Bounded history length.")
t("C05", "generated join graphs with spurious wake-ups and restarts against a termination model",
  SIM + "Early, late and missing join returns are deterministic failures on the virtual clock. "
  "Bounded number of tasks.")
t("C06", "generated sleeper sets on a virtual clock against exact deadlines",
  SIM + "Deadlines, order and remainders are exact because time is virtual. Bounded number of "
  "sleepers; kernel timer behaviour itself is emulated.")
t("C07", "generated task programs against an ownership model, virtual-clock deadlock detection",
  SIM + "Held on all generated programs of up to 7 tasks and 3 mutexes; lost wake-ups show as "
  "deterministic deadlocks. Bounded program size; not a proof.")
t("C08", "generated wait/signal/broadcast histories, successes matched to signals by bipartite matching",
  SIM + "Any legal choice of released waiter is accepted; lost, doubled or early returns are "
  "deterministic failures. Bounded to 8 tasks and 2 conditions.")
t("C09", "generated two-ended message programs against a queue model with capacity and boundaries",
  SIM + "Contents, boundaries, blocking and capacity are compared with the model for every call. "
  "Bounded message count; huge capacities only up to the allocation limit of the simulation.")
t("C10", "generated histories with destruction at any moment, junk-filled freed memory, model of the peer",
  SIM + "Reads and writes after a close, blocked peers and released memory are compared with the "
  "model. Bounded history length.")
t("C11", "generated selector programs with channels in every fill state against a readiness model",
  SIM + "Missed readiness shows as a stall on the virtual clock, false readiness as a model "
  "mismatch. Bounded to a few channels per selector.")
t("C12", "generated registration and readiness histories over pipes, sockets and event descriptors",
  SIM + "A task sleeping next to a ready descriptor while the loop is idle is a deterministic "
  "failure; results are compared with the kernel's own. Bounded number of descriptors.")
t("C13", "generated link programs with injected short transfers, would-blocks and errors against a stream model",
  SIM + "Every byte, count, errno and suspension is compared with the model. Local sockets, pipes "
  "and files only.")
t("C14", "generated wait-all streams plus twin differential runs for message metadata, injected short transfers",
  SIM + "Totals, contents and every metadata field are compared with a stream model or with the "
  "plain system call on a twin socket. Local sockets only.")
t("C15", "generated yielder scripts over every suspending call, yielder log against an abort model",
  SIM + "Number, kind and data of yielder calls and the result after an abort are checked for "
  "every call. Bounded script length.")
t("C16", "differential testing of descriptor-creating calls against raw system calls with fault injection",
  SIM + "Flags, kinds, modes, errno and descriptor balance are compared with the raw call in a twin "
  "directory or on a twin object. Only kinds available without privileges.")
t("C17", "generated connect and accept programs with injected errors against a connection model",
  SIM + "Pairing, peer names, errno and suspensions are compared with the model; pending TCP "
  "connects run over loopback. One open finding is listed.")
t("C18", "generated descriptor sets, events and timeouts, differential against the poll system call",
  SIM + "Results are compared with the system call at the same moment; waits are exact on the "
  "virtual clock. Bounded set size.")
t("C19", "generated two-way traffic with half-closes, resets and injected errors against a prefix/equality stream model",
  SIM + "Every delivered byte, the moment of return, stalls and left-over descriptors are compared "
  "with the model. Local sockets and pipes only; bounded traffic.")
t("C20", "generated chains and call sequences against a queue model of both byte streams, injected conditions",
  SIM + "Every byte, result, flush and wait is compared with the model, also with two tasks on one "
  "chain. Bounded chain depth and sizes.")
t("C21", "generated datagram programs over wrapped sockets against a queue model with senders",
  SIM + "Contents, boundaries, order and addresses are compared with the model. Loopback only; "
  "local names are path names.")
t("C22", "generated chains, traffic and half-closes against a prefix/equality stream model",
  SIM + "Bytes held in layers while the transport is writable, early returns and missing returns "
  "are deterministic failures. Bounded traffic.")
t("C23", "generated ownership histories of layers against a reference-count model, observed closes",
  SIM + "Every close call and finalizer run is compared with the model after each step; leaks are "
  "measured at the end. Bounded history length.")
t("C24", "generated allocation histories against a model of live blocks, with extreme sizes and injected exhaustion",
  SIM + "Every block is checked against the memory really obtained, contents after every step, and "
  "the kept and returned memory at the end. Also with a small reuse cache. Bounded history length.")
t("C25", "generated reference histories, and generated unsynchronised thread interleavings under a data-race detector",
  "Interleavings are forced with relaxed atomics, so a missing ordering is found whatever the "
  "machine does. Free-running rounds are a stress test only. Bounded threads and counts.")
t("C26", "generated operation histories against a queue model",
  SIM + "Segments, sizes, contents and disjointness are compared with the model after every step. "
  "Bounded history length and capacity.")
t("C33", "generated histories against a sorted-sequence model with overwritten removed elements",
  SIM + "Order in both directions, the first element, links and depth are compared after every "
  "step. If the containers are moved, only their use by sleeping tasks is checked.")
t("C31", "generated stack sizes and depths, overflow in a separate process with sentinels in shared memory",
  SIM + "Usable size, disjointness and release are checked exactly. Memory next to every stack and "
  "the other stacks are inspected after the overflowing process has died. Frames up to a page.")
t("C34", "generated faults in separate processes with generated handlers and overlapping systems, against the known address and task",
  SIM + "The program's handler, the way the process ends and the report are compared with the fault "
  "made. Faults of user code only; the report is judged by the task handle it names.")
t("C35", "generated chains over a model endpoint whose every answer is generated, against a byte-stream model",
  SIM + "Every request the endpoint sees and every result, error code and wait of the caller is "
  "compared with the model. Answers are those a correct endpoint may give; at most four layers.")
t("C32", "generated programs of nested and suspended private-stack calls against an execution model",
  SIM + "Results, run counts, preserved registers, locals, object bytes and the whole requested stack "
  "are checked. x86-64 only; bounded nesting.")
t("C27", "generated life cycles of the system with uses of every facility, overlapping systems on several threads",
  SIM + "Descriptors, tracked blocks and mappings, signal handlers and signal stack are compared after "
  "every cycle. The name-resolution helper thread is started before the first comparison.")
t("C28", "generated uses of every facility with the n-th resource acquisition made to fail",
  SIM + "Memory, mapping, descriptor, registration and thread acquisitions are failed one at a time, "
  "also on the helper thread; the use is repeated, neighbours are watched and resources compared.")
t("C29", "generated programs on several threads of a fresh process against solo runs, under a data-race detector",
  "Real threads, sockets and timers; only the name resolver is replaced. Results of every use are compared "
  "with those of the same program run with no other thread around. Races are found without being hit in "
  "time, but only on executed paths.")
t("C30", "generated questions to a scripted resolver held for generated virtual times, next to ticking tasks; "
  "free-running threads under a data-race detector",
  SIM + "The resolver itself is replaced, so only what the library does around it is judged.")
