import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Every started task runs exactly once and the run loop ends only then",
"Every task that is started executes its entry function exactly once, with the data pointer it was started with and itself as the current task, and continues exactly where it left off after every yield, wait, sleep or wake-up. The run loop returns exactly when no started task is left, whether tasks return, exit early, start further tasks or are woken spuriously, and can then be used again. A wake-up of a waiting task is never lost and a wake-up of a runnable task changes nothing.",
["programs","schedules","histories","configurations"],
"All finite programs of tasks that start tasks, yield, wait, sleep, wake each other, change priority and exit at arbitrary points, run once or several times in one system, in every stack/allocator build configuration.",
"The tests run a handful of fixed two- or three-task programs with one interleaving each; spurious wake-ups, early exits inside deep interleavings and repeated runs are never combined.",
["src/kern/core/hev-task-system-schedule.c","src/kern/task/hev-task.c","src/kern/task/hev-task-executer.c","src/kern/core/hev-task-system.c"],
[("run tree plus running/total counters","src/kern/core/hev-task-system-schedule.c"),("context save/restore around the scheduler","src/kern/core/hev-task-system-schedule.c"),("entry trampoline","src/kern/task/hev-task-executer.c")],
["entry/exit log written by generated tasks","return of the run loop","deadlock detector on the reactor wait"])
p("C02","A task's stack, locals and callee-saved state survive every switch",
"Whatever other tasks do between a task's suspension and its resumption, the task resumes with unchanged stack contents, local variables, and callee-saved registers (integer and floating-point values alike), at any call depth. Stacks of live tasks never overlap each other or any other live allocation.",
["programs","schedules","configurations"],
"All interleavings of tasks with generated call depth, frame sizes, stack sizes, suspension points (yield, wait, sleep, blocking channel/lock/IO) and both stack backends.",
"Tests keep at most a couple of locals across a switch and never compare them under interleavings; stack recycling after task exit is not exercised with live neighbours.",
["src/kern/task/hev-task-execute.S","src/kern/task/hev-task-stack-mmap.c","src/kern/task/hev-task-stack-heap.c","src/kern/core/hev-task-system-schedule.c"],
[("stack pointer switch","src/kern/task/hev-task-execute.S"),("jump-buffer save and restore","src/kern/core/hev-task-system-schedule.c"),("per-task stack mapping","src/kern/task/hev-task-stack-mmap.c")],
["checksums of stack frames and register canaries after each resumption"])
p("C03","Runnable tasks are picked in weighted fair order by priority",
"Each time a task yields it is charged its current priority value, and the runnable task with the lowest accumulated charge runs next, ties going to the one that became runnable at that charge first. A task that is started by, or woken while, others are runnable begins at the lowest charge among the runnable tasks (counting the running one) plus its own priority (as set when it last became unrunnable), so it neither starves nor is starved; a task that wakes when nothing is runnable begins at its own priority. Priorities are clamped to 0..15 and a new priority takes effect the next time the task is queued.",
["programs","schedules"],
"All programs of tasks with generated priorities that yield, wait, wake each other, start tasks, change priorities and stop, with the default (count-based) scheduling clock.",
"The only priority test starts two tasks once and checks which starts first; charges, ties, wake-up placement and priority changes over time are untested.",
["src/kern/core/hev-task-system-schedule.c","src/kern/task/hev-task.c","src/lib/rbtree/hev-rbtree.c","src/lib/rbtree/hev-rbtree-cached.c"],
[("charge update on switch","src/kern/core/hev-task-system-schedule.c"),("placement of new and woken tasks","src/kern/core/hev-task-system-schedule.c"),("ordered run tree","src/lib/rbtree/hev-rbtree-cached.c")],
["order in which generated tasks resume, compared with a reference scheduler"])
p("C04","Task handles: state reports are truthful and memory lives until the last unref",
"At every moment a task handle reports the true state (stopped before start and after termination, running while runnable, waiting while blocked), its last set priority clamped to 0..15 and the data it was started with; starting a task that is already started changes nothing. The task's memory and stack stay valid while any reference is held, and are released exactly once, as soon as the last reference goes and never before the task has left its stack. No task memory remains after every reference is gone.",
["programs","histories"],
"All histories of create, reference, unreference, start, restart of a stopped task, query and terminate over several tasks, with references dropped before, during and after the task runs.",
"Tests check one state sequence for one task and hold at most one extra reference; release timing and leaks are not checked.",
["src/kern/task/hev-task.c","src/kern/core/hev-task-system-schedule.c","src/kern/core/hev-task-system.c"],
[("reference count","src/kern/task/hev-task.c"),("deferred release outside the task's own stack","src/kern/core/hev-task-system-schedule.c")],
["state/priority/data getters against a model","allocation and mapping tracker"])
p("C05","Join returns exactly when the target has terminated",
"A task that joins another resumes once and only once the other has terminated, however it terminated (returning or exiting early), and immediately if it already had; wake-ups in between neither end the join early nor lose its end. While one task is joined by another, further joins of it fail at once. After a join has returned, the target may be released, started again and joined again, and the former joiner is not disturbed by it.",
["programs","schedules"],
"All join graphs (acyclic) over tasks that terminate in either way at generated points with sleeps, spurious wake-ups and restarts of the joined task.",
"One test joins one sleeping task that returns normally; early exit, late join, second joiner, restart and spurious wake-ups are not covered.",
["src/kern/task/hev-task.c","src/kern/task/hev-task-executer.c","src/kern/core/hev-task-system-schedule.c"],
[("joiner slot and wake-up at termination","src/kern/task/hev-task-executer.c"),("state re-check loop","src/kern/task/hev-task.c")],
["join return value and time against termination log","deadlock detector"])
p("C06","Sleeping tasks wake at their deadline, in order, with truthful remainders",
"A sleep that reports zero remaining time never returns before the requested duration has passed (to within the unit of the report), for every representable duration, and when nothing else is runnable it returns at that very moment, not later. A sleep interrupted by a wake-up or I/O returns at once with the time left rounded down to its unit, and other sleepers are unaffected. Any number of concurrent sleepers wake in deadline order.",
["programs","inputs","schedules"],
"All sets of concurrent sleepers with millisecond and microsecond durations over the whole argument range, at every clock phase including second boundaries, with interruptions at generated moments.",
"Tests sleep for under 0.2 s on the real clock with two or three sleepers; long durations, clock phases and interrupted sleeps among many sleepers cannot be reached in real time.",
["src/kern/task/hev-task.c","src/kern/time/hev-task-timer.c","src/kern/time/hev-task-timer-timerfd.c"],
[("one kernel timer armed for the earliest deadline","src/kern/time/hev-task-timer.c"),("deadline-ordered tree","src/kern/time/hev-task-timer.c"),("deadline and remainder arithmetic","src/kern/time/hev-task-timer.c")],
["virtual clock at sleep entry and return"])
p("C07","Mutexes exclude and never strand a waiter",
"At most one task holds a mutex at any time; trying to lock a held mutex fails without blocking and succeeds on a free one, and locking and unlocking never report an error. Whenever a mutex is released while tasks wait for it, one of the waiting or newly arriving tasks gets it, so no task waits forever once holders keep releasing, whatever spurious wake-ups and timers hit the waiters.",
["programs","schedules"],
"All programs of tasks locking, trying, unlocking and suspending inside several mutexes (ordered acquisition), with spurious wake-ups and generated priorities.",
"One test has two tasks and one contended lock; more than one waiter, barging and spurious wake-ups of queued waiters do not occur.",
["src/kern/sync/hev-task-mutex.c"],
[("holder flag and waiter stack re-checked after each wake-up","src/kern/sync/hev-task-mutex.c")],
["ownership model in generated tasks","deadlock detector"])
p("C08","Condition variables wake exactly the signalled waiters, with the mutex held",
"A wait returns success only after a signal or broadcast issued since it began; a signal releases exactly one of the tasks then waiting, a broadcast all of them, and neither releases tasks that start waiting later. A timed wait fails only if its time has passed (to within a millisecond per wake-up) without a signal reaching it, and leaves every other waiter waiting. Every return happens with the mutex held by the returner, and no released waiter is lost.",
["programs","schedules","histories"],
"All histories of wait, timed wait with generated timeouts, signal and broadcast by several tasks with spurious wake-ups, contended mutexes and simultaneous timeouts.",
"The test runs one signal and one broadcast with one pair of timeouts that never coexist with other waiters.",
["src/kern/sync/hev-task-cond.c","src/kern/sync/hev-task-mutex.c"],
[("linked waiter nodes cleared by the signaller","src/kern/sync/hev-task-cond.c"),("unlink on timeout","src/kern/sync/hev-task-cond.c")],
["set of released waiters against a model","deadlock detector"])
p("C09","Channels deliver each message once, in order and with its boundaries",
"In each direction a channel delivers every successfully written message exactly once, in order and with its boundaries: a read returns the first unread message, cut only by the reader's count or, on a buffered channel, by the configured message size. On an unbuffered channel a write returns only after its message was read; on a channel with N buffers, writes return without waiting while fewer than N messages are unread and otherwise wait for reads. A reader or writer whose condition becomes true always resumes.",
["programs","schedules","inputs"],
"All pairs of read/write programs over both directions with generated message sizes (0 upwards), read sizes, buffer sizes and capacities, delays and spurious wake-ups, one task per channel end.",
"Tests send two int-sized messages per direction through matching buffers; truncation, wrap-around of the ring, full/empty boundaries and mixed sizes are not covered.",
["src/kern/itc/hev-task-channel.c"],
[("message ring with use count","src/kern/itc/hev-task-channel.c"),("wake-ups on empty/full transitions","src/kern/itc/hev-task-channel.c")],
["message log against a bounded-queue model","deadlock detector"])
p("C10","Closing a channel end releases the peer without losing delivered messages",
"When one end of a channel is destroyed, the other end can still read every message buffered for it and afterwards reads fail at once, and its writes fail at once, including writes and reads that were already blocked. Destroying an end is safe at any moment with respect to a peer blocked on the other end, also when tasks that used an end earlier have since terminated. Both ends' memory is released once both are destroyed.",
["programs","schedules","histories"],
"All moments of destruction of either end relative to generated read/write programs on both ends, and handing an end over between successive tasks.",
"Tests destroy ends only at the end of each task in one order; destruction with buffered messages, with a blocked peer and after earlier users terminated is not covered.",
["src/kern/itc/hev-task-channel.c","src/kern/itc/hev-task-channel-select.c"],
[("peer unlink and wake-up","src/kern/itc/hev-task-channel.c"),("peer reference held across a blocked write","src/kern/itc/hev-task-channel.c")],
["results against the model","memory-error and leak checking"])
p("C11","A channel selector returns a ready channel whenever there is one",
"Selecting for read returns a channel of the selector that has an unread message, and selecting for write on buffered channels returns one with spare capacity, whenever one exists, waiting otherwise; readiness that arises before, during or between calls is never missed. With a timeout it returns nothing only if no channel was ready for that long (to within a millisecond per wake-up), and at once for zero. Channels removed from the selector are never returned.",
["programs","schedules","histories"],
"All histories of adding, removing, selecting and direct reads/writes over several channels of generated capacities with peers acting at generated moments and generated timeouts.",
"The selector test only reads from unbuffered channels and its write selection times out immediately; buffered write readiness is never exercised.",
["src/kern/itc/hev-task-channel-select.c","src/kern/itc/hev-task-channel.c"],
[("ready lists maintained by reads and writes","src/kern/itc/hev-task-channel.c"),("wait loop with timeout","src/kern/itc/hev-task-channel-select.c")],
["selected channel against modelled readiness","deadlock detector"])
p("C12","Registered descriptors wake their task on every readiness change",
"After a task registers a descriptor for input and/or output, it is woken whenever the descriptor becomes ready for one of these events, including readiness already present at registration and readiness that arises while it is running, so a task that retries until the call would block and then waits never waits while it is ready. Re-registering replaces the events, removal stops wake-ups, and each call reports success or failure as the kernel would. This holds for any number of simultaneously ready descriptors.",
["programs","schedules","histories"],
"All histories of add/modify/remove over many pipes, sockets and event descriptors of several tasks with peers making them ready at generated moments.",
"One test registers one descriptor and receives one event; many descriptors, modification races and already-ready descriptors are not covered.",
["src/kern/io/hev-task-io-reactor-epoll.c","src/kern/io/hev-task-io-reactor-epoll.h","src/kern/task/hev-task.c","src/kern/core/hev-task-system-schedule.c"],
[("edge-triggered registration","src/kern/io/hev-task-io-reactor-epoll.h"),("poll before every pick","src/kern/core/hev-task-system-schedule.c")],
["progress of retry loops under the deadlock detector","spurious-wake counter after removal"])
p("C13","Task I/O calls behave like blocking system calls that suspend only the task",
"Reading, writing, vectored, receive and send calls return what the corresponding system call on a blocking descriptor could return, with the same data, count, end-of-file and errno, and move exactly the returned bytes. They suspend the calling task only while the descriptor is not ready, and the task resumes as soon as it is; other tasks keep running meanwhile.",
["programs","inputs","schedules","fault_sequences"],
"All programs of transfers over pipes, stream and datagram sockets and files with generated sizes, vectors, peer pacing, short transfers, errors and closes.",
"Tests transfer a few dozen bytes in one piece each; short transfers, would-block at arbitrary points, errors and closes are not reached.",
["src/lib/io/basic/hev-task-io.c","src/lib/io/socket/hev-task-io-socket.c"],
[("retry loop on would-block","src/lib/io/basic/hev-task-io.c")],
["byte streams and results against a stream model","kernel call log","deadlock detector"])
p("C14","Wait-all transfers move every byte and messages keep their metadata",
"With wait-all requested, receive and send calls (plain, with address, and message-vector forms) return only when the full length was transferred, the stream ended or an error occurred, and then report the exact number of bytes transferred, placed in order across all vector elements including empty ones. The caller's vectors are never modified. Message receives report source address length, ancillary data length and message flags exactly as the system call does.",
["inputs","programs","schedules","fault_sequences"],
"All vector shapes and total lengths with peers that send or drain in generated pieces, end-of-stream or errors at generated offsets, datagrams with truncation, addresses and ancillary data.",
"One test sends six bytes in one piece per call; no partial transfer, no multi-element vector and no message metadata is checked.",
["src/lib/io/socket/hev-task-io-socket.c"],
[("resume inside the vector after partial transfers","src/lib/io/socket/hev-task-io-socket.c")],
["buffers, counts, message header fields against a stream model and against the system call"])
p("C15","A custom yielder is consulted exactly when an operation must wait",
"If a caller supplies its own yield function, every blocking operation calls it, with the supplied pointer and the appropriate yield kind, each time and only when the operation cannot proceed, and never suspends the task behind its back. A non-zero return aborts the operation with the dedicated result at once; a zero return lets it continue to the result it would otherwise have had.",
["programs","inputs","schedules"],
"All blocking I/O, socket, splice and chained-I/O operations, with yield functions that abort at generated call numbers or suspend in generated ways, over descriptors ready or not at generated moments.",
"All tests pass a null yield function.",
["src/lib/io/basic/hev-task-io.c","src/lib/io/socket/hev-task-io-socket.c","src/lib/cio/base/hev-task-cio.c"],
[("yielder call in each retry loop","src/lib/io/basic/hev-task-io.c")],
["call log of the supplied yield function against would-block events"])
p("C16","Descriptor-creating calls give non-blocking descriptors or fail cleanly",
"Every descriptor returned by the open, create, duplicate, pipe, socket, socket-pair and accept helpers is non-blocking, and is otherwise what the corresponding system call with the same arguments (flags, creation mode, type flags) would have returned. On failure the helper reports failure with no descriptor left open.",
["inputs","fault_sequences"],
"All generated argument combinations, including flags already requesting non-blocking or close-on-exec and creation modes, and failures of each underlying call.",
"Tests call each helper once with one argument set and never make an underlying call fail.",
["src/lib/io/basic/hev-task-io.c","src/lib/io/socket/hev-task-io-socket.c","src/lib/io/pipe/hev-task-io-pipe.c"],
[("non-blocking setup after creation","src/lib/io/basic/hev-task-io.c"),("error unwinding","src/lib/io/socket/hev-task-io-socket.c")],
["descriptor flags, file mode, open-descriptor table before and after","injected system call failures"])
p("C17","Connect and accept report the final outcome of the connection",
"A connect returns zero exactly when the connection is established and otherwise fails with the error a blocking connect would report, suspending only the calling task meanwhile. An accept returns each pending connection exactly once with the peer's address filled in as the system call would, waiting while there is none.",
["programs","schedules","inputs","fault_sequences"],
"All generated mixes of listening and refusing endpoints, local and loopback families, address lengths, backlog sizes, delayed completions and connection orders.",
"One test makes one immediate loopback connection; in-progress completion, refusal, several clients and address results are not checked.",
["src/lib/io/socket/hev-task-io-socket.c"],
[("in-progress wait and re-check","src/lib/io/socket/hev-task-io-socket.c")],
["results against the connection table","peer names on both sides"])
p("C18","Task poll agrees with the poll system call",
"For distinct pollable descriptors, the task-level poll returns the same count and the same returned-event sets as the poll system call would at that moment, as soon as it would be non-zero, and zero only after the timeout has passed (to within a millisecond per wake-up) with nothing ready; a negative timeout waits indefinitely and zero never waits. Negative descriptors are skipped and invalid or always-ready ones are reported without waiting, as the system call does.",
["programs","inputs","schedules"],
"All descriptor sets (pipes, sockets, event descriptors, files, negative and closed numbers) with generated event masks and timeouts, and peers that make them ready, hung up or erroneous at generated moments.",
"One test polls one pipe end twice; timeouts, several descriptors, hang-up and non-pollable descriptors are not covered.",
["src/lib/io/poll/hev-task-io-poll.c"],
[("registration followed by wait and kernel poll","src/lib/io/poll/hev-task-io-poll.c")],
["result compared with the system call at return","virtual clock"])
p("C19","Splicing forwards both directions byte-exactly until they end",
"While splicing two endpoints, the bytes delivered to each endpoint are always a prefix of the bytes the other one supplied, in order and uncorrupted, and everything a direction supplied before its end of stream is delivered before that direction counts as finished. With separate input and output descriptors it returns when both directions have ended or failed, with a shared descriptor per endpoint when either has; it never stalls while data can move and leaves no descriptor or memory behind.",
["programs","inputs","schedules","configurations","fault_sequences"],
"All generated traffic patterns, buffer sizes, pipe/socket kinds, peer pacing, half-closes and errors, in both the kernel-assisted and the copying build configuration.",
"One test moves 64 bytes one way through one buffer size.",
["src/lib/io/basic/hev-task-io.c","src/lib/io/buffer/hev-circular-buffer.c"],
[("in-flight byte count per direction","src/lib/io/basic/hev-task-io.c"),("three-valued progress result","src/lib/io/basic/hev-task-io.c")],
["both byte streams against a prefix/equality model","descriptor and memory balance","deadlock detector"])
p("C20","A chain of I/O layers carries exactly the byte stream of its transport",
"Through any chain of buffering layers over a descriptor or socket endpoint, the bytes read equal the bytes the peer sent and the bytes that reached the peer after a flush equal the bytes written, in order and without gaps or duplicates, for plain, vectored and exact calls mixed with peeks, whatever the buffer sizes. Exact calls return short only at end of stream or error; peeking consumes nothing; a flush returns success only when every written byte was handed to the transport, and none of these operations stalls while the transport can proceed.",
["programs","inputs","schedules","configurations"],
"All chains (including stacked buffers and absent read or write buffers), operation sequences, sizes and vector shapes with empty elements, with peers that feed and drain in generated pieces.",
"The chain tests move 64 bytes through 2048-byte buffers that never fill, wrap or see a partial flush.",
["src/lib/cio/base/hev-task-cio.c","src/lib/cio/buffer/hev-task-cio-buffer.c","src/lib/cio/fd/hev-task-cio-fd.c","src/lib/cio/socket/hev-task-cio-socket.c","src/lib/cio/null/hev-task-cio-null.c"],
[("per-layer read and write rings","src/lib/cio/buffer/hev-task-cio-buffer.c"),("exact loops","src/lib/cio/base/hev-task-cio.c")],
["byte streams at both ends against a queue model","deadlock detector"])
p("C21","Chained datagram I/O preserves message boundaries and addresses",
"A datagram written through a chain over a socket endpoint arrives as one datagram with the same contents, to the given address or to the connected peer if none is given, and a datagram read returns the contents (cut to the space offered) and the sender's address of exactly one received datagram, in arrival order. Buffering layers in the chain pass datagrams through unchanged, and layers without datagram support fail.",
["inputs","programs"],
"All generated datagram sizes, vector shapes, families (local, IPv4, IPv6), connected and unconnected sockets and chain shapes.",
"Tests pass one 64-byte datagram each way between connected sockets without addresses.",
["src/lib/cio/socket/hev-task-cio-socket.c","src/lib/cio/base/hev-task-cio.c"],
[("address length per family","src/lib/cio/socket/hev-task-cio-socket.c")],
["contents, length and address of each datagram at the other socket"])
p("C22","Splicing two I/O chains delivers everything received before the end",
"While splicing two chains, the bytes that reach each transport are a prefix of those received from the other, and all data received before a direction's end of stream reaches the other transport before the splice ends because of it, whatever buffering layers are involved. Data never remains stuck in a layer while its transport can accept it; the splice ends when the yield function asks or when either direction ends, except that two bare transports with separate descriptors go on until both have.",
["programs","inputs","schedules","configurations"],
"All generated chain shapes and buffer sizes on both sides, traffic patterns, slow readers, half-closes and errors.",
"One test moves three 64-byte messages through empty 2048-byte buffers with a fast reader.",
["src/lib/cio/base/hev-task-cio.c","src/lib/cio/buffer/hev-task-cio-buffer.c"],
[("read, write and flush step per direction","src/lib/cio/base/hev-task-cio.c")],
["both byte streams against a prefix/equality model","deadlock detector"])
p("C23","An I/O chain owns its layers and closes its descriptors exactly once",
"Destroying the top of a chain releases every layer it holds the last reference to and closes each of their descriptors exactly once; a layer the caller also holds a reference to stays usable until that reference is dropped. Popping a layer releases only that layer and returns the next one intact. Asking a chain for its descriptor or to flush answers for the transport at its bottom.",
["programs","histories"],
"All sequences of pushing, popping, referencing and releasing over generated chains of every layer kind, including endpoints with one or two or no descriptors.",
"Tests destroy a two-layer chain once and do not look at descriptors or memory.",
["src/lib/cio/base/hev-task-cio.h","src/lib/cio/base/hev-task-cio.c","src/lib/object/hev-object.c"],
[("chain destructor","src/lib/cio/base/hev-task-cio.h"),("object reference count","src/lib/object/hev-object.c")],
["close call log","allocation tracker","memory-error checking"])
p("C24","The allocator hands out disjoint, intact, correctly sized blocks",
"Every block handed out is 16-byte aligned, at least as large as requested, disjoint from every other live block, and keeps its contents until freed or resized; zeroing requests return all-zero memory and resizing preserves the common prefix. A request that cannot be satisfied, including one whose total size overflows, yields no memory rather than a short block, and frees may happen in any order. Memory kept for reuse is bounded, and all of it is returned to the system when the task system ends.",
["histories","inputs","configurations"],
"All histories of allocate, zero-allocate, array-allocate, resize and free with generated sizes around every size-class boundary and extreme sizes, long enough to overflow the reuse cache, in both allocator configurations.",
"One test makes four allocations; reuse, eviction, boundaries and overflow are not covered.",
["src/mem/slice/hev-memory-allocator-slice.c","src/mem/base/hev-memory-allocator.c","src/mem/simple/hev-memory-allocator-simple.c","src/mem/api/hev-memory-allocator-api.c"],
[("size-class free lists with eviction","src/mem/slice/hev-memory-allocator-slice.c")],
["block contents and addresses against a model","system allocator call log"])
p("C25","Reference-counted objects are finalized exactly once, after the last reference",
"An object's finalizer runs exactly once, when and only when the last reference is dropped, for any sequence of taking and dropping references. For the thread-safe kind this holds under concurrent use from any number of threads, and everything a thread did to the object before dropping its reference is visible to the finalizer.",
["histories","schedules"],
"All reference histories, including concurrent ones over several threads with generated operation counts.",
"The tests take and drop one reference on one thread.",
["src/lib/object/hev-object.c","src/lib/object/hev-object-atomic.c","src/lib/object/hev-object.h","src/lib/object/hev-object-atomic.h"],
[("reference counters","src/lib/object/hev-object-atomic.c")],
["finalizer call count","data-race detector"])
p("C26","The circular buffer is a byte queue of fixed capacity",
"The circular buffer behaves as a first-in first-out byte queue of its configured capacity: the readable segments are always exactly the bytes committed and not yet consumed, in order, the writable segments are always exactly the remaining space, disjoint from the readable ones, and both lie within its memory; segments already offered for writing stay good while bytes are consumed, and those offered for reading while bytes are committed. Sizes reported agree with this at every moment, and its memory is released with the last reference.",
["histories","inputs"],
"All sequences of partial writes, partial reads and reference operations on buffers of generated capacity.",
"No test exercises the buffer directly; through splicing it only sees short, non-wrapping traffic.",
["src/lib/io/buffer/hev-circular-buffer.c"],
[("read position and used size with modular segments","src/lib/io/buffer/hev-circular-buffer.c")],
["segments and sizes against a queue model","memory-error checking"])
p("C27","Setting up and tearing down the system is balanced and repeatable",
"After a system has been initialised, used for any sequence of finished work and finalised, all descriptors, memory, mappings, signal handlers and signal stacks are as before, and it can be initialised again, any number of times. A second initialisation on the same thread fails and leaves the running system intact.",
["programs","histories","configurations"],
"All sequences of initialise, use (every kind of facility) and finalise, including redundant initialisation and tasks that were created but never started.",
"Every test initialises and finalises once and never looks at what is left.",
["src/kern/core/hev-task-system.c","src/lib/misc/hev-task-stack-detector.c","src/kern/io/hev-task-io-reactor-epoll.c","src/kern/time/hev-task-timer-timerfd.c"],
[("construction and destruction in reverse order","src/kern/core/hev-task-system.c")],
["descriptor table, allocation and mapping trackers, signal dispositions"])
p("C28","Running out of memory or descriptors fails the call and nothing else",
"If any single memory, mapping or descriptor acquisition made by a creating call fails, the call reports failure (or, where documented as optional, works without the resource), leaks nothing, and the system and all other objects keep working. Repeating the call when resources are available succeeds.",
["fault_sequences","programs"],
"Every failure position of every resource acquisition in system, task, channel, selector, buffer, chained-I/O, descriptor-creating, splice, name-resolution and private-stack calls, at generated points of generated programs.",
"No test makes any acquisition fail.",
["src/kern/core/hev-task-system.c","src/kern/task/hev-task.c","src/kern/itc/hev-task-channel.c","src/lib/cio/base/hev-task-cio.c","src/lib/io/basic/hev-task-io.c","src/lib/dns/hev-task-dns.c"],
[("error unwinding paths","src/kern/core/hev-task-system.c")],
["results, resource trackers and a follow-up workload under injected failures"])
p("C29","Task systems on different threads do not affect each other",
"Each thread can run its own task system, and every system behaves exactly as if it were alone: the results of a program do not depend on programs on other threads starting, running or finishing at the same time, including first use of shared facilities. No data is shared between them without synchronisation.",
["schedules","programs"],
"All sets of generated programs on several threads using every facility, with generated start offsets, under a data-race detector.",
"One test starts a fixed number of threads running a trivial task; interference and races are not looked for.",
["src/kern/core/hev-task-system.c","src/mem/api/hev-memory-allocator-api.c","src/lib/cio/base/hev-task-cio.c","src/lib/object/hev-object.c","src/kern/aide/hev-task-aide.c"],
[("thread-local context","src/kern/core/hev-task-system.c"),("lazy class and helper-thread initialisation","src/lib/cio/base/hev-task-cio.c")],
["per-thread result logs against solo runs","data-race detector"])
p("C30","Name resolution gives the resolver's answers without blocking other tasks",
"Resolving names from tasks gives each caller exactly the result, error code and output the system resolver gives for its own arguments, however many tasks on however many threads resolve at once. While a resolution is in progress the other tasks of the thread keep running, the caller resumes when it is done, and ending the system afterwards is always safe.",
["programs","schedules","inputs"],
"All generated mixes of forward and reverse queries by several tasks and threads with resolver answers, errors and delays chosen by the generator, interleaved with other work and system teardown.",
"The test resolves one external name and is not runnable without a network.",
["src/lib/dns/hev-task-dns.c","src/lib/dns/hev-task-dns-proxy.c","src/kern/aide/hev-task-aide.c"],
[("helper thread with request hand-over over a socket pair","src/lib/dns/hev-task-dns-proxy.c"),("turn-taking between callers","src/lib/dns/hev-task-dns-proxy.c")],
["answers against a stand-in resolver","progress counter of other tasks","memory-error checking"])
p("C31","A task can use its whole stack and overflow never corrupts silently",
"A task created with a given stack size can use that much stack, less a small fixed overhead, and a request for the default size gives at least 60 KiB. Running over the end of the stack terminates the process before any memory of another task or allocation is modified in the guarded build, and stack memory is released with the task.",
["inputs","programs","configurations"],
"All generated stack sizes, usage depths up to and beyond the limit, frame sizes up to a page and numbers of neighbouring tasks.",
"One test overflows one default stack by unbounded recursion; boundaries, exact usable size and neighbours are not checked.",
["src/kern/task/hev-task-stack-mmap.c","src/kern/task/hev-task-stack-heap.c","src/lib/misc/hev-task-stack-detector.c"],
[("guard page","src/kern/task/hev-task-stack-mmap.c"),("fault handler on an alternate stack","src/lib/misc/hev-task-stack-detector.c")],
["exit status of child processes, canaries in neighbouring memory"])
p("C32","Calls on a private stack return their result and may suspend",
"Running a function on a private stack executes it exactly once per request with the given call object, makes the value it set the result, and returns to the requester with its own locals intact; the function has the requested stack space and may yield, sleep, block and nest further such calls while other tasks run. One call object can be used repeatedly, and nothing remains allocated after it is destroyed.",
["programs","schedules","inputs"],
"All nestings and repetitions of private-stack calls with generated stack and object sizes, results and suspensions inside, mixed with other tasks.",
"The test makes one non-nested call that does not suspend.",
["src/kern/task/hev-task-call.c","src/kern/task/hev-task-execute.S"],
[("stack switch into a heap stack","src/kern/task/hev-task-call.c")],
["call log, results and checksums","allocation tracker"])
p("C33","The ordered index and list keep their contents and structure",
"For every sequence of insertions, removals and replacements, the ordered tree enumerates exactly the inserted elements in comparison order in both directions, reports the true first element, and stays balanced; the list enumerates exactly its elements in insertion order in both directions. Removed elements leave no trace.",
["histories"],
"All histories of insert (at either side, sorted, random, duplicates), erase and replace over hundreds of elements.",
"No test addresses these structures; scheduler tests hold a handful of elements.",
["src/lib/rbtree/hev-rbtree.c","src/lib/rbtree/hev-rbtree.h","src/lib/rbtree/hev-rbtree-cached.c","src/lib/list/hev-list.c"],
[("red-black rebalancing","src/lib/rbtree/hev-rbtree.c"),("cached leftmost element","src/lib/rbtree/hev-rbtree-cached.c")],
["enumeration and shape against a sorted reference"])
p("C34","Faults reach the program and overflows name their task",
"In the guarded build a memory fault is handed to the fault handler the program had installed, with its signal and address, on whatever thread and with whatever systems alive; without a handler it ends the process with that signal. If the fault was running over the end of a task's stack, a report on standard error names this task and no other. Other faults are not reported as overflows.",
["fault_sequences","histories","configurations"],
"All faults (any byte of a guard page, wild addresses, bus errors) at any point inside or outside tasks, on threads with and without a system, for all handler set-ups and overlapping lifetimes of systems.",
"A fault ends the test process; no test makes one, installs a handler or has two threads.",
["src/lib/misc/hev-task-stack-detector.c","src/kern/core/hev-task-system.c"],
[("fault handler that finds the task and hands on","src/lib/misc/hev-task-stack-detector.c"),("shared signal actions with a user count","src/lib/misc/hev-task-stack-detector.c")],
["handler invocations, exit status and standard error of a separate process"])
p("C35","Endpoints and layers written by the program work anywhere in a chain",
"A chain treats endpoints and layers written by the program like its own: each request reaches them with exactly the bytes or space still outstanding, a would-block answer makes the caller wait or its yield function be asked, and every other answer comes back to the caller, an error with its code and an end only after all data received before it. Operations a layer does not provide itself pass through it with all arguments and results, the null layer reads as ended and accepts everything, and a chain without an endpoint fails at once. Splicing two such chains delivers everything received before a direction's end, also if they have no descriptors.",
["inputs","histories","fault_sequences"],
"All sequences of answers (any part of the data, would-block, end, any error code) of an endpoint to all sequences of plain, vectored, exact, datagram, peek, flush and descriptor calls and splices through all chains of layers.",
"Tests use the library's own endpoints on idle socket pairs; no test derives a layer, sees an error code through one or a partial answer.",
["src/lib/cio/base/hev-task-cio.c","src/lib/cio/base/hev-task-cio.h","src/lib/cio/buffer/hev-task-cio-buffer.c","src/lib/cio/null/hev-task-cio-null.c"],
[("retry loops around the layers' calls","src/lib/cio/base/hev-task-cio.c"),("default forwarding with error codes","src/lib/cio/base/hev-task-cio.h"),("buffering over partial answers","src/lib/cio/buffer/hev-task-cio-buffer.c")],
["requests seen by the endpoint and results seen by the caller against a byte-stream model"])
with open(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import os
for x in P:
    for fn in x["anchors"]["files"]+[m["where"] for m in x["anchors"]["mechanism"]]:
        if not os.path.exists('/repo/'+fn): print("missing",x["id"],fn)
    n=x["statement"].count('. ')+1
    if n>3: print(x["id"],"sentences",n)
