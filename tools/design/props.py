P={}
def d(i,gen,orc,bounds,beyond): P[i]=(gen,orc,bounds,beyond)
d('C01','1-3 rounds in one system; up to a dozen tasks start tasks, yield, wait, sleep, wake each other (also needlessly), wait on descriptors, change priority, recurse, exit or return; signals interrupt waits.',
 'Trace of every task (runs once, own data, resumes at the step it left), a wake-up model (no task resumes from a plain wait nobody ended, each wake-up is given once, and a task that was woken or started must run while everything else naps), all tasks finished when the loop returns.',
 '12 tasks, 25 operations each; rarely 60-700 tasks; 5 variants.','spurious wake-ups, early exits and restarts of the loop combined; interrupted waits.')
d('C02','2-10 tasks with generated stack sizes recurse with generated frame sizes, fill frames and all callee-saved registers with known values and suspend in every way (yield, sleep, lock, channel, pipe, wait).',
 'Every frame, register (assembly helper) and floating-point value is compared after each resumption; stack ranges are checked for overlap with all live blocks.',
 'Depth limited by the stack size; x86-64 switch code only.','no test compares anything but a few locals across a switch.')
d('C03','Up to 12 tasks with generated and changing priorities that yield, wait, sleep, wake, start and end.',
 'An executable model of the weighted order predicts the next task before every switch, including ties.',
 'Rarely 40-300 tasks and bursts of thousands of yields. Default scheduling clock (the other clock measures real run time, so order is not determined).','the test only prints.')
d('C04','Histories of create, ref, unref, start, restart, query, suspend, wake, terminate over several handles, from inside and outside the loop.',
 'Model of state, data, priority and ownership; tracked memory and mappings tell the exact moment of release; freed memory is overwritten with junk.',
 'Several handles, up to 3 rounds of short histories; rarely tens of thousands of references.','release order, handles kept over termination, restarts.')
d('C05','2-7 tasks joining tasks of higher rank, with sleeps, waits, needless wake-ups, early exits, release and restart of joined tasks.',
 'Model of who has terminated and who is joined: returns early, late or never are failures, second joins must fail at once.',
 '7 tasks, some with further references.','restart and second join, spurious wake-ups, exit instead of return.')
d('C06','1-10 sleepers with durations from 0 to the largest representable in both units, from clock phases around a full second, interrupted by wake-ups and descriptor events, other tasks burning time.',
 'Exact deadlines on the virtual clock; remainders computed from the time of the wake-up; order of wake-ups.',
 '10, rarely 300 sleepers; the kernel timer is emulated.','durations beyond seconds, second boundaries, many sleepers.')
d('C07','2-7 tasks with lock/try/unlock/yield/sleep/wake/priority programs on 1-3 mutexes.',
 'Ownership model and deterministic deadlock detection; failures of try-lock must agree with the model.',
 '7, rarely 300 tasks, 3 mutexes.','needless wake-ups of waiters in any position of the queue.')
d('C08','2-8 tasks that wait, wait with timeout, signal, broadcast on 1-2 conditions, with needless wake-ups.',
 'Bipartite matching of successes to signals (any legal assignment accepted), exact time of timeouts, mutex ownership, no released waiter lost.',
 '8, rarely 80 tasks that mostly wait; timeouts of 0-50 ms, rarely beyond 2^31 ms (then ended by a broadcast).','timeouts of waiters in the middle of the queue, next to signals.')
d('C09','1-3 channels, unbuffered or with 1-9 buffers of generated (also huge) sizes; both ends write and read messages of generated sizes with sleeps and needless wake-ups.',
 'Queue model with boundaries, cut lengths and capacity; writes may wait only when the model says so; a stall is a deadlock.',
 '9, rarely 127-300 buffers; messages up to 200000 bytes; huge capacities only to see them refused.','capacity and blocking exactly at the limit, over-long messages, both directions at once.')
d('C10','As C09, with ends destroyed at any moment and handed from task to task.',
 'Model of the peer: buffered messages remain, then failure at once; blocked peers resume; junk-filled freed memory and ASan show use after free; memory balance.',
 '3 channels with up to 3, rarely 40 buffers.','destruction while the peer is blocked or its former user has ended.')
d('C11','A task with 1-5 ends in 1-2 selectors adds, removes, selects for read or write with generated timeouts, reads and writes directly, against one task per far end that may destroy it.',
 'Readiness model: a returned channel must be ready and in the selector; waiting next to a ready one, or returning nothing early, is a failure.',
 '5, rarely 40 channels.','write readiness, removal, timeouts.')
d('C12','1-4 tasks and 1-12 (rarely over a thousand) event descriptors, pipes and sockets registered, changed, moved and removed while an outside peer makes them ready or hangs up.',
 'Whenever the loop is idle, no waiting task may own a ready descriptor of its events it has not seen; call results are compared with the kernel.',
 'Over a thousand descriptors at most.','readiness during and before registration, more events at once than one poll returns.')
d('C13','1-3 links (pipe, stream, packet, datagram) or files; every transfer call in plain, vectored and message form against tasks or an outside peer; short transfers, would-blocks, errors injected.',
 'Stream model: every byte, count, end of file and errno; suspended only while not ready.',
 'Local transports; vectors of up to 1024 elements; requests up to 131072 bytes.','errors and short transfers in the middle, all call forms.')
d('C14','Wait-all streams in all forms with vectors including empty elements; single messages with addresses and ancillary data made twice, by the library and by the system call on an identical socket.',
 'Stream model for totals and contents, vectors unchanged; field-by-field comparison of message headers.',
 'Local sockets; lengths up to 196608 bytes; up to three parts with descriptors, ancillary space down to none.','metadata and multi-part vectored transfers are untested.')
d('C15','Series of blocking operations of all kinds with a scripted yield function (returns at once, suspends, makes ready, aborts).',
 'Log of yielder calls (number, kind, pointer) against when the operation could not proceed; suspension otherwise is seen by a task that runs whenever it can; result after an abort.',
 'Script length.','the test has one operation and one yield.')
d('C16','Open (all flags incl. unnamed temporary files), create, dup, pipe, socket, socket pair and accept with generated, also invalid, arguments and failing system calls.',
 'Twin call by the system in a twin directory: kind, flags, mode, errno, effect on the tree, descriptor balance, non-blocking.',
 'Kinds available without privileges; scratch directories.','failure paths and flags.')
d('C17','1-2 listeners (local, TCP loopback) with connects from tasks and from outside, wrong destinations, needless wake-ups, injected errors.',
 'Pairing model: each connection accepted once, peer names, error of a failed connect, no suspension without need.',
 'Loopback. One open finding.','refused, pending and interrupted connects.')
d('C18','1-3 tasks polling sets of pipes, sockets, event descriptors, listeners, files, negative and invalid descriptors for generated events and timeouts.',
 'The poll system call at the same moment gives the expected count and events; waits are exact on the virtual clock.',
 'Timeouts up to the largest; sets of 200 descriptors at most, half of the large ones with nothing ready at first.','anything but one readable pipe.')
d('C19','1-3 tasks splicing between sockets or separate descriptors with generated buffer sizes while far ends feed, drain, shut down, reset, close; short transfers and errors injected; splice system call and buffer builds.',
 'Prefix at all times, equality before the direction may count as finished, moment of return, stall detection, descriptor and memory balance.',
 'Buffers up to 20000, rarely 131072 bytes; up to 60 rounds of traffic.','slow receivers, half-closes and errors at any moment.')
d('C20','Chains of 0-4 buffering and pass-through layers over descriptors, sockets or null, used by one task or a reader and a writer through plain, vectored, exact, peek and flush calls.',
 'Queue model of both byte streams; exactness of exact calls; flush empties to the transport; no stall while the transport can proceed.',
 'Depth 4; buffers up to 131072 bytes.','stacked layers, vectors with empty elements, buffers smaller than the data.')
d('C21','2-4 datagram sockets of one family wrapped in 0-3 layers, plain and vectored reads and writes, foreign datagrams, would-blocks, errors; chains without datagram support.',
 'Queue model per receiver with contents, cut and sender address.',
 'Loopback; datagrams up to 20000 bytes.','addresses and layers.')
d('C22','1-2 tasks splicing two chains of 0-3 layers, possibly with data already in the layers.',
 'As C19 through the layers: nothing stuck while the transport accepts, everything delivered before an end.',
 'Buffers up to 8000, rarely 131072 bytes; up to 60 rounds of traffic.','any buffering layer in a splice.')
d('C23','Histories of creating layers of every kind, pushing, popping, referencing, releasing, querying, with transfers through whatever is alive.',
 'Reference model: every close call and finalizer is compared after each step; leaks at the end.',
 'History length.','shared layers, one descriptor for both directions.')
d('C24','Histories of malloc, calloc, realloc, free around every size class and extreme sizes, injected exhaustion, bursts beyond the reuse cache, free orders.',
 'Block model: alignment, real size of the memory behind (tracked), contents after every step, zeroing, bounded kept memory, all returned at the end.',
 'History length; a build with a cache of 8 makes overflow cheap.','reuse across classes and overflow.')
d('C25','Histories over a graph of objects of both kinds; threads sharing an object with operations interleaved in a generated order by relaxed atomics only (no happens-before of their own).',
 'Finalizer count and moment; ThreadSanitizer judges visibility: a missing ordering is a race in every forced interleaving.',
 '4 threads.','concurrency is untested.')
d('C26','Histories of partial writes and reads, also begun before and finished after one another, looks, reference operations, capacities from 0 to 70000 and impossible ones.',
 'Queue model: segments, sizes, contents, disjointness, inside the memory really obtained.',
 'History length.','overlapping reads and writes, odd capacities.')
d('C27','1-4 cycles of initialising, generated uses of every facility, redundant initialisations, unstarted tasks, finalising, overlapping systems on several threads.',
 'Descriptors, blocks, mappings, signal handlers and signal stack equal to before.',
 'Helper thread of the resolver exists before the first comparison.','leaks are never looked at.')
d('C28','Uses of every facility with the n-th allocation, mapping, descriptor, registration or thread made to fail, next to talking tasks.',
 'Failure reported (or documented degradation), repeat succeeds, neighbours undisturbed, resources balanced.',
 'One failure at a time.','no failure is ever injected.')
d('C29','2-4 threads of a fresh process start at generated offsets and run generated programs with every facility.',
 'Results equal to the same program run alone; ThreadSanitizer for unsynchronised sharing.',
 'Real threads and time; free-running, so only races on executed paths.','tests use one thread.')
d('C30','Tasks asking forward and reverse questions of a scripted resolver held for generated virtual times, next to ticking tasks and needless wake-ups, the system ended right after; threads asking at once.',
 'Result, code and output equal to what the scripted resolver gave for these arguments; tasks keep ticking; ASan/TSan for the end of the system.',
 'The resolver itself is replaced.','the only test needs a network and fails here.')
d('C31','Sets of tasks filling generated stacks to the requested size after generations of other tasks; overflow in a separate process.',
 'All of the requested size usable; after the overflowing process has died, sentinels in shared memory next to each stack are intact; mappings balanced.',
 'Frames up to a page.','overflow and odd sizes.')
d('C32','Up to 5 tasks calling functions on private stacks of generated size: nested, repeated, suspended, filling the stack.',
 'Execution model: once per request, result, registers, locals, object bytes intact, whole stack usable, memory balance.',
 'x86-64; nesting 5; stacks up to 620000 bytes.','suspension inside a call, object next to the stack.')
d('C34','Faults over the end of a stack (endless recursion, any byte of the page below) and elsewhere (null, protected, read-only, beyond a file), in tasks, outside tasks, on threads without a system and after all systems, with generated handlers of the program, one to three threads with overlapping systems.',
 'Program handler called once per fault with signal and address, program goes on as it decides; without one the process ends with that signal; the report names the overflowing task and no other, and nothing is reported otherwise.',
 'User-mode faults on x86-64; a process per case.','a fault ends a test, so none makes one.')
d('C35','Chains of up to 4 buffering, pass-through, byte-changing (also cutting) and null layers over an endpoint of the harness, or over none; every answer of the endpoint is generated: any part, would-block, end (once or lasting), any of 40 errors, left-over error codes on success. All kinds of calls with and without yielder, and splices between two such chains.',
 'Stream model at both ends: every byte the endpoint sees and the caller gets, error codes, ends only after all data, waits only after a would-block and always then, abort results, flush reaches the endpoint, datagrams one to one with addresses, descriptors.',
 '24 calls per task, two tasks, buffers to 3000 bytes. An error hidden behind data of the same vectored call may be lost, as with a system call.','no test has an endpoint that answers in parts or fails.')
d('C33','Insertions in generated orders with equal keys, removals, replacements on the tree; list operations; sleeping tasks that use both.',
 'Sorted-sequence model in both directions, first element, parent links, depth bound; removed elements are overwritten with junk.',
 '300 elements.','the containers have no tests.')
