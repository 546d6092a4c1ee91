ASM = ' Trusted: clang 18 and the LLVM simplification passes that flatten the code; debug-info class layouts.'

prop('C01', 'A record is visible only when complete, and never overwrites unread data',
     'For every log call, every byte of the record is written before the record becomes visible to the background thread, inside queue space that the background thread has already released, and the visible size covers what was written. The background thread hands out only records inside what was made visible, and returns queue space only for records it has finished with.',
     ['schedules', 'inputs'], 'all interleavings of the logging thread and the background thread, all argument lists, all queue fill levels and wrap positions',
     'Tests run a few thousand interleavings on x86 (where a missing barrier is invisible) with the queue mostly empty; a wrong memory order, an off-by-one in the space check or a late write shows only in a narrow window.',
     [RB, SK, ST, CO],
     [('release store of the write position / acquire load by the reader', RB), ('space check before every copy into the queue', SK), ('reader loop returns space after the last record of a span', CO)],
     'dataflow on flattened LLVM IR: publication typestate, must-analysis of granted space, memory-order check',
     'Every log statement of a family of witness instantiations (all macros, 30 argument shapes) and the reader loop are checked on all paths; queue writes are compared with the space granted by a dominating comparison in a linear normal form. Assumes one logging thread per sink, as documented.' + ASM)

prop('C02', 'The background thread decodes every record exactly as it was encoded',
     'For every list of argument types and every mix of stored and truncated strings, the background thread moves past a record by exactly the number of bytes the log call made visible. Each argument and each string is formatted from where the log call put it, with the length it stored, and every captured argument is destroyed exactly once.',
     ['inputs', 'programs'], 'all argument type lists, all string lengths, all truncation combinations',
     'Writer and reader are separate template instantiations whose layouts must agree for every type list and alignment; tests instantiate a few dozen and almost never truncate.',
     [SK, ST, TR],
     [('record layout: function pointer, captured object, string bytes, alignment', SK), ('record functions', TR), ('string table entries', ST)],
     'translation-validation-style symbolic layout comparison of writer and reader IR (linear normal forms)',
     'For each of 30 argument shapes and each truncation combination the published and the consumed extents are compared as linear normal forms, together with string positions, entry widths and captured offsets.' + ASM)

prop('C03', 'Blocking calls lose nothing; non-blocking calls never wait',
     'A blocking log call makes exactly one record visible on every path, waiting for queue space as long as necessary, and marks a string as truncated only if it does not fit into the empty queue. A non-blocking log call never waits for the background thread: it makes exactly one record visible or adds exactly one to the count of dropped messages, never both and never neither.',
     ['schedules', 'inputs'], 'all queue fill levels, string lengths and reader schedules',
     'The full-queue and just-freed-space paths need precise timing of the reader; tests cover one or two of them.',
     [RB, SK, ST],
     [('waiting loop and drop count', RB), ('truncation decision', ST)],
     'path-sensitive typestate over flattened LLVM IR of every log macro',
     'All paths of every log macro instantiation are explored in an abstract domain (branch facts), counting publications and drops and tracking what was learnt about free space before a string is marked truncated.' + ASM)

prop('C04', 'Logging does no system call, locking or memory allocation of its own',
     'A log call that is not at fatal level performs no system call, takes no lock, allocates no memory and makes no indirect call on the calling thread, apart from what evaluating, copying and moving the arguments does by itself and apart from the clock read of the variants that take their own timestamp.',
     ['inputs', 'schedules'], 'all paths of all log macros and argument kinds',
     'Tests look at output, not at what the logging thread did to produce it; rarely taken branches (full queue, truncation) are never observed.',
     [SK, RB, ST, 'include/xtr/log_macros.hpp'],
     [('log path consists of copies into the queue', SK)],
     'effect analysis: whole-program inlined body of every log macro, all call sites classified',
     'Every call site in the completely inlined body of every log macro instantiation is classified against a closed list of permitted operations.' + ASM)

prop('C05', 'Log arguments are captured by value at the call',
     'Unless wrapped in nocopy, the contents of every argument, including the characters of every kind of string, are stored in the queue before the log call returns; nothing the background thread later reads refers to the memory of the caller. The caller may therefore change or destroy its arguments as soon as the call returns.',
     ['inputs', 'schedules', 'programs'], 'all argument kinds (values, references, C strings, arrays, string views, strings, moved strings) and all reader delays',
     'A retained reference usually still points at intact data when the background thread reads it a microsecond later, so tests pass.',
     [SK, ST, 'include/xtr/detail/string_ref.hpp'],
     [('captures by value, strings into the string table', SK), ('string copies', ST)],
     'taint/escape dataflow from the caller\'s addresses to queue stores on LLVM IR',
     'Every store into the queue in every witness statement is traced back; a stored word derived from a caller address is a violation, and the bytes of every string argument must be copied.' + ASM)

prop('C06', 'String arguments cannot inject control characters into the log',
     'Every string argument of a log statement (C string, array, string, string view, moved or wrapped in nocopy) is written character by character, in order and completely: printable ASCII characters other than backslash unchanged, every other byte as \\xHH with two upper-case hexadecimal digits.',
     ['inputs', 'programs'], 'all 256 byte values at every position, all kinds of string argument',
     'Tests write a handful of characters through one or two kinds of string; a wrong boundary or an argument kind that bypasses the filter is invisible to them.',
     ['include/xtr/detail/sanitize.hpp', 'include/xtr/detail/string_ref.hpp', ST],
     [('character filter', 'include/xtr/detail/sanitize.hpp'), ('formatters of string references', 'include/xtr/detail/string_ref.hpp'), ('routing of string arguments', ST)],
     'constant propagation of every byte value through the formatter loop; type routing of every string argument to a checked formatter',
     'The argument types that reach fmt in the record functions of 30 argument shapes are collected; each string type\'s formatter loop is evaluated abstractly for each of the 256 byte values, with an induction argument over the loop counter for completeness and order. User-defined formatters are outside the property.' + ASM)

prop('C07', 'Log levels gate messages exactly; fatal always aborts after sync',
     'A levelled log statement queues its message and evaluates its arguments exactly once if the level of the sink is at least as verbose as the statement, and otherwise does nothing at all. Statements without a level ignore the sink level. A fatal statement always syncs the sink after queueing its message and then aborts, whatever the sink level. Debug statements compile to nothing with XTR_NDEBUG. Each line is styled with the level of its statement.',
     ['inputs', 'programs', 'configurations'], 'all 40 log macro/level combinations with every sink level, blocking and non-blocking, with and without XTR_NDEBUG',
     'There are 24 macros times 5 levels times 6 sink levels; tests check a few combinations and never the side effects of a disabled statement.',
     ['include/xtr/log_macros.hpp', SK, PRN, TR],
     [('level test, sync and abort', 'include/xtr/log_macros.hpp'), ('sink level', SK), ('style of a line', PRN)],
     'path-sensitive typestate over flattened LLVM IR with the sink level fixed to each value',
     'All paths of all 48 macro/level witnesses are explored for each of the 6 sink levels, in both build modes.' + ASM)

IB = 'src/fd_storage_base.cpp'
FS = 'src/fd_storage.cpp'
IU = 'src/io_uring_fd_storage.cpp'
PX = 'src/posix_fd_storage.cpp'
FB = 'src/fd_storage_base.cpp'
VNT = 'path-sensitive typestate over flattened LLVM IR in a value-numbering abstract domain'

prop('C08', 'sync() returns only after earlier lines were written and fsynced',
     'When sync() of a sink returns, the background thread has run every record that the same thread posted to that sink before, has submitted everything in its buffer to the storage, flushed the storage, waited for every write in flight, and called fsync on the file of the storage. The waiting thread cannot return early because of a spurious or early wake-up, cannot be left asleep, and its stack is not touched after it was released.',
     ['schedules', 'crashes'], 'all interleavings of the waiting and the background thread, all spurious wake-ups, all buffer fill levels and numbers of writes in flight',
     'Data usually reaches the file within microseconds anyway, so a sync() that returns early is only visible after a crash at the wrong moment or a spurious wake-up.',
     [SKC, BU, IU, FB],
     [('posted record with an acknowledgement flag protected by a mutex', SKC), ('flush, then sync of the storage', SKC), ('drain before fsync', IU)],
     VNT,
     'All paths of every function that waits for a posted record, of the record function, and of sync/flush of both storage classes. Errors that the storage reports on standard error are outside the statement.' + ASM)

prop('C09', 'A closed sink is forgotten by the background thread before close() returns',
     'close(), the destructor and assignment of an open sink return, reset the queue or unmap it only after the background thread has acknowledged that it forgets the sink, which happens after all earlier records of that sink were run. After that the background thread accesses neither the sink nor the stack of the closing thread, and it removes exactly that sink from its list. A sink that was closed is reset to an empty queue so that it can be registered again.',
     ['schedules', 'histories'], 'all interleavings of closing threads and the background thread, all positions of the sink in the list, all batches of records',
     'Touching freed memory for a few nanoseconds is invisible to tests; removing the wrong element needs particular numbers and orders of sinks.',
     [SKC, CO, RB],
     [('close record and its acknowledgement', SKC), ('removal after a batch in which the sink was closed', CO), ('reset of the queue', RB)],
     VNT,
     'All paths of close(), ~sink(), the close record function and the reader loop; the removed element is compared with the element whose records were run as a linear normal form over the list\'s start and end.' + ASM)

prop('C10', 'Nothing logged before shutdown or idleness stays in memory',
     'The background thread ends only when every sink has been closed (and therefore drained), and then submits and flushes what is buffered before the storage is destroyed. The destructor of a logger closes the logger\'s own sink and waits for the background thread. io_uring storage is destroyed only after everything was submitted and has completed. While the thread runs, lines that were formatted are always flushed to the storage after at most one more visit to each sink with nothing to read, including lines of a sink that was closed.',
     ['schedules', 'histories'], 'all orders of logging, closing sinks and destroying the logger; all numbers of sinks; all idle periods',
     'Tests sync or destroy the logger and then look; whether an idle process leaves its last lines in memory depends on the number of sinks and on which of them were visited or closed last.',
     [CO, BU, LG, IU],
     [('termination condition and idle flush counter', CO), ('flush in the buffer destructor', BU), ('member order in logger', LG), ('drain in the storage destructor', IU)],
     VNT + '; inductive ranking argument over one iteration of the reader loop',
     'Idle flush is decided by an inductive invariant on a loop counter found automatically (one abstract iteration from an arbitrary state); an implementation that tracks pending flushes other than with a counter is reported. ' + ASM.strip())

prop('C11', 'The logger object may be used from several threads at once',
     'get_sink, register_sink, set_command_path, set_log_level_style and set_default_log_level may be called concurrently: each access of theirs to the logger\'s own single-producer queue happens with the logger\'s mutex held, which is released on every path and never taken twice, and the default log level is accessed atomically. set_command_path and set_log_level_style return only after the background thread has carried out the change. The level of a sink is accessed atomically wherever it is read or changed.',
     ['schedules'], 'all interleavings of any number of threads using one logger and changing levels through xtrctl',
     'Two threads must post to the logger\'s queue within nanoseconds of each other for an unprotected access to corrupt it; tests use the logger from one thread.',
     [LG, 'src/logger.cpp', SKC],
     [('mutex-protected posts', 'src/logger.cpp'), ('atomic level', SK)],
     'lockset analysis on flattened LLVM IR: every access to the control sink on every path, with lock and unlock tracked',
     'Lock state is tracked along all paths of every public function; uses of the control queue are recognised by address, whichever function they were inlined from.' + ASM)

prop('C12', 'Every formatted byte is submitted to the storage once and in order',
     'A line is copied completely and in order into buffers obtained from the storage, never past the end of a buffer, and then cleared. The filled part of a buffer is submitted with exact bounds, once, before another buffer replaces it; a submitted buffer is never written to or submitted again, even if the storage throws while allocating the next one. The POSIX storage writes every byte of a submitted buffer in order, continuing after short writes and interrupted calls, and reports every other write error by throwing.',
     ['inputs', 'crashes'], 'all line lengths, buffer capacities and fill levels; all sequences of short and failing writes; storage functions that throw',
     'Tests write short lines to a regular file, where write is never short or interrupted, and rarely hit the boundary of a 64 KiB buffer.',
     [BU, PX],
     [('append, next_buffer and flush', BU), ('write loop', PX)],
     VNT + ', with loop-carried quantities followed inductively',
     'Every path through append_line, next_buffer, flush, the destructor and the write loop is explored with symbolic sizes; at loop heads the next byte to copy or write must coincide with a loop-carried value.' + ASM)

prop('C13', 'io_uring storage writes every submitted byte at its place exactly once',
     'For every sequence of completions (full, short, interrupted or failed writes, errors from waiting, a full submission queue), the io_uring storage writes each submitted buffer at the file offset following the previous one, continues a short or interrupted write at the byte and file offset where it stopped, and neither frees, reuses nor resubmits a buffer that is still in flight. Every buffer returns to the free list exactly once, every completion is consumed exactly once and not read afterwards, and the count of pending completions equals the entries in flight, so that sync() waits for all of them.',
     ['schedules', 'histories', 'crashes'], 'all sequences of completion results and orders, all buffer sizes, all free-list and ring states',
     'The tests replace a few ring functions by stubs for one short write at a time; combinations (short write after a full ring during reopen) are out of their reach.',
     [IU],
     [('submit_buffer, allocate_buffer, wait_for_one_cqe, resubmit_buffer, replace_fd', IU)],
     VNT + ': typestate of ring entries, completions and buffers',
     'Every entry point of io_uring_fd_storage is explored on all paths with symbolic completion results; each prepared entry is compared field by field (address, length, file offset, descriptor, user data) with the buffer it belongs to. Kernel behaviour of io_uring and failures of io_uring_submit are outside.' + ASM)

prop('C14', 'Reopening keeps every line and never loses the log file',
     'The reopen command hands all lines logged before it to the old file before the new one replaces it, and replies success exactly when the file was reopened. Reopening opens the original path for appending, creating it if missing and never truncating it; if this fails the old file stays in use and an error is reported. The old descriptor is closed exactly once, for io_uring behind all writes in flight. The path given by the user reaches the storage actually used, also if io_uring is not available, and the storage owns a duplicate of the descriptor it was given.',
     ['histories', 'crashes'], 'all outcomes of open, io_uring set-up and storage calls; all buffer states at the time of the command',
     'The tests reopen once, successfully, with an idle logger; failing or interrupted opens, writes in flight and the io_uring fallback are not exercised.',
     [IB, FS, IU, CO],
     [('fd_storage_base::reopen and constructor', IB), ('make_fd_storage', FS), ('replace_fd', IU), ('reopen_handler', CO)],
     VNT + ': ordering and ownership typestate',
     'All paths of reopen_handler, reopen, both replace_fd, make_fd_storage and the storage constructor are explored. A storage that throws while flushing is allowed to lose the lines it had been given.' + ASM)

CDS = 'src/command_dispatcher.cpp'
prop('C15', 'Commands received from a client are validated and carried out exactly',
     'For every sequence of bytes a client may send: no byte of a frame is used that was not received, a command runs only if its id is known and its length is exact, and anything else gets one error reply. The pattern of a status or set_level command is terminated before it is used; a set_level command changes levels only if the level is one of the defined ones and the pattern is valid. Every sink whose name matches, and no other (never the control sink), is reported once with its own name, level, capacity, bytes queued and drop count, or gets the new level; exactly one success or error reply follows a set_level command, to the client that sent it. An exception thrown by a handler is reported to the client.',
     ['inputs', 'histories'], 'all frames (any id, length and content), all patterns and levels, any number of sinks',
     'The socket is open to any local process, so frames are arbitrary; the tests send a dozen malformed frames and one or two sinks.',
     [CDS, CO],
     [('process_socket_read', CDS), ('status_handler, set_level_handler', CO), ('strzcpy', 'include/xtr/detail/strzcpy.hpp')],
     VNT + ': taint/validation typestate and field-by-field comparison of replies',
     'All paths of process_socket_read and of the two handlers are explored with symbolic frames; each reply is compared field by field. What a matcher accepts (regcomp, fnmatch) is outside.' + ASM)

prop('C16', 'Replies reach the right client in full; connections never block the logger',
     'For every number of clients and every order of their events, the replies queued for a client are copies of the bytes passed, are sent to that client whole, in order and once (again only after EINTR), and without raising SIGPIPE. A client is disconnected exactly when all its replies were sent or its connection failed, not because sending would block; then its replies are discarded and its own connection, no other, is removed. The list of connections is never read past its end. The background thread polls without waiting, and listening and accepted sockets are non-blocking and keep frames apart.',
     ['schedules', 'histories'], 'any number of clients, any poll results, all results of accept, recvmsg and sendmsg',
     'Removing one client moves another into its place while the list is walked; which client is at the end, and slow or vanished clients, depend on timing that the tests do not produce.',
     [CDS, CO],
     [('process_commands, process_socket_write, disconnect', CDS), ('call of process_commands', CO)],
     VNT + ': index bounds and reply typestate',
     'All paths of process_commands (with the socket handlers inlined) and process_socket_write are explored with symbolic lists; element accesses are compared with the current end of the list.' + ASM)

FDS = 'src/file_descriptor.cpp'
MMS = 'src/mirrored_memory_mapping.cpp'
prop('C17', 'Every descriptor, ring and compiled pattern is released exactly once',
     'On every path, including those taken when a system call fails or an exception is thrown, each file descriptor that the library opens (log file, duplicate of the descriptor given by the user, control socket, accepted connections) is at any time held by exactly one object and is closed exactly once: when that object is destroyed, reset or assigned to, and not before. Moving a file_descriptor transfers it; 0 is a descriptor like any other; a descriptor owned by the user is never closed. An io_uring that was set up is torn down once, by the destructor or when construction fails. A compiled regular expression is freed once, one that failed to compile never.',
     ['inputs', 'histories', 'crashes'], 'all results of open, dup, socket, accept4, regcomp and io_uring set-up; all exceptions',
     'Leaks and double closes on error paths are invisible to tests that only look at the log output; a double close hits a descriptor of another thread only by chance.',
     [FDS, FS, FB, IU, CDS],
     [('file_descriptor', 'include/xtr/detail/file_descriptor.hpp'), ('make_fd_storage', FS), ('fd_storage_base::fd_storage_base, replace_fd', FB), ('constructor and destructor', IU), ('command_dispatcher::command_dispatcher, process_commands', CDS), ('regex_matcher', 'src/regex_matcher.cpp')],
     VNT + ': ownership (each descriptor is a token that is held, closed or handed over)',
     'Every function of the library that opens or closes a descriptor, or writes to a member that holds one, is explored on all paths, unwinding included; the members of file_descriptor are checked for conservation of the descriptors they are given. Elements of standard containers are taken to be destroyed by the container.' + ASM)

prop('C18', 'The queue is one memory mapped twice in a row, and starts out empty',
     'A sink is created with an empty queue whose memory is as large as its capacity, and where the producer starts writing. This memory consists of two adjacent mappings of equal length of the same shared memory, so that a record which runs past the end of the first continues at its beginning; they are placed over an address range reserved for them, never over other memory of the process. If creating them fails, an exception is thrown and nothing stays mapped. Destroying a queue unmaps both halves once, and nothing else; moving or assigning a mapping transfers it together with its length. When a sink is closed its queue is left empty, with its whole capacity available and no drops pending, so that the sink can be used again.',
     ['inputs', 'histories', 'crashes'], 'all lengths, descriptors, offsets and flags; all results of mmap and mremap',
     'The failing system calls, and the reuse of a sink after it wrapped around, dropped messages and was closed, are not produced by the tests.',
     [MMS, 'src/memory_mapping.cpp', RB],
     [('mirrored_memory_mapping, ~mirrored_memory_mapping', MMS), ('memory_mapping', 'src/memory_mapping.cpp'), ('synchronized_ring_buffer, clear', RB), ('sink::close', 'src/sink.cpp')],
     VNT + ': symbolic address ranges',
     'The constructor and the destructor of mirrored_memory_mapping are explored on all paths with a model of which object is mapped in which part of the address range; mmap and mremap succeed or fail. That a failing MAP_FIXED mapping leaves the old mapping in place is assumed.' + ASM)

prop('C19', 'The control socket has a path of its own and is removed exactly once',
     'The default path of the control socket is different for every logger of every process, also if loggers are created by several threads at once. A socket is bound to exactly the path that was given, of a file or of an abstract socket; a path that does not fit into a socket address is refused, never cut off or copied past the end. The socket is served, with all its commands, exactly if it could be created, bound and listened on; otherwise the logger goes on without one. With the null path no socket is opened and the one in use stays. When the logger is destroyed or gets another path the socket file is removed if this logger has created it, and no other file is ever removed, in particular not the socket of another logger whose path is already in use.',
     ['inputs', 'schedules', 'histories'], 'all paths of any length and content, all results of socket, bind and listen, any number of loggers created concurrently',
     'The tests use short fresh paths; paths of 107 or 108 characters, paths in use by another process and failing system calls are not exercised, and a stale or stolen socket is noticed only by another process.',
     [CDS, CO, 'src/command_path.cpp'],
     [('command_dispatcher, ~command_dispatcher', CDS), ('set_command_path', CO), ('default_command_path', 'src/command_path.cpp')],
     VNT + ': bounds of copies, typestate of the socket and its path',
     'All paths of the constructor and destructor of command_dispatcher and of set_command_path are explored with a path of symbolic length and all outcomes of the system calls; the default path is checked by dataflow from the process id and the atomic counter to the text. That two processes have different ids and file system permissions are outside.' + ASM)

prop('C20', 'Dropped messages are counted exactly and reported under their sink',
     'Every message that a non-blocking log call discards is counted once, however logging and reading interleave: the logging thread adds one atomically, and the background thread takes the count and resets it in one atomic step. Each time the background thread has run records of an open sink and finds its queue empty it takes the count; if messages were dropped, it writes one line at warning level with the name of that sink and that number, and adds that number once to the total that the status command reports for that sink. Otherwise it writes no such line.',
     ['schedules', 'histories'], 'all interleavings of non-blocking calls with the background thread, any number of sinks in any order',
     'A lost or doubly counted drop needs a drop between two instructions of the background thread; a drop reported for the wrong sink needs several sinks, of which a particular one overflows.',
     [CO, RB],
     [('report of dropped messages', CO), ('drop count', RB)],
     VNT + ': the drop count as a token that must be reported and added',
     'All paths of the reader loop are explored with a symbolic list of sinks; list elements are compared as linear normal forms. Messages dropped by a sink that is closed before the background thread has emptied its queue are not reported (see DESIGN.md) and are outside the statement.' + ASM)

prop('C21', 'A line that cannot be formatted or written costs only that line',
     'If formatting an argument, styling the level, or writing to the storage throws an exception derived from std::exception while the background thread handles a log message, the process goes on: the exception is caught before it leaves the function that runs the record (or flushes the buffer), it is reported on standard error, and nothing of the failed line stays behind to become part of the next line. The next message is formatted into an empty line, whatever happened before.',
     ['inputs', 'histories', 'crashes'], 'all argument types and values, all exceptions derived from std::exception, all positions at which formatting or the storage can fail',
     'Formatters that throw half way through a line, and storage that fails while a line is copied, are sampled by one or two tests; the text left behind shows only in the next line.',
     [PRN, BU, TR],
     [('print', PRN), ('append_line, flush', BU), ('trampoline0, trampolineN, trampolineS', TR)],
     VNT + ': exceptional control flow and the state of the line',
     'Every record function of the witness programs (all argument kinds) and buffer::flush are explored on all paths including every unwinding edge. Exceptions of other types, and failures while an error is being reported, end the process by design (noexcept).' + ASM)

prop('C22', 'Every line carries the style, timestamp and name that belong to it',
     'A line begins with the style of its level, the timestamp and the name of the sink through which it was logged, in this order, however many sinks there are, in whatever order they are created, renamed and closed, and also if the list of sinks changes while records run. Lines logged without a timestamp of their own get the time at which the background thread processed them: the clock is read again before a record is run if all sinks were visited since it was last read but one, so a timestamp is never older than the round before. The text of the timestamp always fits into its buffer and is terminated, for every time the clock may return.',
     ['inputs', 'schedules', 'histories'], 'any number of sinks and order of events, all values returned by the clock',
     'A name taken from another list element or a timestamp that is not refreshed shows only with several sinks, records that change the list while they run, or a long-running process; tests use fixed clocks in ordinary years.',
     [CO, PRN, TR],
     [('run', CO), ('print', PRN), ('trampoline0, trampolineN, trampolineS', TR)],
     VNT + ': elements of the list as linear normal forms, age of the clock reading',
     'All paths of the reader loop are explored with a symbolic list of sinks; the list element whose queue was read and the one whose name is passed are compared; the number of rounds since the clock was read is part of the state. Every record function of the witness programs is checked for what it formats in front of the arguments. What the clock returns and how fmt prints it is not examined.' + ASM)

prop('C23', 'A command selects sinks with exactly the pattern that was sent',
     'For every type of pattern, with and without regard to case, a status or level command matches the names of the sinks with the pattern the client sent and as the client asked: an extended regular expression as such, a basic one as such, a wildcard as a shell wildcard without special treatment of any character of the name, case being ignored if and only if that was requested; without a pattern, or with an unknown type, every name matches. A regular expression is used if and only if it compiled, and a name is selected if and only if the pattern matches it.',
     ['inputs'], 'all pattern types (valid or not), patterns, names and both settings of ignore_case',
     'The tests match a few names with a few patterns; a flag that is lost for one combination of pattern type and case, or that treats some characters specially, shows only with particular names.',
     ['src/matcher.cpp', 'src/regex_matcher.cpp', 'src/wildcard_matcher.cpp', CO],
     [('make_matcher', 'src/matcher.cpp'), ('regex_matcher', 'src/regex_matcher.cpp'), ('wildcard_matcher', 'src/wildcard_matcher.cpp'), ('status_handler, set_level_handler', CO)],
     VNT + ': constant propagation over pattern type and case through make_matcher, constructors and member functions',
     'make_matcher and both handlers are evaluated abstractly for each pattern type (and invalid ones) and both settings, with symbolic pattern and name; the contents of the object that is made are carried into its member functions. What regcomp, regexec and fnmatch themselves accept is the business of the C library.' + ASM)

prop('C24', 'A copied or assigned sink takes over name, level and being open',
     'After a sink was copied, or assigned to another one, the target has the log level of the source and is open if and only if the source was; if it is open, it is registered with the logger of the source exactly once, under the name the source has after everything logged through it before, and its own lines appear there. An open sink that is assigned to is closed first, so that what was logged through it is not lost or attributed to its new name. The source is not changed, and assigning a sink to itself has no effect. A sink obtained from a logger is registered under the name given.',
     ['inputs', 'histories'], 'all combinations of open and closed, equal and different source and target, any name and level, any history of the two sinks',
     'The tests assign a few fresh sinks; assignment to a sink in use, of a closed sink, or of a sink to itself shows up as a line under the wrong name, a sink registered twice or a thread that reads freed memory.',
     [SKC, CO, 'src/logger.cpp'],
     [('sink::sink(const sink&), sink::operator=', SKC), ('add_sink', CO), ('register_sink', 'src/logger.cpp')],
     VNT + ': typestate of source and target, and of the record that registers the copy',
     'Copy constructor and assignment operator are explored on all paths with both sinks in arbitrary states; the record function they post, and that of logger::register_sink, are explored separately. That close() waits for the background thread is C09.' + ASM)

prop('C25', 'Timestamps are accurate and never run backwards',
     'The time shown in a line differs from the time at which the log statement (or, for statements without a timestamp, its processing) happened by no more than the resolution of the clock used, and of two lines logged by one thread with timestamps the later one does not show an earlier time.',
     ['inputs', 'schedules'], 'all clock and counter readings',
     'The error depends on the drift of the counter against the wall clock over the life of the process.',
     ['include/xtr/detail/tsc.hpp', 'src/tsc.cpp'],
     [('tsc::to_timespec, estimate_tsc_hz', 'src/tsc.cpp')],
     na='Depends on the calibration of the processor counter against the wall clock at run time; no fact about the source bounds the error. Freshness and placement of timestamps are decided in C22.')
