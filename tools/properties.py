SCH = 'the sampled thread interleavings (random walk, priority based and access directed preemption), clock phases, stalls and spurious wake-ups'
prop('C01', 'Interthread queue is a linearizable FIFO that owns its elements',
 'Concurrent puts, gets, timed and blocking reads, size queries and flushes of an interthread queue behave as if executed one at a time in an order consistent with real time, first in first out. Every element put in is handed out once or destroyed once, never both and never twice.',
 ['schedules', 'histories'], 'For every number of writers and readers, every mix of operations and ' + SCH + '.',
 'The tests run one writer against one reader under whatever schedule the kernel happens to produce and look only at the total.',
 ['Interthread.h', 'LinkedLists.h', 'LinkedLists.cpp', 'Threads.h'],
 [('queue lock around every list operation', 'Interthread.h InterthreadQueue'), ('intrusive linked list', 'LinkedLists.h SingleLinkList / PtrList'), ('condition variable for readers', 'Interthread.h write / read')],
 obs=['return values of the queue operations', 'element destructors'])
prop('C02', 'No lost wake-ups and honest timeouts in all interthread containers',
 'A thread blocked reading an interthread container returns once an element for it is present, whatever the interleaving of readers, writers and spurious wake-ups. A timed read returns an element whenever one is available, does not report a timeout before its time is up, and does report it soon after.',
 ['schedules', 'histories'], 'For every interleaving of readers and writers on each of the queue, priority queue and map containers, every clock phase relative to the second boundary, late timers and ' + SCH + '.',
 'A lost wake-up needs one particular interleaving between the emptiness test and the wait; a test that hangs one time in a million is never seen to fail, and wrong deadlines near second boundaries are not sampled.',
 ['Interthread.h', 'Threads.h', 'Threads.cpp', 'Timeval.h', 'Timeval.cpp'],
 [('wait in a loop under the same lock', 'Interthread.h read / get / readBlocking / readIfExists'), ('signal or broadcast after every write', 'Interthread.h write'), ('absolute deadline', 'Timeval.cpp, Threads.cpp Signal::wait')],
 obs=['simulated time at which each read returns', 'deadlock detection by the scheduler'])
prop('C03', 'Two connected queues never leave their common consumer asleep',
 'A consumer waiting on two connected queues, also two of a chain of several, is woken by an element arriving in either of them, and sees every element of both, each queue in order. A combined wait with a time limit returns when the limit expires.',
 ['schedules', 'histories'], 'For every interleaving of writers on both queues with one consumer, waits with and without limit, and ' + SCH + '.',
 'There is no test of connected queues; the failure needs a write between the consumer testing both queues and going to sleep.',
 ['Interthread.h', 'Threads.h', 'Threads.cpp'],
 [('shared lock and condition variable', 'Interthread.h iqConnect / qGetLock'), ('combined wait', 'Interthread.h iqWaitForEither')], obs=['elements delivered', 'simulated time of return'])
prop('C04', 'Low-water wait throttles producers and always releases them',
 'Waiting for a queue to drain to a level returns only when the queue was at or below that level, and every waiter is released once it is, also when several threads wait for different levels. Contents stay first in first out and nothing is lost or duplicated.',
 ['schedules', 'histories'], 'For every interleaving of producers, waiters, consumers and clears and ' + SCH + '.',
 'The tests have no more than one waiter, and a waiter that is never released is a hang that only some schedules show.',
 ['Interthread.h', 'Threads.h'], [('low water condition', 'Interthread.h InterthreadQueueWithWait::wait / read / clear')], obs=['history of operations', 'deadlock detection'])
prop('C05', 'Interthread maps are linearizable and own their values',
 'Concurrent writes, lookups, removals, size queries and blocking reads of an interthread map behave as if executed one at a time; a reader waiting for a key gets it when it is written. A replaced, removed or left over value is destroyed exactly once.',
 ['schedules', 'histories'], 'For every interleaving of the map operations over a few keys and ' + SCH + '.',
 'The tests use one writer and one reader with distinct keys, so replacement and removal during a read are never exercised concurrently.',
 ['Interthread.h', 'Threads.h'], [('map lock', 'Interthread.h InterthreadMap / InterthreadMap1'), ('broadcast on write', 'Interthread.h InterthreadMap::write')], obs=['history of operations', 'value destructors'])
prop('C06', 'Priority queue hands out the best element exactly once',
 'Each read of the interthread priority queue removes an element that no other present element precedes; concurrent operations are linearizable. Every element is handed out or destroyed exactly once, ties in any order.',
 ['schedules', 'histories'], 'For every interleaving of writers, readers and clears with colliding priorities and ' + SCH + '.',
 'The test reads all elements after all writes from one schedule.',
 ['Interthread.h', 'Threads.h'], [('heap ordered queue under a lock', 'Interthread.h InterthreadPriorityQueue')], obs=['history of operations', 'element destructors'])
prop('C07', 'Mutex excludes, recurses, and reports attempts truthfully',
 'At most one thread at a time is between lock and unlock; the holder may lock again and must unlock as often. A trying or timed attempt reports success exactly when the caller then holds the lock, a timed attempt waits as long as asked, and a request that waits more than a second is reported once it does. The description of a held lock says how often and from where it is locked.',
 ['schedules', 'histories'], 'For every mix of plain, reporting, trying, timed and scoped locking, recursion depth, exceptions leaving a scope and ' + SCH + '.',
 'The lock test checks one contended case; failed attempts, recursion limits, release by exception and clock phases near a second are not sampled.',
 ['Threads.h', 'Threads.cpp', 'Timeval.cpp'], [('recursive mutex', 'Threads.cpp Mutex::Mutex'), ('position reporting lock', 'Threads.cpp Mutex::lock(file,line)'), ('timed lock', 'Threads.cpp Mutex::timedlock'), ('scope guard', 'Threads.h ScopedLock')], obs=['history of lock operations', 'lock count', 'log output'])
prop('C08', 'Locking several mutexes at once neither deadlocks nor leaks locks',
 'A thread that locks several mutexes together eventually gets all of them, in whatever order other threads name theirs and also when it already holds some; inside the section it holds every one. When the section ends exactly the locks it took are released.',
 ['schedules', 'histories'], 'For every choice and order of two or three out of four mutexes by several threads, with locks already held, and ' + SCH + '.',
 'The lock test uses one order of two mutexes; the deadlock needs a cycle of threads stopped at the right points.',
 ['Threads.h', 'Threads.cpp'], [('try and back off', 'Threads.h ScopedLockMultiple'), ('scope guard', 'Threads.h ScopedLockMultiple destructor')], obs=['ownership map', 'deadlock and livelock detection'])
prop('C09', 'Reader/writer lock shares reads and isolates writes',
 'Any number of readers may hold the lock together, a writer only alone, and a trying attempt fails exactly when the lock cannot be granted. A reader is never shut out by readers alone, not even one that reads already, and after every holder released it the lock is free.',
 ['schedules', 'histories'], 'For every mix of blocking and trying read and write sections and ' + SCH + '.',
 'No test uses the reader/writer lock.', ['Threads.h', 'Threads.cpp'], [('lock wrapper', 'Threads.h RWLock')], obs=['history of lock operations'])
prop('C10', 'Semaphore grants each post at most once and never loses one',
 'A waiting thread returns once a post has been made since the last grant, a post is consumed by at most one waiter, and a trying attempt succeeds exactly when a post is pending. Posts that are not consumed do not accumulate beyond one.',
 ['schedules', 'histories'], 'For every interleaving of posters, waiters and triers and ' + SCH + '.',
 'No test uses the semaphore; a lost post is a hang under particular schedules.', ['Threads.h'], [('flag, lock and condition variable', 'Threads.h Semaphore')], obs=['history of operations', 'deadlock detection'])
prop('C11', 'A started thread runs its task once and join waits for it',
 'Starting a thread object runs the given task exactly once with the given argument, joining it returns only after the task ended and makes its effects visible, and a joined object can be started again; the thread has at least the stack that was asked for. Thread objects that were never started can be destroyed safely.',
 ['schedules', 'histories'], 'For every interleaving of creators and tasks, restarts, stack sizes and ' + SCH + '.',
 'The thread test starts a fixed number of threads once; whether the argument wrapper outlives the creator depends on the schedule.',
 ['Threads.h', 'Threads.cpp'], [('start wrapper', 'Threads.cpp Thread::start / thread_main'), ('join', 'Threads.h Thread::join')], obs=['per task run counts', 'effects after join'])
prop('C12', 'Deadlines expire when they say, at every clock phase',
 'A deadline set some milliseconds ahead is not passed before that time and is passed after it; remaining, elapsed and difference queries agree with the clock read around the call. Waiting with a time limit follows the same deadlines.',
 ['schedules', 'inputs', 'fault_sequences'], 'For every starting phase of the clock, offset, stall between clock reads and (for the queries) forward or backward step of the wall clock.',
 'The test prints a few values read at whatever phase the clock has; carries at second boundaries and stalls between reads are not sampled.',
 ['Timeval.h', 'Timeval.cpp', 'Threads.cpp'], [('microsecond normalisation', 'Timeval.cpp Timeval::future'), ('comparison with the current time', 'Timeval.cpp passed / remaining / elapsed'), ('timed wait deadline', 'Threads.cpp Signal::wait')], obs=['simulated clock around each call'])
prop('C13', 'Reference counted objects live exactly as long as they are referenced',
 'An object managed by reference counted pointers is destroyed once, when the last pointer to it goes away, and not earlier, whichever threads copy, assign, compare or drop the pointers. Pointers dropped concurrently by several threads never free it twice.',
 ['schedules', 'histories'], 'For every interleaving of copying, assigning, self assigning and dropping pointers to shared objects and ' + SCH + '.',
 'No test shares a counted object between threads.', ['Utils.h', 'Utils.cpp'], [('counter under a mutex', 'Utils.h RefCntBase'), ('counted pointer', 'Utils.h RefCntPointer')], obs=['destructor counts', 'liveness of the heap block at each use'])
DSK = 'disk errors, delays and lock contention'
prop('C14', 'A configuration table shared by threads behaves like one map',
 'Sets, removals, typed lookups, existence tests, listings and searches made by several threads of a program on one configuration table behave as if executed one at a time in an order consistent with real time. Keys without a stored value read as their default or are reported missing; keys are case sensitive and may contain any characters.',
 ['schedules', 'histories'], 'For every interleaving of configuration operations, with the cache expiring in between, clock steps and ' + SCH + '.',
 'The test uses the table from one thread; the cache is refilled under the same lock that protects it only by convention, and expiry depends on the clock.',
 ['Configuration.h', 'Configuration.cpp', 'sqlite3util.cpp', 'Threads.h'], [('cache and its lock', 'Configuration.cpp lookup / checkCacheAge / set / remove'), ('stored values', 'sqlite3util.cpp sqlite3_single_lookup / sqlite3_command')], obs=['results of the table operations'])
prop('C15', 'Acknowledged configuration changes survive crashes',
 'A configuration change reported as made is still there after the process is killed at any later moment, and a change interrupted by the end of the process happened completely or not at all. A power failure may take back at most the last acknowledged change, and the table can be opened, read and changed afterwards.',
 ['crash_points', 'schedules', 'histories'], 'For every point at which a process crash or power failure ends the program, every subset of unsynchronised pages that is lost, up to three restarts, and ' + SCH + '.',
 'No test ends the process or reopens the database after a crash.',
 ['Configuration.cpp', 'sqlite3util.cpp'], [('write through before the cache is changed', 'Configuration.cpp set / remove'), ('statement execution and its result', 'sqlite3util.cpp sqlite3_command')], obs=['values read by the next incarnation'])
prop('C16', 'Configuration changes by another process are seen within seconds',
 'A configuration value changed by another process is returned by lookups at most about four seconds later, whatever other tables and keys are looked up in between. Values never go back to an older one, and setting the wall clock forward or back changes nothing of this.',
 ['schedules', 'histories', 'fault_sequences'], 'For every rate and mix of lookups through one or two tables, every moment of the external change, forward and backward steps of the wall clock, and ' + SCH + '.',
 'The test changes the table only through itself; ageing needs seconds of waiting and clock steps.',
 ['Configuration.cpp', 'Configuration.h', 'Timeval.cpp'], [('cache age', 'Configuration.cpp checkCacheAge'), ('database lookup on a miss', 'Configuration.cpp lookup')], obs=['values returned and simulated time since the change'])
prop('C17', 'Database trouble never invents, loses or freezes configuration values',
 'While the configuration database fails or is busy, a lookup yields the current value, or the default or nothing, but no other value; a change that is refused was made completely or not at all, and one that is accepted was made. As soon as the trouble ends every lookup is right again and changes succeed.',
 ['fault_sequences', 'schedules', 'histories'], 'For every sequence of read, write, sync, open, lock and disk full errors, single or in bursts, and ' + SCH + '.',
 'The tests run on a healthy database only.',
 ['Configuration.cpp', 'sqlite3util.cpp'], [('retry while busy', 'sqlite3util.cpp sqlite3_run_query'), ('failed lookups are not cached', 'Configuration.cpp lookup'), ('write through', 'Configuration.cpp set / remove')], obs=['results of lookups and changes', 'a second table on the same database'])
prop('C18', 'Report counters neither lose nor double an increment',
 'Once everything is committed, each counter in the statistics database equals exactly the sum of the increments reported by all threads, and each tracked maximum the largest value reported, whatever commits, periodic writes and failed writes happened in between. Clearing sets values to zero, creating an existing parameter keeps its value, and names may contain any characters; an operation that reports success did what it says.',
 ['schedules', 'histories', 'fault_sequences'], 'For every interleaving of reporting threads, explicit commits and the periodic committer, ' + DSK + ', and ' + SCH + '.',
 'The reporting test is one thread without errors and is not part of the suite that runs.',
 ['Reporting.h', 'Reporting.cpp', 'sqlite3util.cpp'], [('batch of pending increments and its lock', 'Reporting.cpp incr / max / commit'), ('failed writes are kept for the next commit', 'Reporting.cpp commit')], obs=['counter values in the database'])
prop('C19', 'Committed report values survive crashes and nothing is overcounted',
 'What a successful commit wrote is still counted after the process is killed at any later moment; no counter ever exceeds what was reported to it and no maximum was never reported, also across restarts. A power failure loses no value that a commit of that same run had acknowledged, and counting goes on after the restart.',
 ['crash_points', 'schedules', 'histories', 'fault_sequences'], 'For every point at which a crash, power failure or clean end stops up to three incarnations, every subset of unsynchronised pages, ' + DSK + ', and ' + SCH + '.',
 'No test ends the process or reopens the database.',
 ['Reporting.cpp', 'Reporting.h', 'sqlite3util.cpp'], [('one statement per counter in write-ahead mode', 'Reporting.cpp commit'), ('creation keeps existing rows', 'Reporting.cpp create')], obs=['counter values read by the next incarnation'])
prop('C20', 'The periodic report writer keeps its period and ends when told',
 'Every increment is in the database within about one ten second period of being reported without anyone calling commit, and within two periods after database errors stop. A requested shutdown ends the writer within one period, whenever it is requested, and does not hang.',
 ['schedules', 'fault_sequences', 'histories'], 'For every moment of increments and shutdown relative to the period, ' + DSK + ', and ' + SCH + '.',
 'Needs minutes of waiting with faults, and a shutdown request that arrives before the writer first ran.',
 ['Reporting.cpp', 'Reporting.h', 'Threads.cpp'], [('writer thread', 'Reporting.cpp reportingBatchCommitter'), ('start and stop requests', 'Reporting.cpp constructor / reportShutdown')], obs=['simulated time at which values are in the database', 'thread end'])
prop('C21', 'Enabled log messages reach every sink once, whole, in thread order',
 'Every message logged at an enabled level is delivered to the system log, and to the log file and console if configured, exactly once, unmixed with others, on a line of its own with its level and no empty lines between, in the order its thread logged; a disabled one is not. Any length and content, such as format directives, comes out unchanged, and the file has the message when the logging statement ends.',
 ['schedules', 'histories', 'inputs'], 'For every interleaving of logging threads, message length, level and content, set of sinks, and ' + SCH + '.',
 'The log test prints from one thread and checks nothing.',
 ['Logger.h', 'Logger.cpp', 'Utils.cpp'], [('message assembled per statement and emitted by its destructor', 'Logger.cpp Log::~Log'), ('file and console lock', 'Logger.cpp'), ('level test', 'Logger.h LOG / IS_LOG_LEVEL'), ('formatting', 'Utils.cpp format')], obs=['system log records', 'log file', 'standard streams'])
prop('C22', 'The alarm list is bounded and holds exactly the latest alarms',
 'Copies of the alarm list never hold more than the configured maximum, hold each alarm at most once, complete and in the order its thread raised it, and once all is quiet hold exactly the most recent ones. The text of each alarm also reaches the log unmixed.',
 ['schedules', 'histories', 'fault_sequences', 'configurations'], 'For every interleaving of threads raising alarms, readers and changes of the maximum, failing configuration lookups, and ' + SCH + '.',
 'The log test adds alarms from one thread with the default maximum.',
 ['Logger.cpp', 'Logger.h'], [('list and its lock', 'Logger.cpp addAlarm / gGetLoggerAlarms'), ('maximum from the configuration', 'Logger.cpp addAlarm')], obs=['copies of the list'])
prop('C23', 'Log levels per file, per group and by default take effect',
 'The effective level of a source file or log group is its own configured level if it has a valid one, else the default level; no lookup ever returns a level that was not configured, and none fails while levels are changed, removed or misspelled. After a change the configured level is effective for a file after at most about a thousand lookups, for a group at its next refresh.',
 ['schedules', 'histories', 'configurations'], 'For every interleaving of level lookups, group refreshes and changes, valid, empty and misspelled levels, and ' + SCH + '.',
 'The log test sets one level per file once.',
 ['Logger.cpp', 'Logger.h', 'Configuration.cpp'], [('level cache', 'Logger.cpp gGetLoggingLevel / gLogEarly'), ('group levels', 'Logger.cpp LogGroup::LogGroupInit')], obs=['level returned by lookups', 'messages that pass'])
NETF = 'loss, duplication, delay, reordering, partition, interrupted calls, send, receive and lookup errors'
prop('C24', 'Datagram sockets deliver whole datagrams, right sender, honest timeouts',
 'A datagram sent is offered to the addressed peer unchanged and whole, a read returns exactly one delivered datagram with its length and a reply goes to the sender of the last one read. A timed read returns a datagram that is there, reports a timeout not before its time is up and soon after, and a non-blocking one returns at once.',
 ['schedules', 'histories', 'fault_sequences', 'inputs'], 'For every exchange among internet and unix datagram sockets, payload size, ' + NETF + ', and ' + SCH + '.',
 'The socket test is not part of the suite that runs, exchanges ten packets over the loopback and never sees errors.',
 ['Sockets.h', 'Sockets.cpp'], [('send and receive', 'Sockets.cpp DatagramSocket::write / send / read'), ('timed read', 'Sockets.cpp read(buffer, timeout)'), ('name resolution', 'Sockets.cpp resolveAddress')], obs=['return values, buffers, simulated time', 'simulated network'])
prop('C25', 'A socket owns exactly its descriptor and resolves its own address',
 'Whatever opens, binds or lookups fail, a socket object closes its own descriptor exactly once and never one that belongs to someone else, and leaks none when closed or destroyed. Resolving an address yields the address of the name asked for and its port, however many threads resolve at once, and fails cleanly for malformed or unknown ones.',
 ['schedules', 'fault_sequences', 'histories'], 'For every order of opening, closing, reopening and destroying sockets while other threads take descriptors, failing calls, concurrent lookups, and ' + SCH + '.',
 'A wrong close hurts only the thread that got the recycled descriptor, which no test has.',
 ['Sockets.h', 'Sockets.cpp'], [('descriptor ownership', 'Sockets.cpp DatagramSocket destructor / close / open'), ('result copied under a lock', 'Sockets.cpp resolveAddress')], obs=['descriptor table', 'resolved addresses', 'heap at the end'])
prop('C26', 'A signal runs its handlers in order, saves what is asked, ends the process',
 'When a process with registered handlers receives such a signal, every handler registered for it runs exactly once in registration order, core and archive files are written if and only if configured, and the process then ends by that signal, if it is one that ends processes, and harms no other. Registering for an impossible signal is refused without effect, and the listing of handlers names those registered.',
 ['schedules', 'fault_sequences', 'configurations', 'histories'], 'For every moment and thread a signal arrives at, a second signal during handling, every setting of the post-mortem options, and ' + SCH + '.',
 'No test delivers a signal.',
 ['UnixSignal.h', 'UnixSignal.cpp'], [('handler list per signal and its lock', 'UnixSignal.cpp Register / Handler'), ('default action restored, signal sent again', 'UnixSignal.cpp Handler'), ('post-mortem files', 'UnixSignal.cpp CoreName / TarName / Handler')], obs=['handler calls', 'files', 'how the process ended'])
prop('C27', 'Only one instance of a program runs and its pid file follows it',
 'Of several instances of a program started at any moments at most one gets past its registration; the others end with the documented status and disturb nothing. The pid file names the running instance for as long as it runs, whatever harmless signals it receives, and it and every file registered, by whichever thread, are gone after an exit or a fatal signal that can be caught.',
 ['schedules', 'crash_points', 'fault_sequences', 'histories'], 'For every interleaving of up to five simulated processes starting and ending, every signal at every moment after registration began to catch them, kills, file errors, and ' + SCH + '.',
 'No test starts two processes or sends a signal.',
 ['SelfDetect.h', 'SelfDetect.cpp', 'UnixSignal.cpp', 'Exit.h'], [('exclusive creation of the pid file', 'SelfDetect.cpp RegisterProgram'), ('clean up on exit and signals', 'SelfDetect.cpp Exit'), ('files to remove', 'SelfDetect.cpp RegisterFile')], obs=['simulated file system', 'exit status of the processes'])
prop('C28', 'Counts of live objects are exact whatever threads make and destroy them',
 'The counts of live objects per kind and per labelled place, and the total ever made per kind, lie at any moment between what was certainly and what was possibly made and destroyed, and are exact once all is quiet.',
 ['schedules', 'histories'], 'For every interleaving of threads that create, label, copy and destroy counted objects and print the counts, and ' + SCH + '.',
 'No test uses the counters, and a lost update needs two threads at the same count.',
 ['MemoryLeak.h', 'Utils.cpp', 'Utils.h'], [('counters and their lock', 'Utils.cpp MemStats::memChkNew / memChkDel'), ('labels', 'MemoryLeak.h MemLabel')], obs=['counts and totals per kind', 'counts per label', 'the printed report'])
prop('C29', 'Database helpers tell the truth, outlast short locks and keep what they stored',
 'Commands, lookups, existence tests, row iterations and attributes behave as single steps on the database, return exactly the values stored, whatever characters they contain and however large they are, and report success only for what took effect and survives a crash of the process. A lock that another connection holds for less than the retry time is waited out.',
 ['schedules', 'histories', 'crash_points', 'fault_sequences'], 'For every interleaving of connections, ' + DSK + ', and ' + SCH + '.',
 'The database test opens one connection, with no contention, fault or restart.',
 ['sqlite3util.cpp', 'sqlite3util.h'], [('retries on a busy database', 'sqlite3util.cpp sqlite3_prepare_statement / sqlite3_run_query'), ('lookups', 'sqlite3util.cpp sqlite3_single_lookup / sqlite_single_lookup / sqlite3_exists'), ('row iteration', 'sqlite3util.cpp sqlQuery'), ('attributes', 'sqlite3util.cpp sqlite_set_attr / sqlite_get_attr')], obs=['return values', 'database content after restart'])
prop('C30', 'Console lines of many threads stay whole, complete and in order',
 'Every line printed with the console macros appears exactly once, whole, starting with its time and the name of the thread that printed it, in the order each thread printed, and a number format set by one line does not leak into the next.',
 ['schedules', 'histories'], 'For every interleaving of printing threads, pieces per line and number formats, and ' + SCH + '.',
 'Tests that print from several threads never compare what came out.',
 ['Threads.h', 'Threads.cpp', 'Timeval.cpp'], [('recursive stream lock', 'Threads.cpp lockCout / unlockCout / lockCerr'), ('macros', 'Threads.h COUT / CERR')], obs=['standard output and error'])
prop('C31', 'Sustained use leaves no memory, descriptors or statements behind',
 'Using any part of the library over and over, calls that fail included, leaves nothing behind: the memory in use stops growing after a warm-up, no socket stays open that its owner closed or destroyed, and the database helpers leave no statement unfinished. A failing system call or database takes nothing with it that a succeeding one would have given back.',
 ['histories', 'fault_sequences'], 'For every component and mix of its operations, repeated by one to three threads, with disk, lock, socket and resolver failures, and ' + SCH + '.',
 'The tests use each part a few times and exit; a block lost per call, or per failing call, shows only in a program that runs for weeks.',
 ['Configuration.cpp', 'Reporting.cpp', 'sqlite3util.cpp', 'Interthread.h', 'LinkedLists.h', 'LinkedLists.cpp', 'Sockets.cpp', 'Logger.cpp', 'Threads.cpp', 'Threads.h', 'Utils.h', 'Utils.cpp'],
 [('buffers freed after use', 'Configuration.cpp lookup / getVectorOfStrings / getVector'), ('statements finalized on every path', 'sqlite3util.cpp'), ('containers own what is left in them', 'Interthread.h destructors'), ('descriptors closed', 'Sockets.cpp ~DatagramSocket')], obs=['blocks in use on the simulated heap', 'open simulated sockets', 'result of closing the database'])
prop('C32', 'A call that runs out of memory fails alone',
 'When memory for a call on a container, the report counters, a configuration table or the log levels cannot be had, that call fails, with an exception or a result that says so, and takes nothing else with it: no lock stays held, the element it was to put in still belongs to the caller, and every other thread goes on as if the call had not been made. Counters lose nothing that other calls reported, and configuration values read afterwards are the old or the new one.',
 ['schedules', 'fault_sequences'], 'For every allocation of a call failing, on every container and on the tables, and ' + SCH + '.',
 'No test makes an allocation fail; a lock that stays held afterwards stops the whole program later and elsewhere.',
 ['Interthread.h', 'LinkedLists.h', 'LinkedLists.cpp', 'Reporting.cpp', 'Configuration.cpp', 'Logger.cpp', 'Threads.h'],
 [('scoped locks', 'Interthread.h, Reporting.cpp, Logger.cpp gGetLoggingLevel'), ('cache filled only with what is stored', 'Configuration.cpp lookup / set'), ('counts taken out after all are copied', 'Reporting.cpp commit')], obs=['exceptions', 'deadlock detection', 'elements handed out and destroyed', 'stored counter values', 'values looked up'])
prop('C33', 'Time stamps name their moment and sleeps last as asked',
 'Every time stamp the library makes, in a log message, on the console, in the log file or with a counter, names a moment between the begin and the end of the call that made it, in the local time zone or in UTC as documented, whichever threads make stamps at the same time and whatever second, day, year or clock change is near. A log message also names the process, thread, file, line and function it came from. A sleep lasts at least as long as asked and ends soon after.',
 ['schedules', 'inputs'], 'For every moment and zone, every number of threads stamping together, every length of sleep, and ' + SCH + '.',
 'The tests print a time for a human to look at; a stamp that is wrong only across the turn of a second, or only when another thread stamps too, is never seen.',
 ['Utils.cpp', 'Timeval.cpp', 'Timeval.h', 'Logger.h', 'Logger.cpp', 'Threads.cpp', 'Reporting.cpp'],
 [('one reading of the clock per stamp', 'Utils.cpp timestr'), ('broken down into a buffer of the caller', 'Timeval.cpp isoTime'), ('times kept with a counter', 'Reporting.cpp create / clear / max / commit'), ('sleeps', 'Utils.cpp sleepf, Timeval.h msleep')], obs=['texts and numbers given', 'simulated clock around each call', 'stored times'])
prop('C34', 'Vectors keep their elements and release their storage once, also without memory',
 'A vector, bit vector or soft vector that is copied, cloned, concatenated, resized, filled or assigned holds the elements those operations define, and a segment, head, tail or alias refers to the same storage as its parent without owning it. Storage is released exactly once, also when ownership is handed on, to another thread too, and when memory for an operation cannot be had: then that operation fails with an exception and leaves its vector as it was or empty, and every other one untouched.',
 ['programs', 'fault_sequences'], 'For every sequence of vector operations and lengths, with the memory running out at any allocation, in several threads at once.', 'The tests print one short example, and no test has an allocation fail.',
 ['Vector.h', 'BitVector.h', 'BitVector.cpp'],
 [('ownership by data pointer', 'Vector.h VectorBase resize / shiftMem / makeAlias'), ('copy or alias', 'BitVector.h copy constructor / segment / cloneSegment'), ('copy or shift', 'Vector.h Vector copy constructors and assignments')], obs=['elements, sizes and ownership of every vector', 'blocks on the simulated heap'])
PURE = 'Pure function of its arguments: no schedule, clock, I/O, randomness or fault takes part, so there is nothing for a simulator to decide; input generation alone would be another technique. '
prop('P02', 'Bit fields read back what was written, across all word positions', 'Writing an integer into a bit vector at a position and width and reading it back gives the low bits of that integer, most or least significant first as requested, and pack and unpack are inverse up to padding.',
 ['inputs'], 'For every position, width and value.', 'The tests print a handful of values.', ['BitVector.h', 'BitVector.cpp'], [('field access', 'BitVector.cpp peekField / fillField / pack / unpack')], na=PURE)
prop('P03', 'Parity words detect exactly the corruptions their polynomial detects', 'Parity computed over a bit vector and appended to it yields a zero syndrome, and every error pattern the generator detects yields a non-zero one.',
 ['inputs'], 'For every word, length and error pattern.', 'The test computes one word.', ['BitVector.h', 'BitVector.cpp'], [('shift register', 'BitVector.cpp Generator / Parity')], na=PURE)
prop('P04', 'Soft bit decisions and their statistics are consistent', 'Slicing a soft vector decides each bit by the nearest level, and reported energy and signal to noise values lie in their defined ranges.',
 ['inputs'], 'For every vector of soft values.', 'Untested.', ['BitVector.h', 'BitVector.cpp'], [('slicing', 'BitVector.cpp SoftVector')], na=PURE)
prop('P05', 'Fixed point arithmetic matches real arithmetic within its resolution', 'Sums, differences, products and quotients of 16.16 fixed point numbers equal the real results rounded to the resolution whenever they are in range.',
 ['inputs'], 'For every pair of operands.', 'The test samples a few pairs.', ['F16.h'], [('integer arithmetic', 'F16.h F16')], na=PURE)
prop('P06', 'Encoding and decoding of binary text are inverse', 'Encoding a byte string as hexadecimal or in a bit vector text form and decoding it gives the original.',
 ['inputs'], 'For every byte string.', 'A few literals are tested.', ['BitVector.cpp', 'Utils.cpp'], [('hex codec', 'BitVector.cpp hex / unhex')], na=PURE)
prop('P07', 'URL encoding is reversible and safe', 'An encoded string contains only characters allowed in a URL component and decodes to the original.',
 ['inputs'], 'For every byte string.', 'One string is tested.', ['URLEncode.cpp'], [('percent encoding', 'URLEncode.cpp')], na=PURE)
prop('P08', 'Configuration values are validated against their schema', 'A value is accepted for a key exactly when it satisfies the declared type, choices, range or pattern of the key.',
 ['inputs', 'configurations'], 'For every schema entry and value.', 'A few entries are tested.', ['Configuration.cpp', 'Configuration.h'], [('validation', 'Configuration.cpp isValidValue')], na=PURE + 'Cross checks read the table, whose concurrent and fault behaviour is covered by C14 to C17.')
prop('P09', 'Generated configuration schema text is well formed', 'The SQL and documentation text generated from the key schema contains every key once, properly quoted.',
 ['configurations'], 'For every schema.', 'Untested.', ['Configuration.cpp'], [('text generation', 'Configuration.cpp getDefaultSQL / getTeX')], na=PURE)
prop('P10', 'String helpers split, trim, match and format as documented', 'Splitting, trimming, prefix matching, formatting, regular expression matching and key value parsing return what their documentation says for every input, without reading or writing out of bounds.',
 ['inputs'], 'For every string.', 'A few literals are tested.', ['Utils.cpp', 'Utils.h', 'Regexp.h', 'Configuration.cpp'], [('string helpers', 'Utils.cpp'), ('simple key value parser', 'Configuration.cpp SimpleKeyValue')], na=PURE)
