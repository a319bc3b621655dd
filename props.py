"""The claimed properties: which harness decides each, with what focus and budget."""
BASE_ASSUME = ['interleavings are sequentially consistent: the simulator switches threads at synchronisation calls, atomics and instrumented memory accesses, and reports unordered conflicting accesses as data races instead of simulating weak memory',
               'exploration: seeded sampling of schedules and faults, not exhaustive']
RT = 'real threads run one at a time under the simulator: pthread mutexes, condition variables, thread start/join, once-flags, function-local statics, atomics, clocks, sleeps, heap and mapping system calls are the simulator\'s'

DB_REAL = ['lexer, parser, semantic analysis', 'src/catalog/SerialScheduler.cpp and DatabaseCommand.cpp', 'catalog, types, pools', 'query graph, plan enumerators, optimiser', 'src/backend/Interpreter.cpp and StackMachine.cpp', 'row, column and PAX stores, data layouts, indexes, memory', 'DSV import']
DB_STUB = [RT, 'WebAssembly backend not built (needs V8)', 'HeuristicSearch plan enumerator not built']
DB_RULE = 'Each run: 1-4 clients issue generated statements (definition, insertion, import, 28 query shapes, indexes, refused statements) singly, in batches, through the scheduler and in transactions over a randomly chosen layout, store, plan enumerator and plan table, under a seeded schedule; then a search looks for an order of the statements that respects real time and explains every answer, diagnosis and the final contents by a reference model; non-trivial: every run. '
PROPS = {
    'C01': dict(harness='db', quick_s=45, thorough_s=1200, rule=DB_RULE, real=DB_REAL, stub=DB_STUB, assumptions=BASE_ASSUME),
    'C02': dict(harness='sched', quick_s=45, thorough_s=900, ignore=['answer', 'diagnostics'],
        rule='Each run: 1-4 clients open transactions, submit commands (valid, failing, malformed; several outstanding), wait, commit, abort and autocommit under a seeded schedule with spurious wake-ups, optionally with shutdown at a random point; every execution of a command is checked against submission order and against the transaction that is running; non-trivial: at least one command was executed.',
        real=['src/catalog/SerialScheduler.cpp', 'src/catalog/Scheduler.cpp', 'lexer, parser, semantic analysis, catalog'], stub=[RT, 'what a command does: instructions registered by the harness, so that their execution can be observed, prolonged and made to fail'], assumptions=BASE_ASSUME),
    'C03': dict(harness='sched', quick_s=45, thorough_s=900, ignore=['order', 'isolation'],
        rule='As C02; every future must become ready exactly once with the outcome, shutdown must terminate with commands outstanding, and no thread may be left unable to run.',
        real=['src/catalog/SerialScheduler.cpp', 'src/catalog/Scheduler.cpp', 'src/catalog/Catalog.cpp (destruction)', 'lexer, parser, semantic analysis, catalog'], stub=[RT, 'what a command does: instructions registered by the harness, so that their execution can be observed, prolonged and made to fail'], assumptions=BASE_ASSUME),
    'C04': dict(harness='db', focus='reject', quick_s=45, thorough_s=1200, rule=DB_RULE + 'A third of the statements is malformed, wrong or fails while executing; in half of the runs mappings and memory files fail.', real=DB_REAL, stub=DB_STUB, assumptions=BASE_ASSUME),
    'C05': dict(harness='rwlock', quick_s=45, thorough_s=900, ignore=['overtaking', 'upgrade-refused', 'try-refused', 'deadlock', 'no-progress'],
        rule='Each run: 2-5 threads execute a generated script of shared/exclusive/upgrade/try acquisitions and lock-object moves on 1-2 locks under a seeded schedule with spurious wake-ups; non-trivial: at least one section was entered.',
        real=['the whole reader/writer lock (include/mutable/util/reader_writer_lock.hpp)'], stub=[RT], assumptions=BASE_ASSUME),
    'C06': dict(harness='rwlock', quick_s=45, thorough_s=900, ignore=['exclusion', 'ownership', 'upgrade-atomicity', 'data-race'],
        rule='As C05; a run ends when every thread finished, so lost wake-ups, missed hand-overs and deadlocks show up as a state in which no thread can run.',
        real=['the whole reader/writer lock (include/mutable/util/reader_writer_lock.hpp)'], stub=[RT], assumptions=BASE_ASSUME),
    'C07': dict(harness='pool', quick_s=40, thorough_s=900,
        rule='Each run: 2-5 threads internalise, copy, move, exchange and drop references in three pools (strings, plain objects, a class hierarchy) with failing allocations; non-trivial: something was internalised.',
        real=['include/mutable/util/Pool.hpp', 'include/mutable/util/reader_writer_lock.hpp'], stub=[RT], assumptions=BASE_ASSUME),
    'C08': dict(harness='dsv', quick_s=40, thorough_s=900,
        rule='Each run: 1-3 generated files (every type, dialect, header option, column order, row limit; in half of the runs with damaged values, rows and bytes or cut at a random byte) are imported through the whole system between insertions, while the reads of the file are short, interrupted or fail and opening it may fail; after every import the table must read as the rows a reference reader finds in the bytes (a prefix of them if a read failed), and there is a diagnosis exactly if something is wrong. Non-trivial: every run.',
        real=['src/io/DSVReader.cpp', 'iostreams of the C++ library', 'lexer, parser, semantic analysis', 'src/catalog/SerialScheduler.cpp and DatabaseCommand.cpp', 'Interpreter and StackMachine', 'stores and data layouts'], stub=[RT, 'open and read of the imported file: really executed, but the simulator chooses how much is read and which calls fail', 'the file itself: a memory file'], assumptions=BASE_ASSUME),
    'C09': dict(harness='stream', quick_s=40, thorough_s=900,
        rule='Each run: a generated stream of well-formed, malformed, damaged and truncated statements (18 forms and 36 malformed ones, white space and comments anywhere) is either lexed and parsed, or processed as a client session through the scheduler, from an input that delivers it byte-, line- or chunk-wise, or from a file whose reads are short, interrupted or fail, through a tiny buffer, ending or throwing at a random byte; what the whole stream yields must be what its statements yield one by one, insertions and queries must also agree with a model of the table, malformed statements must be diagnosed, and at every wait for input everything complete must have been answered. Non-trivial: every run.',
        real=['src/lex/Lexer.cpp', 'src/parse/Parser.cpp and Sema.cpp', 'src/mutable.cpp process_stream', 'src/catalog/SerialScheduler.cpp and DatabaseCommand.cpp', 'Interpreter and StackMachine'], stub=[RT, 'the input stream: a stream buffer of the harness, or a file stream whose reads the simulator shortens and fails'], assumptions=BASE_ASSUME + ['nesting of expressions is bounded']),
    'C10': dict(harness='memory', quick_s=30, thorough_s=600,
        rule='Each run: a generated sequence of allocating, mapping into address spaces, writing and releasing, with mmap, ftruncate and operator new failing; contents, aliases, mappings and file size are checked after every step.',
        real=['src/util/memory.cpp'], stub=['mmap, munmap, ftruncate and memfd_create really execute, but the simulator chooses the addresses and which calls fail'], assumptions=['exploration: seeded sampling of operation and fault sequences, not exhaustive']),
    'C11': dict(harness='listalloc', quick_s=30, thorough_s=600,
        rule='Each run: a generated sequence of allocations, releases, moves and list operations on three allocators with mmap and malloc failing; contents and disjointness of all live allocations are checked after every step.',
        real=['include/mutable/util/list_allocator.hpp', 'include/mutable/util/malloc_allocator.hpp', 'include/mutable/util/ADT.hpp (doubly_linked_list)'], stub=['mmap and malloc really execute, but the simulator chooses the addresses and which calls fail'], assumptions=['exploration: seeded sampling of operation and fault sequences, not exhaustive']),
    'C12': dict(harness='db', focus='index', quick_s=45, thorough_s=1200, rule=DB_RULE + 'Half of the statements create, drop or query indexes (array and learned, every key type); what a look-up through an index yields must be the rows a scan of the table finds, or the index must not be offered.', real=DB_REAL, stub=DB_STUB, assumptions=BASE_ASSUME),
    'C13': dict(harness='db', focus='mvcc', quick_s=45, thorough_s=1200, rule=DB_RULE + 'All tables are multi-versioned and every third operation is a transaction of several statements.', real=DB_REAL, stub=DB_STUB, assumptions=BASE_ASSUME),
    'C14': dict(harness='timer', quick_s=30, thorough_s=600,
        rule='Each run is one of: a generated sequence of starting, stopping, destroying, restarting and clearing measurements of a timer, with sections ending by exceptions; statements issued by 1-4 clients with times reported; loading indexes, some of which fails. Meanwhile the wall clock is set forwards and backwards at random readings, and reads are slow. Durations are compared with the simulated monotonic time around them. Non-trivial: every run.',
        real=['include/mutable/util/Timer.hpp and src/util/Timer.cpp', 'the whole system below the statements, as for C01'], stub=[RT, 'clocks: simulated'], assumptions=BASE_ASSUME),
}
