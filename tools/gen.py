#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts live here, the checks in props.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
from props import PROPS
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, na=None, hook=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)), na))
SCHED = ['src/catalog/Scheduler.cpp', 'src/catalog/SerialScheduler.cpp', 'include/mutable/catalog/Scheduler.hpp', 'src/catalog/SerialScheduler.hpp']

prop('C01', 'Concurrent clients see one serial order of their statements',
  'When several clients issue statements at the same time, every answer each of them gets (rows, diagnostics) and the final database contents are those of executing all statements one after the other in some order that respects each client\'s own order and never puts a statement before one that had already been answered when it was issued. This holds under every interleaving of clients and worker, for every store, layout, plan enumerator and execution configuration that can be selected.',
  ['schedules', 'histories', 'configurations', 'programs'], 'every number of clients, every statement mix, every interleaving of client threads and the query worker, every selectable configuration',
  'The tests run one client whose statements are executed strictly one after the other; they never have two statements in flight.',
  SCHED + ['src/mutable.cpp', 'src/catalog/DatabaseCommand.cpp', 'src/catalog/Type.cpp', 'src/catalog/Catalog.cpp', 'src/backend/Interpreter.cpp', 'src/storage/PaxStore.cpp'],
  [('one worker takes commands from a locked queue', 'src/catalog/SerialScheduler.cpp'), ('autocommit: begin, schedule, wait, commit', 'src/catalog/Scheduler.cpp'), ('internalised identifiers and types shared by client threads', 'include/mutable/util/Pool.hpp')],
  ['answers printed by SELECT', 'diagnostics of each client', 'contents of the stores at quiescence'])
prop('C02', 'Commands of a transaction run in submission order, uninterrupted',
  'The commands of a transaction are executed exactly in the order in which they were submitted, and from its first command until it is committed or aborted no command of any other transaction is executed. Other transactions proceed once it has ended, and every transaction whose owner keeps working gets its turn.',
  ['schedules', 'histories'], 'every interleaving of clients that open, feed, commit and abort transactions with one or several outstanding commands',
  'No existing test submits more than one command per transaction or runs two transactions at a time.',
  SCHED, [('ordering of the command queue', 'src/catalog/SerialScheduler.cpp CommandQueue::push/pop/stop_transaction')], ['order in which commands start and finish', 'answers to the submitting client'])
prop('C03', 'Every submitted command is answered exactly once; no client waits forever',
  'Whoever submits a command gets exactly one answer - the outcome of its execution, or a refusal if the scheduler is being shut down - no matter when other clients submit, when transactions end, or when the scheduler shuts down. No execution outlives its answer, no client and no worker blocks forever, and shutting down terminates.',
  ['schedules', 'crash_points', 'fault_sequences'], 'every interleaving of submissions, transaction ends and shutdown; spurious wake-ups; statements that fail while executing',
  'The tests shut the scheduler down only when nothing is in flight, and from the main thread.',
  SCHED, [('promise per queued command', 'src/catalog/SerialScheduler.cpp'), ('draining of the queue on close', 'src/catalog/SerialScheduler.cpp CommandQueue::close'), ('destructor joins the worker', 'src/catalog/SerialScheduler.cpp ~SerialScheduler')], ['futures returned to clients', 'worker termination'])
prop('C04', 'A rejected or failing statement leaves no trace',
  'A statement that is rejected (lexically, syntactically or semantically) or whose execution fails or is refused for lack of resources changes neither catalog nor table contents, is diagnosed to the client that issued it and to nobody else, and neither it nor its diagnosis prevents statements of this or any other client from being executed correctly afterwards. Whoever submitted it learns that it failed. (What an import does with the rows before a malformed one is part of C08.)',
  ['schedules', 'inputs', 'fault_sequences', 'histories'], 'every mix of valid and invalid statements issued concurrently, with read and allocation failures during execution',
  'The tests check that bad statements are reported, each on a fresh process or a fresh catalog, with no other statement in flight.',
  SCHED + ['src/mutable.cpp', 'src/catalog/DatabaseCommand.cpp', 'include/mutable/util/Diagnostic.hpp', 'src/parse/Sema.cpp'],
  [('diagnostics object per client', 'src/mutable.cpp'), ('error check before execution', 'src/catalog/SerialScheduler.cpp schedule_thread')], ['diagnostic streams of each client', 'catalog and table contents afterwards'])
prop('C05', 'The reader/writer lock excludes, and an upgrade is atomic',
  'While one owner holds the lock exclusively nobody else holds it in any mode, and data accessed only under the lock in the matching mode is never accessed by two threads in conflicting ways without ordering. A lock object owns exactly what was acquired through it - across moving and assigning it, releasing and its destruction - and a successful upgrade from shared to exclusive happens without anybody else holding the lock exclusively in between.',
  ['schedules', 'histories'], 'every interleaving of any number of threads acquiring, trying, upgrading, moving and releasing, with spurious wake-ups',
  'The unit tests exercise a few fixed sequences, mostly from a single thread.',
  ['include/mutable/util/reader_writer_lock.hpp'], [('mutex, two condition variables and counters', 'include/mutable/util/reader_writer_lock.hpp reader_writer_mutex'), ('ownership of lock objects', 'include/mutable/util/reader_writer_lock.hpp reader_writer_lock/read_lock/write_lock/upgrade_lock')], ['what is held by whom at every step', 'conflicting unordered accesses'])
prop('C06', 'The reader/writer lock lets everybody through eventually',
  'Whenever no thread holds the lock and some thread wants it, some waiting thread gets it: no acquisition, release, refused try or refused upgrade ever leaves waiting threads behind with nobody to wake them. Of several holders that want to upgrade at most one is admitted, it succeeds once the other shared holders have left, and the others are refused instead of deadlocking; a shared acquisition does not overtake a waiting upgrade; a try is refused only if the lock is held in a conflicting way or somebody is waiting for it.',
  ['schedules', 'histories'], 'every interleaving of any number of threads, with spurious wake-ups; wake-ups delivered to any waiter',
  'Lost wake-ups need a particular order of waiting, upgrading and releasing threads that timing-based tests do not hit.',
  ['include/mutable/util/reader_writer_lock.hpp'], [('notifications on release and on upgrade', 'include/mutable/util/reader_writer_lock.hpp reader_writer_mutex')], ['a state in which no thread can run', 'results of try and upgrade'])
prop('C07', 'Internalised objects are unique, stable and counted exactly',
  'Two references obtained from one thread-safe pool, by whatever threads and in whatever order, compare equal exactly if the values they were made from are equal, and every reference keeps denoting its unchanged value for as long as it lives. The reference count of an object equals the number of references to it whenever nobody is creating or dropping any, and a failed internalisation (out of memory) leaves the pool usable and existing references intact.',
  ['schedules', 'histories', 'fault_sequences'], 'every interleaving of threads internalising, copying, moving, exchanging and dropping references; failing allocations at any point',
  'The pool tests are single threaded and never run out of memory.',
  ['include/mutable/util/Pool.hpp', 'include/mutable/util/reader_writer_lock.hpp'], [('table protected by a reader/writer lock with upgrade', 'include/mutable/util/Pool.hpp operator()'), ('atomic counters', 'include/mutable/util/Pool.hpp Pooled')], ['address and value behind each reference', 'reference counts at quiescence', 'conflicting unordered accesses'])
prop('C08', 'Importing a DSV file reads exactly its rows, or fails visibly',
  'Importing a delimiter-separated file appends exactly the rows the file contains, in order, after the rows already stored, and with the values written there - for every type, delimiter, quote and escape character, header option, NULL, order and subset of columns and row limit - however the bytes are delivered (short and interrupted reads, buffer boundaries). Malformed, over-long or out-of-range values (stored as NULL), rows with too few or too many cells or NULL where it is not allowed (not stored), a premature end of the input and a failing read (a prefix of the rows is stored) are diagnosed, and never crash, hang, change rows already stored, affect other rows, or silently store a value the file does not contain. A well-formed file is not diagnosed.',
  ['inputs', 'fault_sequences', 'crash_points'], 'every content (quoting, escapes, delimiters, headers, NULLs, every type), every chunking of the input, truncation and read errors at every position',
  'The tests feed complete well-formed strings from memory, in one piece.',
  ['src/io/DSVReader.cpp', 'include/mutable/io/Reader.hpp', 'src/catalog/DatabaseCommand.cpp', 'src/parse/Sema.cpp'], [('character-wise reader with one character of look-ahead', 'src/io/DSVReader.cpp'), ('rows appended first, written or dropped afterwards', 'src/io/DSVReader.cpp operator()'), ('options of the import', 'src/parse/Sema.cpp DSVImportStmt'), ('opening the file', 'src/catalog/DatabaseCommand.cpp ImportDSV')], ['rows stored in the table', 'diagnostics'])
prop('C09', 'Reading a statement stream is independent of chunking, and always ends',
  'The commands read from a stream of statements, their answers and their diagnostics with positions depend only on the bytes of the stream: not on how the bytes are split into reads, on when they arrive or on which buffer delivers them. A complete statement is processed as soon as the byte behind its semicolon has arrived. Every malformed statement is diagnosed, is not executed, and affects neither the statements before it nor those after it, which yield what they yield on their own. A stream that is cut or fails at any byte yields the complete statements before that point, and reading ends without crashing for any bytes of bounded nesting.',
  ['inputs', 'crash_points', 'fault_sequences'], 'every sequence of well-formed, malformed and damaged statements, white space and comments; every chunking; end or failure of the stream at every position',
  'The tests parse complete, single statements from strings held in memory.',
  ['src/lex/Lexer.cpp', 'src/parse/Parser.cpp', 'src/parse/Sema.cpp', 'src/mutable.cpp', 'include/mutable/lex', 'include/mutable/parse'], [('look-ahead and put-back on the stream', 'src/lex/Lexer.cpp'), ('error recovery by follow sets', 'src/parse/Parser.cpp and Parser.hpp'), ('commands with syntactic errors are refused', 'src/catalog/SerialScheduler.cpp')], ['parsed commands', 'answers on the standard output', 'diagnostics with positions', 'when the input is awaited'])
prop('C10', 'Rewired memory stays consistent when system calls fail',
  'Live allocations never share addresses or parts of the memory file and keep their contents, and every page mapped into an address space shows exactly the page of the allocation that was mapped there last. Any failure of a system call or of an allocation inside an operation is reported and leaves existing allocations, address spaces and mappings as they were, and once everything is released no mapping or descriptor remains and the space behind the last live allocation is reused.',
  ['fault_sequences', 'histories'], 'every sequence of allocating, mapping, writing and releasing in any order, with failures of mapping, resizing and allocation at any point',
  'The tests never make a system call fail and release in simple orders.',
  ['src/util/memory.cpp', 'include/mutable/util/memory.hpp'], [('ordered list of allocations in a memory file', 'src/util/memory.cpp LinearAllocator'), ('fixed remapping', 'src/util/memory.cpp Memory::map')], ['contents through every mapping', 'mappings, descriptors and size of the memory file'])
prop('C11', 'General allocators hand out valid, disjoint memory or fail cleanly',
  'Every allocation of the general purpose allocators is large enough, aligned as requested, backed by memory and disjoint from every other live allocation, and its contents do not change until it is released, whatever else is allocated, released, moved or swapped. When the operating system refuses memory the request fails visibly without disturbing anything, later requests succeed once memory is available, and all memory is returned in the end; containers on top keep exactly their elements.',
  ['fault_sequences', 'histories', 'inputs'], 'every sequence of sizes, alignments and releases in any order; refusals at any point',
  'The tests use few sizes and alignments and the OS never refuses.',
  ['include/mutable/util/list_allocator.hpp', 'include/mutable/util/allocator_base.hpp', 'include/mutable/util/malloc_allocator.hpp', 'include/mutable/util/allocator.hpp', 'include/mutable/util/ADT.hpp'], [('chunk list with reference counts', 'include/mutable/util/list_allocator.hpp')], ['addresses, alignment and contents of live allocations', 'mappings left at the end'])
prop('C12', 'An index answers exactly for the rows the table has',
  'Whenever an index is used to answer a query or is looked up directly, it yields exactly the rows currently visible in its table whose key satisfies the predicate, each once, for every index kind. Writing to the table by any means makes outdated indexes unusable until they are rebuilt, and creating or dropping an index while other clients read and write never yields a wrong answer.',
  ['histories', 'schedules', 'inputs'], 'every history of creating, dropping and using indexes and writing to their tables from several clients; every key distribution',
  'The tests query freshly built indexes over fixed keys, with no writes in between.',
  ['src/storage/Index.cpp', 'include/mutable/storage/Index.hpp', 'src/catalog/DatabaseCommand.cpp', 'include/mutable/catalog/Schema.hpp', 'src/catalog/Schema.cpp'], [('bulk loading and finalising', 'src/storage/Index.cpp'), ('validity flag per index', 'include/mutable/catalog/Schema.hpp Database')], ['results of look-ups', 'results of SELECT with and without indexes'])
prop('C13', 'A multi-versioned table shows each transaction the versions valid at its start',
  'On a multi-versioned table a transaction reads exactly its own writes and the versions that were current when it started - rows written by transactions that ended before, never rows written by transactions that started later - under every query, alias, join and configuration, and its answers equal those on a table without versioning when nothing runs at the same time. The columns that implement versioning are never visible to users and never change the result of a statement.',
  ['schedules', 'histories', 'configurations'], 'every interleaving of clients reading and writing versioned tables, every query shape',
  'The tests inspect the decorated schema and a few plans; they run no concurrent transactions.',
  ['src/catalog/TableFactory.cpp', 'src/catalog/Schema.cpp', 'src/catalog/DatabaseCommand.cpp', 'src/IR/QueryGraph.cpp', 'src/backend/Interpreter.cpp'], [('hidden timestamp attributes and an added filter', 'src/catalog/Schema.cpp MultiVersioningTable')], ['answers of SELECT', 'visible schema'])
prop('C14', 'Reported times are those of the measured sections, whatever the clock does',
  'A timer records every measurement under the name it was started with, exactly once, with a duration that is never negative and covers exactly the section from its start to its end, even if the time of the system is set forwards or backwards meanwhile, the section ends by an exception, or an operation inside it fails; totals and printed values agree with what was recorded, a measurement in progress is neither restarted nor counted as finished, and ending one never affects another. When times are reported per statement, each is reported once, with the statement it belongs to - also if other clients issue statements at the same time - and is no longer than the statement took; the sections of a statement that follow one another together take no longer than the statement.',
  ['fault_sequences', 'histories', 'schedules'], 'every nesting and order of measurements, every sequence of clock adjustments, slow reads, every interleaving of clients whose times are reported',
  'The tests use the real clock, which does not jump, and a single timer used by a single thread.',
  ['src/util/Timer.cpp', 'include/mutable/util/Timer.hpp', 'src/catalog/DatabaseCommand.cpp', 'src/catalog/SerialScheduler.cpp', 'src/mutable.cpp', 'src/storage/Index.cpp'], [('begin and end time points per name', 'include/mutable/util/Timer.hpp'), ('one timer for the whole process', 'include/mutable/catalog/Catalog.hpp timer()'), ('replacing the timer while an index is loaded', 'src/storage/Index.cpp')], ['recorded measurements', 'printed times'])

PURE = 'A pure function of its input: no thread, clock, I/O, fault or other party takes part in it, so there is no schedule or fault sequence for a simulator to decide; varying inputs alone would be input generation, another technique. '
prop('C20', 'Every query plan computes the relation the SQL text denotes',
  'For every database and every supported query, the rows produced equal those of SQL\'s standard semantics with three-valued logic, for every order in which joins, filters, groupings and sorts are arranged.',
  ['inputs', 'programs', 'configurations'], 'every query and database', 'The tests sample queries over two small fixed tables.',
  ['src/IR', 'src/backend/Interpreter.cpp', 'src/backend/StackMachine.cpp'], [('plan enumeration and interpretation', 'src/IR, src/backend')], ['query results'], na=PURE + 'C01 and C13 run queries as workload, but only as far as concurrency needs distinguishable answers.')
prop('C21', 'Stored values read back unchanged in every layout', 'A value or NULL stored in a row of a table reads back unchanged, for every type, data layout and store, and neighbouring values are unaffected.',
  ['inputs', 'configurations'], 'every schema, layout and value', 'The tests cover a few schemas.', ['src/storage/DataLayout.cpp', 'src/storage/PaxStore.cpp', 'src/storage/RowStore.cpp', 'src/storage/ColumnStore.cpp', 'src/backend/StackMachine.cpp'], [('layout description', 'src/storage/DataLayoutFactory.cpp')], ['stored bytes'], na=PURE)
prop('C22', 'Plan enumerators return valid plans of minimal cost', 'Exhaustive plan enumerators agree on the cost of the best plan, and every enumerator returns a plan that joins every relation exactly once and applies every predicate.',
  ['inputs'], 'every query graph and cost function', 'The tests use a few graphs.', ['src/IR/PlanEnumerator.cpp', 'src/IR/PlanTable.cpp', 'include/mutable/IR/HeuristicSearchPlanEnumerator.hpp', 'include/mutable/util/HeuristicSearch.hpp'], [('dynamic programming over subsets', 'src/IR/PlanEnumerator.cpp')], ['plan tables'], na=PURE)
prop('C23', 'Normalising a predicate preserves its meaning', 'Converting a predicate to conjunctive normal form yields an equivalent predicate under three-valued logic.',
  ['inputs'], 'every predicate and assignment', 'The tests use some predicates.', ['src/IR/CNF.cpp'], [('CNF construction', 'src/IR/CNF.cpp')], ['evaluation of both'], na=PURE)
prop('C24', 'Printing and parsing statements are inverse', 'Printing a parsed statement and parsing the result yields the same statement.',
  ['inputs'], 'every statement', 'The tests use some statements.', ['src/parse/Parser.cpp', 'src/parse/ASTPrinter.cpp'], [('printer', 'src/parse/ASTPrinter.cpp')], ['ASTs'], na=PURE)
prop('C25', 'Expressions get one well-defined type', 'Semantic analysis accepts exactly the well-typed statements and gives every expression the type that its evaluation yields.',
  ['inputs'], 'every statement', 'The tests use some expressions.', ['src/parse/Sema.cpp', 'src/catalog/Type.cpp'], [('semantic analysis', 'src/parse/Sema.cpp')], ['types'], na=PURE)
prop('C26', 'Set, subset and graph utilities are exact', 'Small bit sets, subset enumeration, adjacency matrices and spanning trees yield what their mathematical definitions say.',
  ['inputs'], 'every argument', 'The tests sample arguments.', ['include/mutable/util/ADT.hpp', 'include/mutable/util/AdjacencyMatrix.hpp', 'include/mutable/util/fn.hpp'], [('bit tricks', 'include/mutable/util/fn.hpp')], ['results'], na=PURE)
prop('C27', 'Cardinality estimates are sound and reproducible', 'Cardinality estimators yield finite, non-negative estimates; injected cardinalities are used as given; learned estimators yield the same model from the same data.',
  ['inputs', 'configurations'], 'every data set and query', 'The tests use small data sets.', ['src/catalog/CardinalityEstimator.cpp', 'src/util/Spn.cpp', 'src/util/SpnWrapper.cpp', 'src/util/RDC.cpp', 'src/util/Kmeans.cpp'], [('estimators', 'src/catalog/CardinalityEstimator.cpp')], ['estimates'], na=PURE)
prop('C28', 'The compiling backend computes the same results as the interpreter', 'For every query, executing it through the WebAssembly backend yields the result of the interpreter.',
  ['inputs', 'programs', 'configurations'], 'every query, database and backend option', 'The end-to-end tests of that backend need V8.',
  ['src/backend/WasmOperator.cpp', 'src/backend/V8Engine.cpp'], [('code generation', 'src/backend')], ['query results'], na='The backend needs V8, which is neither installed nor built here; and the property is a pure function of query and data.')

def main():
    with open(f'{HERE}/properties.jsonl', 'w') as f:
        for p, _ in P: f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p, reason in P:
        i = p['id']
        if i in PROPS:
            D = PROPS[i]
            checks.append(dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'VERIF_TIER=thorough python3 check.py {i}', evidence_file=f'evidence/{i}.json',
                technique='deterministic simulation with fault injection: seeded search over schedules and faults', level='exploration',
                level_note=D.get('note', 'Seeded sampling of schedules, faults and workloads on the real code, each run exactly repeatable; evidence, not proof. Assumes sequentially consistent interleavings (unordered conflicting accesses are reported as races instead).')))
        else: na.append(dict(property=i, reason=reason or 'no check yet'))
    m = dict(version=1, setup_cmd='python3 build.py --setup', checks=checks, not_applicable=na,
        hooks=dict(guard='MUTABLE_SIMULATION', enable='build.py compiles /repo with -DMUTABLE_SIMULATION -fsanitize=thread and links its own runtime in place of the sanitizer\'s; the repository contains no code under the guard', source_commits=[]))
    json.dump(m, open(f'{HERE}/MANIFEST.json', 'w'), indent=1); open(f'{HERE}/MANIFEST.json', 'a').write('\n')
    for p, _ in P: assert len(p['title']) <= 80, p['title']
main()
