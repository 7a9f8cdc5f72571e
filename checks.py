"""What each property's check runs. See DESIGN.md."""
CHECKS = {}
RULES = {}


def check(pid, src, rule, runs, **kw):
    CHECKS[pid] = dict(src=src, runs=runs, **kw)
    RULES[pid] = rule


def run(flavor, mode='main', quick=None, thorough=None, **kw):
    r = dict(flavor=flavor, mode=mode, args=dict(quick or {}), **kw)
    r['thorough_args'] = dict(thorough or {})
    return r


BIG = dict(cases=1000000, budget=240)

check('C01', 'c01.cpp',
      'A case is a random pool (kind, queue size, workers), loggers, sinks, levels, producer threads and messages, '
      'all derived from the seed; it is non-trivial with at least two producers; two cases are the same when '
      'configuration and order of arrival at the sinks agree.',
      [run('plain', quick=dict(cases=4000, budget=9, per=80), thorough=BIG),
       run('clang-noise', quick=dict(cases=4000, budget=11, per=80), thorough=BIG),
       run('asan-notls', quick=dict(cases=4000, budget=9, per=80), thorough=BIG)],
      parallel=2, expect={'messages': 5000},
      technique='randomised stress of the real pools with injected delays, exactly-once and content oracle at recording sinks, ASan/UBSan',
      note='Sampled schedules, not all of them; assumes memory allocation succeeds.')

STD = dict(cases=100000, budget=9)
check('C02', 'c02.cpp',
      'A case is a random pool or pair of pools (or synchronous loggers), producer threads switching between pools, '
      'stalls and flushes, or threads going to and fro between pools while hundreds of others come and go; non-trivial '
      'with at least two producers; cases are told apart by configuration and order of arrival.',
      [run('plain', quick=STD, thorough=BIG), run('clang-noise', quick=dict(STD, budget=11), thorough=BIG),
       run('plain-notls', quick=dict(STD, budget=6), thorough=BIG),
       run('plain', 'churn', quick=dict(STD, budget=8), thorough=dict(BIG, budget=60)),
       run('plain-notls', 'churn', quick=dict(STD, budget=4), thorough=dict(BIG, budget=60))],
      parallel=2, expect={'records_in_order': 5000, 'cases_two_pools': 5, 'cases_churn': 20},
      technique='randomised stress with injected delays; per-thread sequence numbers checked at recording sinks',
      note='Sampled schedules, not all of them.')
check('C03', 'c03.cpp',
      'A case is a random pool (or synchronous loggers), levels, flush levels, shared, slow or throwing sinks and '
      'threads that log and flush; non-trivial with several threads or messages; cases are told apart by '
      'configuration and the order of log and flush events.',
      [run('plain', quick=STD, thorough=BIG), run('clang-noise', quick=dict(STD, budget=11), thorough=BIG),
       run('plain-notls', quick=dict(STD, budget=6), thorough=BIG),
       run('plain', 'stall', quick=dict(cases=12, stall_ms=3300), thorough=dict(cases=60, stall_ms=33000))],
      parallel=3, expect={'barriers_checked': 200, 'flush_level_messages': 500, 'stalled_flushes': 12},
      technique='randomised stress with injected delays; trace checker over log and flush events, hang watchdog',
      note='Sampled schedules, not all of them; a hang is no progress for 40 s, twice.')
check('C04', 'c04.cpp',
      'A case tears a pool down at a random point of progress, or runs several pools at once and in sequence with the '
      'same threads, or replaces and closes pools through the registry, or lets a child process exit normally; '
      'non-trivial with more than one message or pool; cases are told apart by configuration and outcome.',
      [run('plain', quick=STD, thorough=BIG), run('clang-noise', quick=dict(STD, budget=10), thorough=BIG),
       run('asan', quick=dict(STD, budget=8), thorough=BIG), run('asan-notls', quick=dict(STD, budget=5), thorough=BIG),
       run('plain', 'exit', quick=dict(STD, budget=5), thorough=BIG), run('asan', 'exit', quick=dict(STD, budget=5), thorough=BIG)],
      parallel=4, expect={'messages': 2000, 'process_exits': 5, 'pools_created': 20},
      technique='randomised teardown stress with injected delays, accounting oracle over calls, outputs and reports; ASan',
      note='Sampled schedules; thread ends are observed through callbacks and /proc/self/task.')
check('C05', 'c05.cpp',
      'A case stalls the sinks of a random pool under more messages than it can hold, lets single messages pass, then '
      'opens the sinks; cases are told apart by configuration and the number of calls that returned while stalled.',
      [run('plain', quick=STD, thorough=BIG), run('clang-noise', quick=dict(STD, budget=9), thorough=BIG),
       run('plain-notls', quick=dict(STD, budget=6), thorough=BIG),
       run('plain', 'long', quick=dict(cases=9, stall_ms=4000), thorough=dict(cases=24, stall_ms=65000, grow=1000000))],
      parallel=4, expect={'long_stalls': 9, 'exact_fill_checks': 20, 'bound_checks': 20, 'growth_checks': 20, 'releases': 20},
      technique='gated sinks; online monitor of the number of logging calls that returned while the sinks stall',
      note='Bound for the lockfree pool: queue size rounded up to whole blocks plus two blocks per producer. Upper bounds are checked without timing assumptions, '
           '"does not resume" means nothing happened for 15 s.')
check('C22', 'c22.cpp',
      'A case is a random pool, callback combination and workload (unused, all workers held at once, free running); '
      'or an invalid or extreme worker count; cases are told apart by configuration and the highest concurrency seen.',
      [run('plain', quick=STD, thorough=BIG), run('clang-noise', quick=dict(STD, budget=9), thorough=BIG),
       run('plain-notls', quick=dict(STD, budget=5), thorough=BIG), run('plain', 'limits')],
      parallel=2, expect={'full_occupancy_checks': 20, 'start_callbacks': 100, 'invalid_worker_counts': 15},
      technique='callback and sink event log with thread ids, checked per pool; occupancy monitor with gated sinks',
      note='Sampled schedules; worker counts up to 24 plus 1023, 1024 and invalid ones.')
check('C06', 'c06.cpp',
      'A case is a sink type, loggers on it (synchronous or on a random pool), threads, messages and, in most cases, a '
      'thread that keeps replacing the pattern; always at least two threads; cases are told apart by the order of '
      'threads and pattern versions in the output.',
      [run('plain', quick=STD, thorough=BIG), run('clang-noise', quick=dict(STD, budget=9), thorough=BIG),
       run('asan', quick=dict(STD, budget=7), thorough=BIG), run('tsan', quick=dict(STD, budget=9), thorough=BIG)],
      parallel=4, expect={'records_checked': 5000, 'pattern_replacements': 100, 'terminal_cases': 3, 'pipe_cases': 3},
      technique='randomised stress of thread-safe sinks with injected delays; every output byte compared with the records logged, pattern versions bounded by call intervals',
      note='Sampled schedules; pattern versions of asynchronous records are bounded from below only.')
check('C08', 'c08.cpp',
      'A case is a base name, limits, files that exist before, and one to three sinks that write records (some filling '
      'a file exactly, some too large for any file), or several threads writing through one sink; non-trivial when at '
      'least one roll or restart happened; cases are told apart by names, limits, record sizes and final number.',
      [run('plain', quick=STD, thorough=BIG), run('clang-noise', quick=dict(STD, budget=5), thorough=BIG),
       run('asan', quick=dict(STD, budget=8), thorough=BIG)],
      parallel=3, expect={'rolls': 2000, 'restarts': 100, 'threaded_cases': 50, 'invalid_arguments': 4, 'current_files_removed': 30, 'earlier_files_removed': 30},
      technique='randomised operation histories on the real sink; the whole directory is compared with a model after records, flushes and closings; ASan/UBSan',
      note='Rolling earlier than necessary is not reported; a maximum number of 0 is taken as a precondition violation.')
check('C09', 'c09.cpp',
      'A case is a set of file names, earlier contents and a history of opening (with and without truncation), logging, '
      'flushing, closing and changes from outside on up to six sinks, or concurrent sinks on one file, or a program '
      'executed while sinks are open; cases are told apart by names, record sizes and resulting contents.',
      [run('plain', quick=STD, thorough=BIG), run('clang-noise', quick=dict(STD, budget=5), thorough=BIG),
       run('asan', quick=dict(STD, budget=8), thorough=BIG)],
      parallel=3, expect={'comparisons': 2000, 'sinks_opened': 500, 'shared_files': 50, 'executed_programs': 10, 'modes_checked': 100},
      technique='randomised operation histories on real files; contents, directory tree and descriptors compared with a model after each operation',
      note='Runs as root, so permission failures are not met here (C10 injects them).')
check('C10', 'c10.cpp',
      'A case is a script of logging and flushing on a file or rolling sink and one fault point: the k-th to k+n-th call of '
      'open, fdopen, fwrite, fflush, fclose, fstat or mkdir on the log directory fails; or a failure made by the system '
      '(full device, size limit, descriptor limit, obstacles in the path); scripts without a fault are trivial; cases are '
      'told apart by script, function, call number, length and variant.',
      [run('plain', quick=STD, thorough=BIG), run('asan', quick=dict(STD, budget=9), thorough=BIG),
       run('plain', 'system', quick=dict(STD, budget=6), thorough=dict(BIG, budget=60)),
       run('asan', 'system', quick=dict(STD, budget=6), thorough=dict(BIG, budget=60))],
      parallel=4, level='fault_enumeration', expect={'fault_points': 200, 'fault_pairs': 50, 'faults_injected': 300, 'runs_on_existing_files': 50, 'full_device_runs': 3, 'obstacle_runs': 10, 'messages_read': 50},
      technique='fault injection at every libc call of generated scripts (interposed calls) and real resource limits; oracle over exceptions, reports, other sinks, file contents and descriptors',
      note='A failing fclose() of the handle that only truncates is not required to be reported.')
check('C19', 'c19.cpp',
      'A case is a history of operations on four queues of random capacity and one of five element types, or one of all '
      'histories of a given length over push, pop, copy, move and swap; a random case is non-trivial when it overwrote an '
      'element; cases are told apart by their history.',
      [run('plain', quick=dict(STD, budget=6), thorough=dict(BIG, budget=120)),
       run('asan', quick=STD, thorough=BIG), run('asan-dbg', quick=dict(STD, budget=5), thorough=dict(BIG, budget=120))],
      parallel=3, expect={'cases_overwriting': 100, 'exhaustive_histories': 2000, 'elements_tracked': 1000},
      technique='random and exhaustively enumerated operation histories on the real class; every observable compared with a list model after each operation, element lifetimes tracked; ASan/UBSan',
      note='pop_front() and front() on an empty valid queue are taken as precondition violations, as is self-move.')
check('C18', 'c18.cpp',
      'A case is a short concurrent history of two to four threads (searched for a sequential explanation), a long run of '
      'producers and consumers, a sequential history or a group of waiting threads; a short history is non-trivial when '
      'operations overlapped; cases are told apart by operations, results and their interleaving.',
      [run('plain', quick=STD, thorough=BIG), run('clang-noise', quick=dict(STD, budget=11), thorough=BIG),
       run('asan', quick=dict(STD, budget=7), thorough=BIG), run('tsan', quick=dict(STD, budget=7), thorough=BIG)],
      parallel=2, expect={'clock_steps': 50, 'histories_linearized': 1000, 'overlapping_histories': 300, 'long_runs': 10, 'overwritten': 100, 'discarded': 100, 'waiter_cases': 50},
      technique='recorded histories of concurrent calls checked for linearizability against a sequential queue; conservation and order checks over long runs; watch on waiting threads; ASan, TSan',
      note='Sampled schedules. The discard counter is compared when no call is in progress.')
check('C20', 'c20.cpp',
      'A case is a random queue (plain or blocking, three sets of block and index sizes), producers with and without tokens '
      'and consumers using all ways of taking out, or a filling of the preallocated memory, a group of waiting consumers, '
      'a semaphore workload or threads and queues coming and going; non-trivial when elements of several producers were interleaved or several threads waited; '
      'cases are told apart by configuration and order of arrival.',
      [run('plain', quick=STD, thorough=BIG), run('clang-noise', quick=dict(STD, budget=11), thorough=BIG),
       run('asan', quick=dict(STD, budget=9), thorough=BIG), run('plain', 'oom', quick=dict(STD, budget=5), thorough=BIG),
       run('asan', 'oom', quick=dict(STD, budget=5), thorough=BIG)],
      parallel=2, expect={'elements': 20000, 'plain_queue_cases': 50, 'blocking_queue_cases': 50, 'capacity_cases': 20, 'waiting_cases': 20, 'semaphore_cases': 20, 'allocation_failures': 20, 'history_cases': 50, 'history_swaps': 50, 'history_moves': 50, 'woken_at_the_end': 20, 'lifetime_cases': 100, 'lifetime_queues': 1000, 'lifetime_threads': 2000},
      technique='randomised stress with injected delays and allocation failures; exactly-once table, per-producer order at each consumer, object and allocation counts; ASan/UBSan',
      note='Sampled schedules on this x86 machine; weaker memory orders of other processors are not exercised.')
check('C13', 'c13.cpp',
      'A case is a pattern (generated, or one of a grid of all flags, sides, widths 0 to 70 and truncation, or one of all '
      'patterns up to five characters over the characters the parser cares about), custom flags, a line ending, a time zone '
      'and a sequence of messages; random cases are non-trivial with at least two different flags; cases are told apart by '
      'pattern and messages.',
      [run('plain', quick=STD, thorough=BIG), run('asan', quick=STD, thorough=BIG), run('plain', 'grid'), run('asan', 'grid')],
      parallel=4, expect={'formatted': 100000, 'grid_patterns': 10000, 'short_patterns': 50000, 'custom_flag_cases': 100, 'clones': 100, 'before_1970': 1000, 'forks': 5, 'same_pattern_again': 50},
      technique='generated and enumerated patterns and messages; output compared byte for byte with an independent renderer; ASan/UBSan',
      note='Times from 1843 to 2261; widths of up to twelve digits.')
check('C12', 'c12.cpp',
      'A case is a set of synchronous and asynchronous loggers sharing sinks, and a history of level changes (logger, sink, '
      'registry, global), backtrace switches and calls through all overloads including the free functions, or threads that '
      'log while levels change; non-trivial when some calls were output and some were not; cases are told apart by their history.',
      [run('plain', quick=STD, thorough=BIG), run('clang-noise', quick=STD, thorough=BIG), run('asan', quick=dict(STD, budget=7), thorough=BIG),
       run('tsan', quick=dict(STD, budget=7), thorough=BIG)],
      parallel=2, expect={'sink_decisions': 10000, 'disabled_calls': 1000, 'disabled_with_backtrace': 100, 'concurrent_calls_decided': 2000},
      technique='random histories of level changes and calls with a per-call oracle at recording sinks and a counting argument type; interval oracle under concurrency; TSan, ASan',
      note='Sink levels of asynchronous loggers are judged at the time the message is handled.')
check('C14', 'c14.cpp',
      'A case is a set of synchronous or asynchronous loggers with names of any bytes, one thread each, and random calls: '
      'format strings with literal braces and fields of 18 argument types with random specifications (automatic, positional, '
      'named, dynamic width), single values, literals, texts of any bytes up to a megabyte; cases are told apart by their texts.',
      [run('plain', quick=STD, thorough=BIG), run('clang-noise', quick=dict(STD, budget=8), thorough=BIG), run('asan', quick=STD, thorough=BIG),
       run('plain-notls', quick=dict(STD, budget=5), thorough=BIG)],
      parallel=2, expect={'records_checked': 20000, 'fields': 5000, 'named_fields': 500, 'plain_texts': 1000, 'huge_messages': 10, 'backtrace_records': 1000, 'forked_children': 10, 'stored_copies_read': 1000},
      technique='generated calls through all overloads; every record compared with an independent implementation of the format language and with values taken around the call; ASan/UBSan',
      note='File and function names are given as literals that outlive the record; local-dependent and hexadecimal float formats are not generated.')
check('C15', 'c15.cpp',
      'A case is a history of up to 80 registry operations over a few names with synchronous and asynchronous loggers, pools '
      'and global settings; non-trivial when the set of registered loggers changed more than once; cases are told apart by '
      'their history.',
      [run('plain', quick=STD, thorough=BIG), run('asan', quick=STD, thorough=BIG)],
      parallel=4, expect={'operations': 20000, 'refused': 500, 'records_compared': 10000, 'exec_all_calls': 200, 'flush_all_calls': 200},
      technique='random operation histories on the real registry; every observable (lookups, levels, patterns, rendered records, flushes, reports, lifetimes) compared with a model after each operation; ASan/UBSan',
      note='Single-threaded; C16 covers concurrency.')
check('C16', 'c16.cpp',
      'A case is a short concurrent history of two to four threads over up to three names, searched for a sequential explanation '
      'that also covers the state left over; or threads registering the same names at the same moment; or threads registering and '
      'removing their own names while others change global settings; a history is non-trivial when operations overlapped; cases '
      'are told apart by results and interleaving.',
      [run('plain', quick=STD, thorough=BIG), run('clang-noise', quick=dict(STD, budget=12), thorough=BIG),
       run('tsan', quick=dict(STD, budget=10), thorough=BIG), run('asan', quick=dict(STD, budget=7), thorough=BIG)],
      parallel=2, expect={'histories_linearized': 1000, 'overlapping_histories': 200, 'contested_names': 200, 'stress_runs': 10, 'settings_changed': 500},
      technique='recorded histories of concurrent calls checked for linearizability against a sequential registry; uniqueness, visibility, conservation and agreement checks under stress with injected delays; TSan, ASan',
      note='Sampled schedules. close() is not part of the histories: it takes effect in steps.')
check('C11', 'c11.cpp',
      'A case is a set of sinks that throw while logging or flushing, or whose formatter or custom flag throws, synchronous and asynchronous '
      'loggers on them, threads and messages, some with arguments that cannot be formatted; in some builds the system clock steps back and '
      'forth; non-trivial when something was thrown; cases are told apart by configuration and order of output.',
      [run('plain', quick=STD, thorough=BIG), run('clang-noise', quick=dict(STD, budget=8), thorough=BIG),
       run('plain-dbg', quick=dict(STD, budget=8), thorough=BIG), run('asan-dbg', quick=dict(STD, budget=8), thorough=BIG)],
      parallel=2, expect={'exceptions_thrown': 5000, 'reports_checked': 5000, 'failing_arguments': 1000, 'messages_delivered': 5000, 'workers_checked': 100, 'cases_with_clock_steps': 50},
      technique='injected exceptions of many types at every extension point; reports compared one to one with what was thrown, sinks with what was sent; builds with and without assertions; ASan/UBSan',
      note='what() without line breaks; exceptions not derived from std::exception are outside the property. Throwing streams are covered by throwing formatters in the same sink.')
check('C17', 'c17.cpp',
      'A case is a history of logging through all overloads, enabling, disabling and dumping a backtrace and changing levels on one '
      'synchronous or asynchronous logger, compared with a model; or threads that log while others dump or toggle the backtrace; '
      'non-trivial when something was dumped or several threads took part; cases are told apart by history or order of output.',
      [run('plain', quick=STD, thorough=BIG), run('clang-noise', quick=dict(STD, budget=11), thorough=BIG),
       run('asan', quick=dict(STD, budget=8), thorough=BIG), run('tsan', quick=dict(STD, budget=8), thorough=BIG)],
      parallel=2, expect={'backtracers_read': 500, 'backtracer_copies': 500, 'dumps': 1000, 'messages_dumped': 5000, 'overwritten': 2000, 'below_log_level': 1000, 'concurrent_dumps': 500, 'concurrent_messages': 5000},
      technique='random histories with a model of the backtrace at recording sinks; concurrent logging and dumping with at-most-once, order and conservation oracles; TSan, ASan',
      note='The backtrace is enabled the first time before other threads use the logger.')
check('C21', 'c21.cpp',
      'A case is a periodic function of random interval, representation of the interval and duration of its calls, destroyed at a '
      'random moment; or periodic flushing of random loggers that is replaced or switched off; loggers, pools and threads coming '
      'and going under it, or a process that ends meanwhile; the system clock is set back and forth; non-trivial when the function was called or destroyed at a critical moment; cases are told apart by '
      'configuration and number of calls.',
      [run('plain', quick=STD, thorough=BIG), run('clang-noise', quick=dict(STD, budget=9), thorough=BIG),
       run('asan', quick=dict(STD, budget=6), thorough=BIG), run('tsan', quick=dict(STD, budget=8), thorough=BIG),
       run('plain', 'exit', quick=dict(STD, budget=4), thorough=dict(BIG, budget=120)), run('asan', 'exit', quick=dict(STD, budget=6), thorough=dict(BIG, budget=120))],
      parallel=2, expect={'process_exits': 20, 'clock_steps': 100, 'functions': 300, 'calls': 500, 'long_intervals': 50, 'destructions_during_calls': 50, 'flush_cases': 100, 'churned_loggers': 500, 'rate_checks': 4},
      technique='monitored callbacks with steady-clock stamps (lower bounds are exact), destruction at random and critical moments with injected delays, hang watch; TSan, ASan',
      note='That calls are not too rare is judged against a thread sleeping for the same interval, four windows in a row.')
check('C24', 'c24.cpp',
      'A case is a history of cloning, swapping, logging, level, pattern and backtrace operations and pool ends on several synchronous '
      'and asynchronous loggers that share sinks, compared with a model; or clones made while other threads log; non-trivial when '
      'something was cloned or swapped; cases are told apart by their history.',
      [run('plain', quick=dict(STD, budget=7), thorough=BIG), run('asan', quick=dict(STD, budget=7), thorough=BIG), run('tsan', quick=dict(STD, budget=7), thorough=BIG)],
      parallel=3, expect={'clones': 1000, 'async_clones': 300, 'swaps': 1000, 'swaps_with_backtrace': 200, 'clones_in_use': 500},
      technique='random histories with a model; every observable of all loggers and sinks, handling threads and backtraces compared after operations; ASan/UBSan, TSan',
      note='Loggers are swapped while nothing they logged is on its way; clones of loggers that had a backtrace are not examined.')
check('C23', 'c23.cpp',
      'A case is a process with an environment (TERM, COLORTERM), a kind of stream for stdout, stderr and a stream of its own '
      '(terminal, pipe, file), console sinks built directly, through factories and in the default logger, and a history of '
      'patterns, formatters, level colours, records and flushes; non-trivial when something was written; cases are told apart '
      'by environment, streams and bytes written.',
      [run('plain', quick=STD, thorough=BIG), run('asan', quick=STD, thorough=BIG)],
      parallel=2, expect={'records': 5000, 'records_coloured': 500, 'written_at_return': 1000, 'terminals': 500, 'own_colours': 200},
      technique='generated histories on pseudo terminals, pipes and files in one process per environment; every byte compared with an independent rendering; ASan/UBSan',
      note='An empty COLORTERM and patterns with more than one coloured range are not generated. Threads on console sinks are in C06.')
check('C25', 'c25.cpp',
      'A case is a history of creations through factory functions, create functions and factories of all four kinds with all sink '
      'types, mixed with pool and setting changes and failing sinks, compared with a model; or threads that create loggers at the same '
      'moment; non-trivial with more than one logger; cases are told apart by their history.',
      [run('plain', quick=STD, thorough=BIG), run('clang-noise', quick=dict(STD, budget=11), thorough=BIG), run('asan', quick=STD, thorough=BIG),
       run('tsan', quick=dict(STD, budget=8), thorough=BIG)],
      parallel=2, expect={'loggers_created': 1000, 'async_loggers_created': 500, 'records_followed': 2000, 'pools_replaced': 100, 'pools_shared': 100,
                          'names_taken': 50, 'concurrent_one_kind': 50, 'concurrent_mixed': 50, 'worker_pools_checked': 50, 'async_defaults_dropped': 20,
                          'created_while_other_pools_live': 50},
      technique='random histories with a model of registry and pool; built loggers examined and a record of each followed to its destination; concurrent creations with injected delays; ASan/UBSan, TSan',
      note='Sampled schedules. A pool replaced by the user while a factory runs is not examined.')
check('C07', 'c07.cpp',
      'A case is a random program: two to six threads with up to 120 operations each over shared loggers, sinks, pools, registry, '
      'periodic flushing, backtraces and private pools, closed in one of several orders; always several threads; cases are told '
      'apart by seed and number of operations carried out. Parts of the workloads of other properties run as well, for their sanitizer reports only.',
      [run('tsan', quick=dict(STD, budget=20), thorough=dict(BIG, budget=500)), run('asan', quick=dict(STD, budget=14), thorough=BIG),
       run('tsan-notls', quick=dict(STD, budget=10), thorough=BIG), run('asan-dbg', quick=dict(STD, budget=8), thorough=BIG),
       run('plain', quick=dict(STD, budget=8), thorough=BIG),
       run('plain', quick=dict(STD, budget=15), thorough=BIG, wrap=['valgrind', '-q', '--error-exitcode=99', '--fair-sched=yes', '--leak-check=no']),
       ] + [run('tsan', src=h, quick=dict(STD, budget=b), thorough=dict(BIG, budget=120), only_sanitizers=True)
            for h, b in (('c01.cpp', 6), ('c03.cpp', 6), ('c04.cpp', 8), ('c05.cpp', 6), ('c06.cpp', 8), ('c09.cpp', 5), ('c20.cpp', 8), ('c22.cpp', 5))],
      parallel=4, expect={'operations': 20000, 'messages': 10000, 'op_replace_pool': 50, 'op_dump_backtrace': 100, 'op_flush_every': 50, 'op_create': 100},
      technique='mixed randomised multi-threaded programs with injected delays under ThreadSanitizer, AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer and memcheck; counted objects',
      note='Sampled schedules. TSan sees the relaxed accesses of the bundled queue as sequentially consistent, because it does not model fences.')
