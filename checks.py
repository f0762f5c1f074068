# What each check runs: harness + sanitizer build + scenarios {name: (quick cases, thorough cases[, shards])}.
CHECKS = {}


def check(prop, units, rule, technique, level_note, assumptions=()):
    CHECKS[prop] = dict(units=units, rule=rule, technique=technique, level_note=level_note, assumptions=list(assumptions))


def unit(harness, variant, **scenarios):
    return dict(harness=harness, variant=variant, scenarios=scenarios)


SCHED = ('controlled-schedule monitoring: the real code runs under ThreadSanitizer with every lock, wait, atomic and clock operation '
         'a scheduling point of a seeded scheduler with virtual time; ')
SEQ = 'the real code runs under AddressSanitizer+UBSan with randomized operation histories; '

check('C01', [
    unit('c01_signals.cpp', 'tsan', conc_delivery=(2400, 60000), conc_reentrant=(1200, 40000), conc_mirror=(1600, 40000), conc_async=(800, 20000), free_delivery=(400, 8000)),
    unit('c01_signals.cpp', 'asan', seq_multithreaded=(3000, 100000), seq_external_mutex=(1500, 50000), seq_threadless=(1500, 50000), seq_lazy_policies=(800, 20000), seq_async=(1500, 50000)),
], 'random re-entrant connect/disconnect/emit/throw histories and random concurrent connect/emit/disconnect programs; distinct = distinct schedules (hash of the scheduling decisions), distinct event traces and distinct re-entrant histories',
    'runtime monitoring: TSan + controlled scheduler with trace checker; ASan re-entrancy model',
    SCHED + 'every emission/slot pair of the recorded trace is judged against connection intervals; ' + SEQ + 'each call is judged against a delivery model. Bounded by the number of histories and schedules run.')

check('C02', [
    unit('c02_tokens.cpp', 'tsan', release_race=(4000, 150000), release_independent=(800, 10000), self_release=(1500, 40000), async_result=(1000, 30000), free_release_race=(400, 8000)),
    unit('c02_tokens.cpp', 'asan', self_release_memory=(300, 10000), token_states=(400, 20000)),
], 'random programs that fire and release guarded callbacks of functions, signals, executors, timers and pools from several threads; distinct = distinct schedules and distinct event traces',
    'runtime monitoring: TSan + controlled scheduler with release/enter trace checker and capture census',
    SCHED + 'no callback may be open on another thread when its release returns, nor be entered afterwards, nor lose its captured objects while running; waiting for an unrelated callback shows as a deadlock. Bounded by the schedules run.')

check('C03', [
    unit('c03_executors.cpp', 'tsan', thread_executor=(3000, 120000), thread_executor_wakeup=(800, 20000), threadless_conc=(2000, 60000), free_thread_executor=(300, 8000)),
    unit('c03_executors.cpp', 'asan', threadless_model=(2000, 80000)),
], 'random programs that submit tasks (nested, throwing, submitting from destructors) from several threads and destroy the executor; random histories of the threadless executor; distinct = distinct schedules and histories',
    'runtime monitoring: TSan + controlled scheduler with task trace checker; queue model under ASan',
    SCHED + 'exactly-once, real-time order, no overlap, one thread and drain at destruction are judged on each trace; ' + SEQ + 'judged against a queue model. Bounded by the schedules run.')

check('C04', [
    unit('c04_timers.cpp', 'tsan', timer_schedules=(2500, 100000), timer_exact=(2000, 80000), deferrer_exact=(1200, 40000), deferrer_race=(1200, 40000), free_timer=(120, 1500)),
], 'random programs of timeouts, periodic timers, cancellations and deferrals from threads and from inside tasks, in virtual time; distinct = distinct schedules and histories',
    'runtime monitoring: TSan + controlled scheduler with virtual clock and due-time trace checker',
    SCHED + 'every execution is judged against the virtual clock: not early, not late when idle, due order, exactly once, never after cancellation. Bounded by the schedules run.')

check('C05', [
    unit('c05_pool.cpp', 'tsan', pool_random=(2500, 100000), pool_blocked=(1500, 50000), pool_destroy=(800, 20000), free_pool_random=(200, 4000)),
    unit('c05_pool.cpp', 'asan', pool_arguments=(20, 100, 1)),
], 'random programs that queue tasks (nested, throwing, blocking, idle time-outs) from several threads; distinct = distinct schedules and traces',
    'runtime monitoring: TSan + controlled scheduler with task trace checker and blocked-capacity programs',
    SCHED + 'exactly-once, concurrency bound and reuse are judged on each trace; a task that waits for an unrelated one deadlocks and is reported. Bounded by the schedules run.')

check('C06', [
    unit('c06_cancellation.cpp', 'tsan', token_wait_exact=(3000, 120000), token_wait_race=(3000, 100000), cond_wait=(2000, 80000), cond_wait_strict=(1000, 30000), handlers=(3000, 120000), free_cond_wait=(200, 5000), free_handlers=(200, 5000)),
    unit('c06_cancellation.cpp', 'asan', token_model=(500, 20000)),
], 'random trees of plain, timed, dummy and joined tokens cancelled and timed out before, during and after sleeps, condition waits and handler registration; distinct = distinct schedules, traces and token histories',
    'runtime monitoring: TSan + controlled scheduler with virtual clock, token-tree model and handler trace checker',
    SCHED + 'a lost wake-up shows as a deadlock, and every result is judged against the tokens and the virtual clock. Bounded by the schedules run.')

check('C07', [
    unit('c07_futures.cpp', 'tsan', future_race=(4000, 150000), future_blocked=(600, 20000), free_future_race=(300, 8000)),
    unit('c07_futures.cpp', 'asan', future_model=(4000, 150000)),
], 'random histories of promise and future operations over five value types incl. throwing copies; random programs of competing setters, waiters, cancellations and promise destruction; distinct = distinct schedules, traces and histories',
    'runtime monitoring: TSan + controlled scheduler with result checker; ASan state model',
    SCHED + 'every waiter must see the one accepted outcome, statuses must be truthful, a lost wake-up shows as a deadlock; ' + SEQ + 'judged against a state model. Bounded by the schedules and histories run.')

check('C08', [
    unit('c08_pointers.cpp', 'tsan', shared_race=(6000, 200000), self_race=(2500, 60000), free_shared_race=(600, 10000), free_self_race=(300, 5000)),
    unit('c08_pointers.cpp', 'asan', pointer_model=(3000, 100000), self_count_model=(1500, 50000), unique_array=(600, 20000)),
], 'random histories over 21 pointer slots of seven pointer types; random programs of threads copying, promoting and releasing owners of the same objects; distinct = distinct schedules, traces and histories',
    'runtime monitoring: TSan + controlled scheduler with destruction census; ASan ownership model',
    SCHED + 'objects must be destroyed exactly once after the last owner, with every use ordered before destruction; ' + SEQ + 'the census of all objects is compared with the ownership model after every operation. Bounded by the schedules and histories run.')

check('C09', [
    unit('c09_pipes.cpp', 'tsan', data_buffer_race=(3000, 120000), data_buffer_wakeup=(1200, 30000), data_buffer_threshold=(600, 20000), data_buffer_overflow=(800, 30000), shared_circular_race=(1000, 40000),
         pipe_race=(2000, 80000), pipe_cancel=(1200, 40000), pipe_timeout=(300, 8000), async_stream=(1200, 50000), async_stream_failing=(400, 15000), async_progress=(300, 8000), intermediate_buffer=(800, 30000),
         free_data_buffer=(200, 5000), free_pipe=(200, 5000)),
    unit('c09_pipes.cpp', 'asan', data_buffer_model=(6000, 300000), bithread_model=(4000, 150000), data_utils=(4000, 150000), pipe_readers=(2000, 80000)),
], 'random writers, readers, consumers, chunk, packet and buffer sizes with end of data, exceptions, cancellation and overflow; random histories of the asynchronous stream over a partial-writing or failing device; distinct = distinct schedules, delivered streams and histories',
    'runtime monitoring: TSan + controlled scheduler with byte-exact stream checker and virtual-time wake-up checks; ASan buffer models',
    SCHED + 'delivered bytes are compared with accepted bytes, missed wake-ups show as deadlocks or clock jumps; ' + SEQ + 'judged against byte-queue models. Bounded by the schedules and histories run.')

check('C10', [
    unit('c10_streams.cpp', 'asan', stream_stack=(20000, 600000), stream_windows=(3000, 100000), stream_chunked=(4000, 100000), ring_model=(8000, 300000), stream_helpers=(6000, 100000), stream_large=(20, 100), byte_views=(6000, 200000), paged_model=(6000, 200000)),
    unit('c10_streams.cpp', 'tsan', paged_race=(1500, 50000)),
], 'random operation histories over stacks of memory, file-like, windowed and buffered streams, chunked streams, rings, paged buffers and byte views, with sizes around every boundary; distinct = distinct histories and schedules',
    'runtime monitoring: ASan/UBSan + flat-buffer reference model on exact-size heap blocks',
    SEQ + 'judged against a flat byte sequence; ' + 'concurrent use of the paged buffer runs under TSan and the controlled scheduler. Bounded by the histories run.')

check('C11', [
    unit('c11_transactional.cpp', 'asan', set_model=(1500, 50000), dict_model=(2000, 60000), list_model=(1500, 50000), list_transfer=(1500, 50000)),
    unit('c11_transactional.cpp', 'tsan', dict_race=(1500, 50000), list_set_race=(1200, 40000), free_dict_race=(200, 5000), free_list_set_race=(200, 5000)),
], 'random histories of transactions (all operations, commits, reverts, abandonment) with mirrors, pending differences and held snapshots; concurrent transactions, readers and listeners; distinct = distinct histories and schedules',
    'runtime monitoring: ASan reference model and difference-replaying mirrors; TSan + controlled scheduler isolation checker',
    SCHED + 'every state a reader, mirror or snapshot sees must be a committed one; ' + SEQ + 'judged against abstract collections. Bounded by the histories and schedules run.')

check('C12', [
    unit('c12_observable.cpp', 'asan', set_model=(800, 30000), multi_set_model=(800, 30000), dict_model=(800, 30000), multi_dict_model=(800, 30000), list_model=(800, 30000), transactional_views=(400, 15000)),
    unit('c12_observable.cpp', 'tsan', dict_race=(1500, 50000), list_race=(1500, 50000), free_dict_race=(200, 5000), free_list_race=(200, 5000)),
], 'random histories on observable lists, sets, dictionaries and multi-collections with late subscribers, held snapshots and derived views (casts, key sets, per-key values, per-element membership); concurrent writers, readers and subscribers; distinct = distinct histories and schedules',
    'runtime monitoring: ASan reference model and event-replaying mirrors; TSan + controlled scheduler subscription checker',
    SCHED + 'every subscriber that replays its events must equal the collection; ' + SEQ + 'judged against abstract collections and the derived views recomputed from them. Bounded by the histories and schedules run.')

check('C13', [
    unit('c13_containers.cpp', 'asan', raw_maps=(1500, 60000), raw_sets=(1500, 60000), set_model=(1200, 50000), dict_model=(1200, 50000), list_model=(800, 30000), bimap_model=(800, 20000)),
], 'random histories of every operation (hints, ranges, self-assignment, copies, moves, swaps, allocator constructors, stateful and class-based comparers, held enumerators) on each container; distinct = distinct histories per kind of container',
    'runtime monitoring: ASan + reference-model oracle after every operation',
    SEQ + 'judged against abstract sequences, sets and maps, compared by full enumeration after every operation. Bounded by the histories run.')

check('C14', [
    unit('c14_cache.cpp', 'asan', fifo=(15000, 400000), lru=(15000, 400000), two_queue=(20000, 400000)),
], 'random histories of insertions, updates, lookups, removals and clears on small capacities with unit and variable-sized values, key comparers with equivalence classes and eviction handlers that call back; distinct = distinct histories per cache',
    'runtime monitoring: ASan + reference-model oracle on lookups, sizes and the ordered eviction log',
    SEQ + 'judged against list models of the three policies. Bounded by the histories run.')

check('C15', [
    unit('c15_ranges.cpp', 'asan', range_vector=(4000, 150000), range_sources=(3000, 100000), range_nested=(3000, 100000), range_types=(1500, 40000), range_split=(2000, 50000), enum_compose=(2500, 80000), enum_diff=(2000, 50000)),
], 'random compositions (up to three deep for ranges, five for enumerables) of every adaptor over random inputs, empty and single-element ones included, walked forwards, backwards, randomly and by distance, with every aggregate query; distinct = distinct composition and input',
    'runtime monitoring: ASan + plain-list oracle on every element, position and query result',
    SEQ + 'judged against the same computation on a plain list. Bounded by the compositions and inputs run.')

check('C16', [
    unit('c16_holders.cpp', 'asan', optional_model=(6000, 250000), variant_model=(3000, 150000), any_model=(2500, 150000), inplace_model=(6000, 200000), intrusive_and_array=(1500, 50000)),
], 'random histories over three optionals, three variants, three type-erased values, two inline vectors (four capacities), intrusive lists and arrays, with self-assignment and self-move, and a construction, copy, move or assignment of an element failing at a random point with standard and non-standard exceptions; distinct = distinct histories per holder',
    'runtime monitoring: ASan/UBSan + live-element census and value model after every operation',
    SEQ + 'judged against value models and a census of live elements. Bounded by the histories and failure points run.')

check('C17', [
    unit('c17_serialization.cpp', 'asan', round_trip=(20000, 400000), malformed=(20000, 400000), helpers=(15000, 300000)),
],
'Generated values of integers of every width, floats, strings, enums, times, identifiers, optionals, pairs, variants, containers (nested), polymorphic object graphs and the collection classes are written by the library into a settings tree, read back and compared; trees with damaged, missing, mistyped or out-of-range parts are read back next to a reference reader which decides what must be refused and what value results.',
'runtime monitoring: AddressSanitizer and UndefinedBehaviorSanitizer builds of generated values and damaged trees with an online reference reader',
SEQ + 'judged against a reference reader of the same tree written for the harness. Bounded by the value sizes (trees of some hundred nodes) and the number of values of the run.')

check('C18', [
    unit('c18_text.cpp', 'asan', integers=(24000, 120000), hex=(24000, 120000), enums=(24000, 120000), identifiers=(16000, 80000), sizes=(24000, 120000), composed=(40000, 240000), patterns=(60000, 640000)),
],
'Values at and around every limit and spellings at and past them, with odd signs, zeros, blanks, foreign characters and embedded zero bytes, are printed and parsed through every entry point (exact strings, unterminated views, C strings, casts, patterns) for integers of every width, hexadecimal numbers and byte strings, enums and their sums, versions, unique identifiers and sizes; composed values and patterns with generated pieces are printed and matched.',
'runtime monitoring: AddressSanitizer and UndefinedBehaviorSanitizer builds of generated values and spellings with online reference printers and parsers',
SEQ + 'judged against printers, parsers and a pattern matcher written for the harness. Bounded by the spellings of the run.')

check('C19', [
    unit('c19_time.cpp', 'asan', calendar=(7000, 200000), dates=(6000, 200000), durations=(6000, 150000), iso_durations=(3500, 100000)),
],
'Instants at and around turns of years, months and days, leap days, century years and the epoch, over years -9000 to 30000 and every zone, are broken down and put together again; dates are printed, read back, and spelled with fields in and out of range and damage; durations over the whole 64-bit range go through arithmetic, rounding, unit conversion and every text form.',
'runtime monitoring: AddressSanitizer and UndefinedBehaviorSanitizer builds of generated instants, durations and texts with an online reference calendar',
SEQ + 'judged against a calendar computed from day counts and 128-bit arithmetic. Bounded by the instants and texts of the run.')

check('C20', [
    unit('c20_bits.cpp', 'asan', streams=(30000, 800000), items=(20000, 500000)),
    unit('c20_fields.cpp', 'asan', fields=(10000, 300000)),
],
'Fields of every width from 0 to 64 bits at every bit offset are read and written in streams and through the field accessors, in both byte orders, as integers of every width and sign, booleans and enums, over buffers allocated to their exact size, with seeks, skips, roll-backs, deferred writes, growing arrays, strings and arrays with prefixes, and reads and writes that run past the end.',
'runtime monitoring: AddressSanitizer and UndefinedBehaviorSanitizer builds of generated accesses with an online bit-by-bit model of the buffer',
SEQ + 'judged against a model which keeps every bit of the buffer. Bounded by buffers of some dozen bytes and the accesses of the run.')

check('C21', [
    unit('c21_numbers.cpp', 'asan', big_integers=(900, 60000), decimals=(4000, 150000), fixed_points=(6000, 200000), helpers=(6000, 200000)),
],
'Histories of operations over big integers up to 900 bits made of runs of ones, zeros and edges of 64-bit blocks, including self-operations, refused subtractions and divisions by zero; pairs of decimals over the whole range of mantissas with up to 18 fraction digits; fixed-point numbers of six layouts over all raw values; alignment, divisors, powers and fractions over edge values; and texts of all of them, well formed and damaged.',
'runtime monitoring: AddressSanitizer and UndefinedBehaviorSanitizer builds of generated arithmetic with an online oracle of exact wide integers',
SEQ + 'every result is compared with the exact one computed in arbitrary-precision or 128-bit integers. Bounded by the sizes above and the operands of the run.')

check('C22', [
    unit('c22_ppm.cpp', 'asan', short_messages=(900, 30000), long_messages=(64, 5000), all_lengths=(120, 4000)),
],
'Models of one to four context lengths with narrow and wide probabilities are trained with generated texts, with and without room for only a part of the contexts, and texts of up to 4000 bytes (random, repeated, similar to the training text) pass through compressor and decompressor in pieces of every size, with consumers that take a part or nothing of what is offered; compressed messages are also truncated, changed and extended.',
'runtime monitoring: AddressSanitizer and UndefinedBehaviorSanitizer builds of generated trainings and messages with an online comparison with the original bytes and a bound on the work',
SEQ + 'the original bytes are compared with those that come back, and the number of bytes and reads is bounded by what the model can need. Bounded by the sizes above.')

check('C23', [
    unit('c23_encoding.cpp', 'asan', single_byte_sets=(15000, 400000), unicode_forms=(40000, 1500000), malformed=(50000, 2000000), utf8_iteration=(50000, 2000000)),
],
'Every byte of the 17 single-byte sets and generated texts of them, code points from the edges and the inside of every range of Unicode in UTF-8, UTF-16 and UTF-32 of both byte orders with and without a mark, texts with malformed sequences of every kind between good ones, iteration from both ends and substrings of good and damaged UTF-8 texts, and conversions to code pages.',
'runtime monitoring: AddressSanitizer and UndefinedBehaviorSanitizer builds of generated texts with an online comparison with published tables and with independent encoders and decoders',
SEQ + 'each result is compared with the table of the set (generated from the codecs of Python) or with an encoder and decoder of UTF written from the standard. Bounded by texts of a few hundred characters.')

check('C24', [
    unit('c24_strings.cpp', 'asan', views=(30000, 1000000), editing=(30000, 1000000), splitting=(15000, 600000), many_patterns=(8000, 300000), number_ranges=(900, 40000)),
],
'Strings of up to 40 characters over small alphabets (so that matches are adjacent and overlap), with null and non-ASCII characters, empty ones, positions and limits inside and outside of the text; up to 20 patterns that repeat and contain each other; numeric ranges around powers of ten and the ends of the type, with the generated expressions run by std::regex on numbers around every edge.',
'runtime monitoring: AddressSanitizer and UndefinedBehaviorSanitizer builds of generated strings with an online comparison with direct definitions over std::string',
SEQ + 'each result is compared with a direct definition written over std::string; views lie in buffers of their exact size. Bounded by the sizes above.')

check('C25', [
    unit('c25_logging.cpp', 'tsan', log_threads=(2000, 80000), log_levels=(2500, 100000), log_registry=(1200, 40000), log_dup_threads=(1500, 60000), free_log=(150, 3000), free_dup=(150, 3000)),
    unit('c25_logging.cpp', 'asan', log_model=(1500, 60000), log_dup=(1500, 60000), log_helpers=(1500, 40000)),
], 'random programs of threads that log through the global and named loggers (also from inside sinks and while their threads exit) while levels change and sinks come and go; random histories of the logger, its registry, the duplicates filter and the logging helpers in one thread; distinct = distinct schedules, histories and outputs',
    'runtime monitoring: TSan + controlled scheduler with a checker of sent and received messages; logger model and conservation of duplicates under ASan',
    SCHED + 'each recorded execution is judged: every message logged at a level that was certainly enabled is received exactly once, whole and in order by every sink that was certainly registered, and by none when certainly disabled; hidden duplicates are conserved. ' + SEQ + 'judged against a model of sinks, levels and settings. Bounded by the schedules run.')

check('C26', [
    unit('c26_comparers.cpp', 'asan', compare_basic=(4000, 200000), compare_collections=(3000, 150000), compare_members=(2500, 120000), compare_holders=(3000, 150000), compare_types=(2500, 120000)),
], 'groups of random values with many ties, empty and null operands and extreme three-way results, compared pairwise by every comparer; distinct = distinct groups',
    'runtime monitoring: every comparison of a group against a reference order (ASan/UBSan)',
    SEQ + 'each result of each comparer, and of the comparers and operators derived from it, is judged against a reference order over plain values, and on all triples against the order axioms where the order itself is unspecified. Bounded by the groups generated.')

check('C27', [
    unit('c27_values.cpp', 'tsan', value_threads=(5000, 200000), value_counting=(1500, 50000), signal_futures=(3000, 120000), free_values=(150, 4000)),
    unit('c27_values.cpp', 'asan', value_history=(6000, 200000), signal_values=(5000, 150000)),
], 'random programs of setters, readers, subscribers and holders of the lock over the observable values of every population policy and over the values of dictionary keys and set entries; emitters racing with the subscription and the waits of futures; random histories in one thread; distinct = distinct schedules and histories',
    'runtime monitoring: TSan + controlled scheduler with an offline checker of assignments, announcements, reads and subscriptions; value model under ASan',
    SCHED + 'the recorded changes must form one order in which every assignment, read and subscription of the execution is explained. ' + SEQ + 'judged against a model of the value. Bounded by the schedules run.')

check('C28', [
    unit('c28_guards.cpp', 'asan', scope_guards=(4000, 150000), holders=(6000, 200000), tokens=(4000, 150000), token_reentrancy=(4000, 150000), transactions=(6000, 200000)),
    unit('c28_guards.cpp', 'tsan', token_threads=(2500, 100000), pool_threads=(1500, 60000), free_tokens=(100, 3000)),
], 'random nested scopes left by return, exception and cancellation; histories of holders, tokens, their containers and builders, and of undo transactions, with actions that fail, actions that use the container releasing them, and allocations that fail; random programs of threads over the thread-safe containers; distinct = distinct programs, histories and schedules',
    'runtime monitoring: model of owners compared with the actions run after every operation (ASan/UBSan); TSan + controlled scheduler with exactly-once checks',
    SEQ + 'the actions run, and their order where it is documented, are compared with a model of owners. ' + SCHED + 'each action must run exactly once and outside of locks of the containers. Bounded by the histories and schedules run.')

check('C29', [
    unit('c29_threads.cpp', 'tsan', lock_programs=(2500, 100000), semaphore_programs=(2500, 100000), barrier_rounds=(2500, 100000), condition_programs=(2500, 100000), once_programs=(1600, 12000), atomic_programs=(4000, 150000), thread_programs=(1200, 40000), free_threads=(120, 3000)),
    unit('c29_threads.cpp', 'asan', thread_basics=(1500, 50000), process_exit=(160, 4000)),
], 'random programs of threads over mutexes (recursive, temporarily unlocked, spin), synchronised values, semaphores, barriers, condition variables with timeouts, tokens and injected spurious wake-ups, once flags, the three kinds of singletons with slow and failing constructors, atomics of every kind, library threads with timeouts and thread-local values; exits of processes that hold singletons; distinct = distinct schedules and recorded histories',
    'runtime monitoring: TSan + controlled scheduler with assertions of exclusion and occupancy, checkers of conservation and rounds, a linearizability checker of the recorded histories of atomics and exactly-once counters; ASan/UBSan',
    SCHED + 'exclusion, occupancy, rounds, once-only construction, joins and conservation are asserted in the running threads, lost wake-ups end as deadlocks, histories of atomics are checked for linearizability. ' + SEQ + 'Bounded by the programs and schedules run.')

check('C30', [
    unit('c30_packets.cpp', 'asan', packet_history=(12000, 400000), aligners=(8000, 300000), packeters=(8000, 300000)),
    unit('c30_packets.cpp', 'tsan', packet_threads=(6000, 250000), free_packets=(200, 5000)),
], 'random histories of writing, reading, refusing, clearing and ending over packet buffers of 1 to 60 bytes with packets from empty ones to the size of the buffer; random programs of writers, a reader, cancellation and discarding; streams in random pieces through aligners, packeters and back, with consumers that take parts, fail and are cancelled; distinct = distinct histories, streams and schedules',
    'runtime monitoring: every packet and byte received compared with those sent (ASan/UBSan; TSan + controlled scheduler with conservation and order checks)',
    SEQ + 'the packets offered, taken and left are compared with a queue, the bytes of streams with the stream. ' + SCHED + 'each packet must arrive whole, once, in the order of its writer, with its metadata; writers and readers that wait forever are deadlocks. Bounded by the histories and schedules run.')

check('C31', [
	unit('c31_refs.cpp', 'asan', maps=(40000, 500000), sets=(40000, 500000), values=(30000, 400000), joins=(40000, 500000)),
], 'generated histories of adding, erasing (by key, by iterator), clearing, copying of reference-counting maps, sets, values and counters with natural, reversed and equivalence-class orders of keys, with callbacks and copies of keys that fail; joined views of one to five containers of different kinds, empty ones included, with all positions compared pairwise at random; distinct = operation traces and size combinations',
'runtime monitoring: contents, counts, iteration in both directions and the callbacks of each operation are compared with a map of outstanding references after every operation; live values are counted; joined views are compared with the concatenation of their parts; AddressSanitizer and UBSan watch the run',
SEQ + 'After a callback that failed, either the reference is still outstanding or it is gone with its entry. Re-entrant use from callbacks is not explored. Bounded by 25 operations on 5 keys and joins of up to 25 bytes.')

check('C32', [
	unit('c32_cmdline.cpp', 'asan', lines=(8000, 150000), typing=(8000, 150000), reentry=(5000, 100000)),
	unit('c32_cmdline.cpp', 'tsan', cmd_threads=(6000, 200000), free_cmds=(200, 5000)),
], 'random sets of commands of one to three words with eleven lists of parameters (numbers, texts, flags, options, lists, enumerations) and hints, registered and released at random; valid lines, mutated lines with escapes and brackets, lines typed by following completions; commands that register, release and execute others and themselves while running; random programs of threads that execute, complete, register and release; distinct = distinct lines, programs and schedules',
'runtime monitoring: the command that ran, its arguments and the completions are compared with a reference reader of lines (ASan/UBSan); TSan + controlled scheduler with an offline checker of recorded runs, registrations and releases',
SEQ + 'each line must run exactly the first registered command that the reference accepts, or none. ' + SCHED + 'a line runs one command at most, one that is there during the whole execution is not missed, and none runs after its release. Bounded by the lines and schedules run.')

check('C33', [
	unit('c33_ranges.cpp', 'asan', ranges=(200000, 4000000), rects=(150000, 3000000), progress=(90000, 2000000), samples=(25000, 500000)),
	unit('c33_ranges.cpp', 'tsan', bandwidth=(1200, 20000)),
], 'pairs of ranges of five kinds of values over grids of near, far and extreme values, pairs of rectangles on a grid of 8x8 with random scales, empty, touching and degenerate ones included, sizes, progress of wholes and of parts that make them up, sequences of samples, pipes of buffering, splitting and converting stages with random data and ends; streams through a bandwidth reporter under a virtual clock; distinct = distinct operand pairs and sequences',
'runtime monitoring: every result compared with point-by-point models on the grid, definitions in wider arithmetic and the composition of the stages (ASan/UBSan); TSan + controlled scheduler and virtual clock for the bandwidth reports',
SEQ + 'ranges are judged cell by cell and rectangles point by point, averages against long double sums. ' + SCHED + 'bytes pass unchanged and the reports add up. Bounded by the operands and sequences run.')

check('C34', [
	unit('c34_functions.cpp', 'asan', binders=(40000, 800000), functions=(40000, 800000), tuples=(20000, 400000)),
], 'binders of all 64 arrangements of three positions, of five positions, nested ones, over functions, functors, methods of objects given in every way, with references, temporaries, move-only and kept values, and targets that throw; histories of copying, moving, storing, restoring and calling function objects; operations on tuples of values, references and move-only items; distinct = distinct calls and histories',
'runtime monitoring: every call of a target is recorded with the identity of its arguments and compared with the record that the arrangement defines; a registry of every argument and captured object sees copies, moves, destroyed and leaked ones (ASan/UBSan)',
SEQ + 'the expected record is computed from the arguments directly. Bounded by the shapes of signatures in the harness and the calls run.')

check('C35', [
	unit('c35_dispatch.cpp', 'tsan', registry_threads=(400, 12000), free_registry=(60, 1500)),
	unit('c35_dispatch.cpp', 'asan', dispatch=(6000, 120000), factories=(3000, 60000), translations=(5000, 100000), sequences=(3000, 60000)),
], 'values and types given to mappers, visitors and multiple dispatchers; registrations, nested contexts and creations of factories; histories of translated texts compared with a table of texts; language codes of all bytes; bit fields of all widths; threads registering and creating at once; distinct = distinct results, histories and schedules',
'runtime monitoring: every selected case, created object and text is compared with a table kept by the harness; identity records of visited and created objects; ASan/UBSan; TSan and the schedule controller for concurrent registrations and sequences',
SCHED + 'registrations and creations of up to four threads. ' + SEQ + 'the expected case is computed from the arguments directly. Bounded by the type lists of the harness and the histories run.')

NOT_APPLICABLE = {}
