S = lambda n, m, w: dict(name=n, meaning=m, where='stingraykit/' + w)

prop('C01', 'Signals deliver every emission exactly once, in order, to every connected slot',
 'Invoking a signal calls each slot that stays connected throughout exactly once, with the emitted arguments and in connection order; slots connected with state sending first receive the current state exactly once and then miss or repeat no later emission. A slot that throws a standard exception, connects, disconnects or re-invokes during delivery neither prevents nor duplicates delivery to the others. Asynchronous slots run only on their executor, in emission order.',
 ['schedules', 'histories'], 'All interleavings of concurrent connect, disconnect, emit and state-sending, and all sequences of re-entrant actions taken from inside handlers, for every threading and exception policy.',
 'Unit tests emit from one thread with a handful of slots; delivery order, exactly-once and populate/emit atomicity are claims over all interleavings and re-entrant histories.',
 ['signal/signals.h', 'signal/signal_policies.h', 'signal/signal_connector.h', 'collection/IntrusiveList.h'],
 [S('slot list', 'intrusive list of connected slots guarded by the threading policy lock', 'signal/signals.h')],
 [('copy of the slot list taken under the lock before invocation', 'signal/signals.h'), ('populator called under the signal lock on connect', 'signal/signals.h')],
 ['handler invocations logged with emission id and thread'])

prop('C02', 'Once a connection or life token is released its callback never runs again',
 'Once disconnecting a connection of a thread-safe signal or releasing a life token returns, the guarded callback is not executing on any other thread and will never be entered again, however the release raced with delivery. Release waits only for executions of that callback that are already in progress, a callback may release its own token without deadlocking, and objects captured by the callback outlive every execution of it.',
 ['schedules'], 'All interleavings of release with synchronous and asynchronous delivery, for tokens used by signals, executors, timers, thread pools and guarded functions.',
 'The race window between testing liveness and running the callback is a few instructions wide; tests only release at quiescent points.',
 ['thread/TaskLifeToken.cpp', 'thread/TaskLifeToken.h', 'signal/signals.h', 'function/CancellableFunction.h', 'function/AsyncFunction.h', 'Token.h'],
 [S('execution guard counters', 'number of executions in progress and released flag', 'thread/TaskLifeToken.cpp')],
 [('execution guard entered before each callback, release waits for it', 'thread/TaskLifeToken.cpp')],
 ['callback entry/exit and release call/return events', 'memory captured by callbacks'])

prop('C03', 'Task executors run every accepted task exactly once, in order, on one thread',
 'Every task accepted by a thread-backed executor runs exactly once, tasks submitted in a known order run in that order and never overlap, and all tasks accepted before destruction of the executor have run when destruction returns. A throwing task is reported to the exception handler and does not affect later tasks. The threadless executor runs exactly the tasks queued, in order, only inside the caller-driven execution calls.',
 ['schedules', 'histories'], 'All interleavings of submission, execution, re-entrant submission, throwing tasks and shutdown.',
 'Lost wake-ups, drain-at-shutdown and ordering are schedule properties; most executor tests in the suite are disabled or single-producer.',
 ['thread/ThreadTaskExecutor.cpp', 'thread/ThreadlessTaskExecutor.cpp', 'thread/ThreadTaskExecutor.h', 'thread/ThreadlessTaskExecutor.h'],
 [S('task queue', 'pending tasks guarded by a mutex', 'thread/ThreadTaskExecutor.cpp')],
 [('queue + condition variable, drain loop at shutdown', 'thread/ThreadTaskExecutor.cpp')],
 ['task submission, start, end events'])

prop('C04', 'Timers fire once, never early, in due order, and never after cancellation',
 'A one-shot timer task runs exactly once and not before its delay has elapsed, a periodic task runs repeatedly and not faster than its period allows, and tasks due earlier run before tasks due later with ties in submission order. After the connection of a timer task is released the task never runs; tasks left when the timer is destroyed run at most once. A deferred execution that is rescheduled runs only for the latest deadline, and one that is cancelled does not run.',
 ['schedules', 'histories'], 'All schedules of adding, cancelling, executing, throwing and re-arming tasks with arbitrary delays, including equal due times and virtual-clock jumps.',
 'Tests sleep for real time and check a few tasks; the claim ranges over due-time orders, cancellation races and wake-up races.',
 ['timer/Timer.cpp', 'timer/Timer.h', 'timer/Timer.h'],
 [S('callback queue', 'pending callbacks ordered by due time', 'timer/Timer.cpp')],
 [('ordered queue with condition wait until next due time', 'timer/Timer.cpp')],
 ['task executions with the (virtual) clock'])

prop('C05', 'Thread pool runs each queued task exactly once without exceeding its size',
 'Every task accepted by the thread pool runs exactly once on a pool thread (at most once when the pool is destroyed before it starts), at most the configured number run at the same time, and while fewer than that number are busy a newly accepted task starts without waiting for an unrelated task to finish. A throwing task leaves the pool usable, idle workers are reused, and a released life token prevents its task from starting. After the pool is destroyed no task is running.',
 ['schedules'], 'All interleavings of queueing, execution, throwing tasks, nested queueing and destruction.',
 'Most pool tests are disabled in the suite; the hand-off between idle workers and new tasks is a narrow race.',
 ['thread/ThreadPool.cpp', 'thread/ThreadPool.h'],
 [S('workers', 'worker wrappers with idle/busy state', 'thread/ThreadPool.cpp')],
 [('try-add-task hand-off to an idle worker under lock', 'thread/ThreadPool.cpp')],
 ['task start/end events, number of concurrently running tasks'])

prop('C06', 'Cancellation, timeout or signal always wakes a blocked wait, reported truthfully',
 'A blocked wait or sleep on a cancellation token returns when the token is cancelled, its timeout expires or the condition is signalled, and never remains blocked after any of these; the reported reason is one that really occurred and cancellation is never lost, whichever of several joined tokens is cancelled and whenever this happens relative to the start of the wait. A registered cancellation handler is called at most once per cancelled token, is called if cancellation happens while it is registered, and is neither running nor called after unregistration succeeded.',
 ['schedules', 'inputs'], 'All interleavings of cancel, register, unregister, wait and timeout over plain, timed, dummy and joined tokens.',
 'Lost cancellation needs cancel to fall between registration and the blocking wait; existing tests cancel long before or long after.',
 ['thread/CancellationToken.cpp', 'thread/JoiningCancellationToken.cpp', 'thread/TimedCancellationToken.cpp', 'thread/posix/PosixConditionVariable.cpp', 'thread/CancellationRegistrator.h', 'thread/ICancellationToken.h'],
 [S('cancellation state', 'cancelled flag, handler list', 'thread/CancellationToken.cpp')],
 [('handler registration under lock with cancelled check', 'thread/CancellationToken.cpp'), ('unregister waits for a running handler', 'thread/CancellationToken.cpp')],
 ['wait results, handler call events, blocked threads'])

prop('C07', 'A future delivers its promise outcome exactly once to every waiter',
 'The value or exception set on a promise becomes visible exactly once and unchanged to the future and to every waiter blocked on it, a second attempt to satisfy the promise never replaces the first outcome, a second attempt to retrieve its future is rejected, and a promise destroyed unsatisfied makes its future report a broken promise rather than block forever. Waits end on readiness, timeout or cancellation and report which; moved or swapped promises and futures keep their state and their obligations.',
 ['schedules', 'histories'], 'All interleavings of set, wait, get, cancel and destruction on both ends, and all sequences of move, swap and share.',
 'Tests cover set-then-get and get-then-set with sleeps; visibility and wake-up hold only if every interleaving does.',
 ['future.h'],
 [S('shared state', 'result slot, exception slot, condition', 'future.h')],
 [('mutex-protected result with broadcast', 'future.h')],
 ['future results per waiter, exceptions raised by the API'])

prop('C08', 'Smart pointers destroy each object exactly once, after its last owner is gone',
 'An object managed by shared ownership is destroyed exactly once, when the last owner in any thread is released and never while an owner exists; promoting a weak reference yields either a live owner or nothing, never a dying object. Unique, array and self-counted handles transfer, reset, compare and convert without leaking or destroying twice, and custom deleters run exactly once with the original pointer.',
 ['schedules', 'programs'], 'All interleavings of copy, reset, promote and destroy on handles to one object, and all sequences of handle operations including aliasing, self-assignment and conversion.',
 'Reference-count races are invisible to sequential tests and need sanitizers and census of live objects to be noticed.',
 ['shared_ptr.h', 'shared_ptr.cpp', 'ref_count.h', 'self_counter.h', 'self_counter.cpp', 'unique_ptr.h'],
 [S('strong and weak counts', 'atomic reference counts', 'ref_count.h')],
 [('atomic decrement-and-test, compare-and-swap promotion', 'ref_count.h')],
 ['constructor/destructor census of managed objects', 'sanitizer reports'])

prop('C09', 'Concurrent byte pipes and buffers deliver every byte once, in order, then end',
 'Between one writer and one reader, the byte sequence read from a data buffer, shared circular buffer, two-thread pipe or asynchronous byte stream is exactly the sequence accepted from the writer, without loss, duplication, reordering or corruption, and end of data is reported only after everything accepted was delivered. Readers and writers block only while the buffer is empty or full, are woken by data, space, end of data, exceptions or cancellation, and an injected exception reaches the reader.',
 ['schedules', 'inputs'], 'All interleavings of writer, reader, end-of-data, clear, exception and cancellation, over all chunk and buffer sizes.',
 'Wrap-around, full/empty transitions and end-of-data races are schedule- and size-dependent; tests use a few fixed sizes.',
 ['io/SharedCircularBuffer.h', 'io/DataBuffer.h', 'io/CircularBufferBase.h', 'io/BithreadPipe.h', 'io/BithreadCircularBuffer.cpp', 'io/AsyncByteStream.cpp'],
 [S('ring indices', 'read and write offsets and locked regions', 'io/SharedCircularBuffer.h')],
 [('condition variables for empty and full states', 'io/SharedCircularBuffer.h')],
 ['bytes pushed and bytes read with positions', 'blocked threads'])

prop('C10', 'In-memory byte streams and rings behave like one flat byte sequence',
 'For any sequence of reads, writes, seeks, pushes and pops with any sizes, byte streams and ring buffers return exactly the bytes a flat reference buffer would, keep position, length, free and used sizes consistent with it, and never touch memory outside their storage. Requests beyond the available data or space transfer exactly what fits or fail, leaving the content and position as documented.',
 ['histories', 'inputs'], 'All operation sequences and size/offset combinations on memory, chunked, offset, buffered, proxied and paged streams and on ring buffers.',
 'Chunk-boundary, wrap-around and end-of-stream combinations are unbounded; the tests pick a few.',
 ['io/MemoryByteStream.h', 'io/ChunkedMemoryByteStream.h', 'io/BufferedStream.h', 'io/ByteStreamWithOffset.h', 'io/CircularBufferBase.h', 'io/MemoryCircularBuffer.h', 'io/PagedBuffer.cpp', 'collection/ByteData.h'],
 [S('ring and page indices', 'read/write offsets and page list', 'io/PagedBuffer.cpp')],
 [('offset arithmetic with bounds checks', 'io/MemoryByteStream.h')],
 ['returned bytes, positions, sizes', 'sanitizer reports'])

prop('C11', 'Transactional collections commit atomically and report exactly what changed',
 'A transaction is isolated until committed: other readers and earlier snapshots see either none or all of its changes, an abandoned or reverted transaction leaves no trace, and at most one transaction exists at a time. Each commit that changes something is announced once, with a difference that turns the previous content into the new content, and listeners that first receive the current content can mirror the collection exactly by applying the differences. Within a transaction, reads and the reported pending difference reflect exactly the operations made so far.',
 ['histories', 'schedules'], 'All operation sequences inside transactions on transactional lists, sets and dictionaries, with snapshots, reverts, equal-value updates, concurrent readers, listeners and competing transactions.',
 'Differences are computed by merge algorithms whose errors appear only for particular overlap patterns of adds, removes and updates; the list variant has no test at all.',
 ['collection/TransactionalList.h', 'collection/TransactionalSet.h', 'collection/TransactionalDictionary.h', 'collection/TransactionHelpers.h', 'collection/TransactionalDictionaryKeyValue.h'],
 [S('current holder', 'immutable content snapshot, replaced on commit', 'collection/TransactionalList.h'), S('pending difference', 'ordered added/removed/updated entries', 'collection/TransactionalDictionary.h')],
 [('copy-on-write holders', 'collection/TransactionalSet.h'), ('commit under the guard lock with change signal', 'collection/TransactionalDictionary.h')],
 ['enumerations, reported differences, snapshots'])

prop('C12', 'Observable collections and derived views announce every change exactly once',
 'For any sequence of modifications, replaying the announced changes onto the content received on subscription reproduces the observable list, set, dictionary or multi-collection exactly, with one announcement per actual change and none for operations that add, remove and assign nothing. Views derived from them, such as key sets, per-key values, per-element membership and casts, always equal the same derivation computed from the source content. Snapshots obtained before a change keep showing the old content.',
 ['histories', 'schedules'], 'All operation sequences on each observable collection with late subscribers and multiple derived views, and concurrent subscription.',
 'There are no unit tests for the observable wrappers or derived views; missing or duplicated events show only by replaying histories.',
 ['collection/ObservableListWrapper.h', 'collection/ObservableSetWrapper.h', 'collection/ObservableDictionaryWrapper.h', 'collection/MultiMapObservableDictionary.h', 'collection/SortedObservableMultiSet.h', 'collection/ObservableDictionaryKeyValue.h', 'collection/ObservableSetEntry.h', 'collection/DictionaryKeysSet.h'],
 [S('wrapped collection', 'underlying container guarded by a mutex', 'collection/ObservableListWrapper.h')],
 [('change signal raised under the lock after each modification', 'collection/ObservableListWrapper.h')],
 ['change events and enumerations'])

prop('C13', 'Sorted, flat, ordered and multi containers match their abstract models',
 'For any sequence of operations, flat, insertion-ordered, sorted, multi-valued and list containers hold exactly the elements the abstract list, set, map or multimap would hold, iterate in the documented order, and give the same results for lookup, bounds, insertion, erasure, counting, indexing and searching. Copies and moved-to containers are equal to the source and independent of it, and enumerators taken from a collection keep enumerating the content they were taken from.',
 ['histories', 'inputs'], 'All operation sequences over small and large key domains with default, reversed and stateful comparers, hints, duplicates, self-assignment and enumeration during modification.',
 'Only flat and ordered containers have tests, each with a few literal sequences; the generic, sorted multi-valued ones have none.',
 ['collection/flat_map.h', 'collection/flat_set.h', 'collection/ordered_map.h', 'collection/ordered_set.h', 'collection/ArrayList.h', 'collection/SortedSet.h', 'collection/SortedMultiSet.h', 'collection/MapDictionary.h', 'collection/MultiMapDictionary.h', 'collection/bimap.h'],
 [S('underlying storage', 'sorted vector or map + list', 'collection/flat_map.h')],
 [('binary search insertion, copy-on-write before modification under enumeration', 'collection/GenericSet.h')],
 ['results of every call and full enumeration after each operation'])

prop('C14', 'Caches never exceed capacity and evict exactly the element their policy names',
 'For any sequence of insertions, lookups, updates, removals and resizes, a cache holds at most its capacity, returns for each held key the last value stored, reports size as the sum of its entries, and evicts exactly the entries that the first-in-first-out, least-recently-used or two-queue policy prescribes, in that order. Each entry evicted by the cache is reported exactly once, and entries removed explicitly are not reported.',
 ['histories'], 'All operation sequences and capacities, with unit and variable-sized elements.',
 'Policy bookkeeping errors need particular access patterns around capacity; the tests use a dozen operations.',
 ['collection/QueueCache.h', 'collection/TwoQueueCache.h', 'collection/ICache.h'],
 [S('stamp queue', 'usage order of the entries', 'collection/QueueCache.h')],
 [('stamped queue and map kept in step', 'collection/QueueCache.h')],
 ['cache content, eviction callbacks'])

prop('C15', 'Range and enumerable adaptors yield exactly what their definition says',
 'Filtering, transforming, casting, concatenating, dropping, taking, cycling, reversing, splitting, flattening, zipping and diffing of ranges and enumerables yields exactly the elements, order and multiplicity of the equivalent computation on a plain list, whatever the composition and input, including empty and single-element inputs. Bidirectional and random-access navigation is consistent with forward iteration, and aggregate queries such as search, count, fold, minimum and equality agree with that list.',
 ['inputs', 'programs'], 'All inputs and compositions of adaptors up to a random depth, in both traversal directions.',
 'Adaptor compositions form an unbounded program space; tests cover each adaptor alone on small literals.',
 ['collection/Range.h', 'collection/EnumerableHelpers.h', 'collection/EnumerableWrapper.h', 'collection/FuncEnumerator.h'],
 [], [('lazy adaptors over begin/next/prev', 'collection/Range.h')],
 ['element sequences'])

prop('C16', 'Value holders and inline containers build and destroy each element exactly once',
 'Optionals, variants, type-erased values, inline vectors and intrusive lists hold exactly the value last stored, report exactly whether and what they hold, and visit, compare and convert it accordingly. Every held object is constructed and destroyed exactly once across copy, move, swap, self-assignment, insertion and erasure, and an exception thrown by an element operation leaks nothing and leaves the holder in a valid state.',
 ['histories', 'fault_sequences'], 'All sequences of holder operations, with element copies or moves throwing at every possible point.',
 'Exception safety and self-assignment are over all throw points; the tests do not inject element failures.',
 ['optional.h', 'variant.h', 'any.h', 'any.cpp', 'collection/inplace_vector.h', 'collection/IntrusiveList.h', 'aligned_storage.h'],
 [S('active alternative', 'type index and raw storage', 'variant.h')],
 [('placement construction with rollback', 'variant.h')],
 ['per-object construction/destruction census', 'sanitizer reports'])

prop('C17', 'Serialization round-trips every supported value and rejects malformed input',
 'Serializing any supported object graph, including nested objects, containers, optionals, variants, enums, binary data, text of any content and polymorphic pointers, and deserializing the result restores an equal value, and writing that value again gives the same output. Input of the wrong type, with missing required members, with the wrong number of elements, with an unknown class, alternative or enum name, or with an integer out of range where the checked integer reader is used, is rejected by an exception, without memory errors.',
 ['inputs'], 'All values of the supported types, all nestings, and arbitrarily malformed or type-mismatched intermediate values.',
 'There are no unit tests for serialization.',
 ['serialization/Serialization.h', 'serialization/Serialization.cpp', 'serialization/Serializer.h', 'serialization/SettingsValue.h', 'serialization/SerializationHelper.h'],
 [S('settings value tree', 'variant of primitive, list and map values', 'serialization/SettingsValue.h')],
 [('typed visitors with range checks', 'serialization/Serialization.h')],
 ['restored values, exceptions'])

prop('C18', 'Text conversion and parsing are inverse, range-checked and reject bad input',
 'Converting integers, enums, booleans, byte strings, hexadecimal text, version numbers and unique identifiers to text and parsing it back gives the same value, and the text of integers, containers, optionals and pointers is exactly the canonical form. Parsing accepts exactly the valid spellings whose value fits the target type and rejects everything else by exception or failure result, never by a wrong value. Pattern-based parsing and formatting place each argument exactly where the pattern says.',
 ['inputs'], 'All values of each type, all strings, and all patterns.',
 'Overflow boundaries, sign handling and odd spellings are endless; tests hold a fixed list of literals.',
 ['string/ToString.h', 'string/Hex.h', 'string/StringParse.h', 'string/StringFormat.h', 'string/HumanReadableSize.cpp', 'Version.cpp', 'UUID.cpp', 'string/lexical_cast.h'],
 [], [('digit loops with overflow checks', 'string/ToString.h')],
 ['text and parsed values'])

prop('C19', 'Calendar and time arithmetic is exact and round-trips through every text form',
 'Conversion between instants and broken-down calendar time agrees with the proleptic Gregorian calendar for every instant and time zone, and formatting an instant or duration and parsing it back gives the same value up to the precision the format carries. Addition, subtraction, comparison, rounding and unit conversion of instants and durations satisfy integer arithmetic laws, and textual dates that are not valid are rejected.',
 ['inputs'], 'All instants in the supported range, all zones, all durations and all date strings.',
 'Leap years, negative offsets, truncation and month boundaries make the input space far larger than the listed literals.',
 ['time/Time.cpp', 'time/Time.h', 'time/Time.h', 'time/BrokenDownTime.cpp', 'time/posix/TimeEngine.cpp'],
 [], [('broken-down conversion with offset applied', 'time/Time.cpp')],
 ['converted fields and strings'])

prop('C20', 'Bit-level readers and writers move exactly the addressed bits',
 'Reading any bit field of any width up to the value size at any offset returns exactly those bits in the documented order and endianness, writing one changes exactly those bits, and successive stream reads and writes advance by exactly the widths used. Out-of-bounds accesses are rejected, and no access touches memory outside the buffer.',
 ['inputs'], 'All offsets, widths, value types, endiannesses and buffer contents, including reads ending at the last byte.',
 'Offset and width combinations around byte and word boundaries are too many to list by hand.',
 ['BitsGetter.h', 'BitwiseOperations.h', 'BitsGetter.h'],
 [], [('byte-wise shift and mask', 'BitsGetter.h')],
 ['returned values and buffer content'])

prop('C21', 'Big integers, decimals, rationals and fixed-point numbers compute exactly',
 'Addition, subtraction, multiplication, division, modulo, shifts, comparison and text conversion of arbitrary-precision integers and decimals agree with exact integer arithmetic for all operands and signs, including carries across internal digits and values far beyond machine words. Fixed-point, rational and general numeric helpers agree with their mathematical definition wherever the result is representable, and division by zero is reported.',
 ['inputs'], 'All operand values, signs and magnitudes, including self-operation and carry/borrow chains.',
 'Carry, borrow and normalisation errors appear only for particular digit patterns.',
 ['BigNum.cpp', 'BigNum.h', 'Decimal.cpp', 'Decimal.h', 'Rational.h', 'fixed_point.h', 'math.h', 'math.cpp'],
 [S('digit vector', 'little-endian base digits and sign', 'BigNum.cpp')],
 [('schoolbook algorithms with normalisation', 'BigNum.cpp')],
 ['results in decimal text'])

prop('C22', 'Compression followed by decompression restores the original data',
 'Any byte sequence compressed with a model and then decompressed with an identically trained model is restored exactly, whatever its length and content and whatever sequence of messages preceded it. Neither direction accesses memory out of bounds, and truncated or corrupted compressed input ends in an error or different data, never in undefined behaviour or an endless loop.',
 ['inputs', 'histories'], 'All byte sequences, model orders, training texts and corruptions of the compressed form.',
 'There are no tests for the compression code; carry and underflow situations in range coding are rare and input-specific.',
 ['compression/ArithmeticCoder.h', 'compression/ArithmeticDecoder.h', 'compression/ppm/PpmModel.h', 'compression/ppm/PpmCompressor.h', 'compression/ppm/PpmDecompressor.h'],
 [S('coder interval', 'low/high range with pending bits', 'compression/ArithmeticCoder.h')],
 [('identical model updates in both directions', 'compression/ppm/PpmModel.h')],
 ['decoded bytes'])

prop('C23', 'Character encoding conversion is lossless, standard-conforming and memory-safe',
 'Decoding and encoding text in each supported character set agrees with the published mapping of that set, and text representable in a set survives encoding and decoding unchanged. Conversion between byte strings, code points and wide strings accepts exactly well-formed sequences, iteration over encoded text visits exactly its code points forwards and backwards, and malformed or truncated input causes replacement or an exception but never an out-of-bounds access.',
 ['inputs'], 'All code points, all supported encodings and arbitrary, also malformed, byte strings.',
 'Per-byte mapping tables and malformed sequences have far more cases than tests list; the codec has no unit test.',
 ['locale/StringCodec.cpp', 'string/Unicode.cpp', 'string/Utf8IteratorRange.h', 'string/Utf8StringUtils.h', 'locale/Encoding.h'],
 [], [('table-driven conversion', 'locale/StringCodec.cpp'), ('UTF-8 sequence iteration', 'string/Utf8IteratorRange.h')],
 ['converted text and exceptions'])

prop('C24', 'String search, split, join and replace helpers match naive definitions',
 'Searching, splitting, joining, trimming, padding, replacing, case conversion and prefix or suffix tests return exactly what the direct definition gives for every string, separator and limit, including empty ones and adjacent or overlapping matches. Multi-pattern search reports exactly the occurrences that naive search finds, regular expressions generated for a numeric range match exactly the numbers of the range, line-by-line reading splits at every line end, and human-readable sizes stay within the requested error.',
 ['inputs'], 'All strings over small and large alphabets, all separators, pattern sets and limits.',
 'Overlaps, empty matches and boundary positions multiply; tests cover selected literals, and multi-pattern search has none.',
 ['string/StringUtils.h', 'string/StringUtils.cpp', 'string/AhoCorasick.h', 'string/RegexUtils.cpp', 'string/string_view.h', 'string/StringReader.h', 'string/RegexUtils.h'],
 [S('pattern automaton', 'trie with failure links', 'string/AhoCorasick.h')],
 [('iterator-based splitting', 'string/StringUtils.h')],
 ['returned strings and positions'])

prop('C25', 'Logging delivers each enabled message once and whole to every sink',
 'A message logged at or above the effective level of its logger reaches every sink registered at the time exactly once, with its text, level and logger name intact and not interleaved with other messages, and messages below the level reach none. Changing levels or sinks concurrently with logging is safe, messages from one thread arrive in order, and a failing sink affects neither the caller nor the other sinks.',
 ['schedules', 'histories'], 'All interleavings of logging, level changes and sink registration, including logging from inside sinks and at thread exit.',
 'There is no logger test; concurrency of sink registration and level changes is schedule-dependent.',
 ['log/Logger.cpp', 'log/Logger.h', 'log/LoggerStream.h', 'log/LoggerMessage.cpp'],
 [S('sink list and level registry', 'sinks under lock, per-logger levels', 'log/Logger.cpp')],
 [('sink list copy under lock', 'log/Logger.cpp')],
 ['messages received by each sink'])

prop('C26', 'Composed comparers define a consistent ordering and equality',
 'Comparers composed from members, collections, dereferencing, reversal or fuzzy equality define strict weak orderings that agree with lexicographic comparison of the selected members, equality holds exactly when neither side orders before the other, and three-way results agree with both. Comparison operators derived from a single comparison are mutually consistent for all pairs of values.',
 ['inputs'], 'All pairs and triples of values over every composition of comparers.',
 'Order axioms quantify over triples of inputs; tests check single pairs.',
 ['compare/comparers.h', 'compare/MemberListComparer.h', 'compare/MemberToValueComparer.h', 'compare/CollectionComparer.h', 'compare/Comparable.h'],
 [], [('member-list comparison in declaration order', 'compare/MemberListComparer.h')],
 ['comparison results'])

prop('C27', 'Observable values and signal-derived values never miss, repeat or tear an update',
 'An observable value (and the view of one key of an observable dictionary or set as such a value) announces each actual change exactly once, in order, with the new value, announces nothing when the assigned value is equal, and gives subscribers the current value first; readers in any thread see only values that were assigned. Values and futures obtained from signals take the first emission that satisfies their condition, are ready afterwards and never block when an emission preceded or raced with the wait.',
 ['schedules', 'histories'], 'All interleavings of assignment, subscription, reading and waiting.',
 'A missed update needs the emission to fall between subscription and wait; tests run these steps one after another.',
 ['ObservableValue.h', 'signal/ValueFromSignalObtainer.h', 'signal/SignalToFuture.h', 'collection/ObservableDictionaryKeyValue.h', 'collection/TransactionalDictionaryKeyValue.h', 'collection/ObservableSetEntry.h'],
 [S('current value', 'value guarded by a mutex with change signal', 'ObservableValue.h')],
 [('value change and signal under one lock', 'ObservableValue.h')],
 ['events, reads and wait results'])

prop('C28', 'Scope guards, holders, tokens and undo transactions run actions exactly once',
 'Scope guards, resource holders, tokens and token containers run the action they own exactly once, at release or scope exit and in the documented order, on every path including exceptions, moves and resets, and never after they were cancelled or released. An action transaction that is not committed undoes exactly the actions performed, in reverse order, and a committed one undoes nothing.',
 ['histories', 'fault_sequences'], 'All sequences of operations on the guards, with actions throwing at every step.',
 'Exactly-once on every exceptional path is over all throw points; there are no tests for these classes.',
 ['ScopeExit.h', 'Holder.h', 'Token.h', 'FunctionToken.h', 'Token.h', 'ActionTransaction.cpp', 'ObjectPool.h', 'Finalizer.h'],
 [S('armed flag', 'whether the cleanup is still owed', 'Holder.h')],
 [('cleanup in destructor guarded by validity flag', 'Holder.h')],
 ['action invocations'])

prop('C29', 'Locks, once-initialisation and atomics keep their guarantees under contention',
 'Critical sections guarded by mutexes, locks, synchronised values and semaphores never admit more holders than allowed and always admit a waiter once released; a barrier releases all parties together and only when all arrived; once-initialised objects and singletons are constructed exactly once and never seen half-built. Atomic counters and flags lose no update and compare-and-swap succeeds exactly when the expected value was present. A started thread runs its function exactly once and destruction of its handle cancels and joins it.',
 ['schedules'], 'All interleavings of the participating threads.',
 'Atomicity and mutual exclusion are by nature schedule properties; tests run short single interleavings.',
 ['thread/GenericMutexLock.h', 'thread/SyncValue.h', 'thread/Barrier.h', 'thread/atomic/AtomicInt.h', 'thread/posix/PosixThreadEngine.cpp', 'thread/posix/PosixSemaphore.cpp', 'thread/call_once.h', 'Singleton.h', 'lazy.h'],
 [S('lock word and counters', 'native primitives', 'thread/posix/PosixThreadEngine.cpp')],
 [('native mutex, condition and once primitives', 'thread/posix/PosixThreadEngine.cpp')],
 ['critical-section occupancy, counters'])

prop('C30', 'Packet framing delivers whole packets once, in order, with their metadata',
 'Packets written to a packet buffer or aligner, in pieces of any size, reach the consumer whole, once and in order with the metadata they were written with, and buffers never hold or hand out partial packets or bytes of different packets mixed. Full and empty conditions, end of data and discarding of corrupt or surplus input leave subsequent packets intact.',
 ['histories', 'schedules', 'inputs'], 'All packet sizes, chunkings, buffer sizes and interleavings of producer and consumer.',
 'There are no unit tests for packet buffers, and boundary alignment depends on size combinations.',
 ['io/PacketBuffer.h', 'io/DataPacketer.h', 'io/DataAligner.h', 'io/IDataSource.h'],
 [S('packet queue', 'sizes and metadata in step with the ring buffer', 'io/PacketBuffer.h')],
 [('size queue and ring buffer kept in step', 'io/PacketBuffer.h')],
 ['packets received with metadata'])

prop('C31', 'Reference-counting and joining collections track exactly the live references',
 'A reference-counted value, set or map contains an entry exactly while at least one reference to it is outstanding, invokes its appearance and disappearance callbacks exactly once per period, and reports the counts that the history of adds and removes implies. A callback that fails leaves no entry without a reference. The joined view of several byte containers is exactly their concatenation: its size, indexing, iteration in both directions, distances and the pieces shown to a visitor of an interval.',
 ['histories', 'inputs'], 'All sequences of acquire and release, in any nesting and order, and all containers joined.',
 'Count errors appear only for particular acquire/release orders; tests follow a few fixed ones.',
 ['collection/RefCountingMap.h', 'collection/RefCountingSet.h', 'collection/RefCountingValue.h', 'collection/DataJoiner.h'],
 [S('reference count per key', 'number of outstanding references', 'collection/RefCountingMap.h')],
 [('erase on count reaching zero', 'collection/RefCountingMap.h')],
 ['content, counts and callbacks'])

prop('C32', 'A command line runs exactly the command that its words and parameters name',
 'Executing a line runs exactly one registered command - the earliest registered one whose words and typed parameters match the whole line - with every parameter converted from its text, or runs nothing and says so; a line that is incomplete, has text left over or a parameter that cannot be converted is never accepted for that command. Completions are exactly the continuations that the words and the suggested values of each command allow at the end of the line, escaped so that following them gives a line that is accepted, and those of one command do not depend on the others. A command whose token is released is not run afterwards, releasing waits for a run in another thread, and a command may release itself.',
 ['inputs', 'schedules', 'histories'], 'All sets of commands, all lines, and all interleavings of executing, registering and releasing.',
 'There are no tests for command lines; the space of declarations, values and escapes is combinatorial.',
 ['CmdLine.h', 'CmdLine.cpp'],
 [S('registered commands', 'commands by the order of registration', 'CmdLine.cpp')], [('parameters read from the line by type', 'CmdLine.h')],
 ['commands run with their arguments, results, completions'])

prop('C33', 'Intervals, rectangles and numeric ranges obey set algebra',
 'Intersection, containment, union bounds, translation and size of numeric ranges, time intervals and rectangles agree with the point-set definition for all operands, including empty, touching and degenerate ones (rectangles are closed sets, so touching ones intersect; ranges that only touch do not), and averages, accumulators and progress values derived from samples agree with their definition. Progress stays in its declared range (for values whose hundredfold fits 64 bits), aggregate progress is the weighted sum of its parts, stages of a data pipe compose without losing the data they hold at the end, and bandwidth reports add up to the bytes that passed unchanged.',
 ['inputs'], 'All operand combinations, including empty and touching intervals.',
 'Touching and degenerate combinations multiply and have no tests.',
 ['NumericRange.h', 'Rect.h', 'Size.h', 'time/TimeInterval.h', 'ProgressValue.cpp', 'Accumulators.h', 'Average.h'],
 [], [('min/max of bounds', 'Rect.h')],
 ['results for all small operands'])

prop('C34', 'Function objects, binders and tuples pass exactly the given arguments',
 'Calling a function object, a binder or a composed functor invokes its target exactly once, with the bound values and the call\'s arguments in exactly the positions the placeholders name, and hands its result or exception on; references refer to the original objects, move-only arguments are moved once and values that are kept are never moved from. Function objects are copied, moved, stored and converted without losing what they call, what they captured lives exactly as long as its last copy, and a method is never called with a null object. Tuples hold, reverse, filter, concatenate and forward exactly their elements.',
 ['inputs', 'histories'], 'All arrangements of bound values and placeholders, all kinds of targets, nested binders, temporaries and references.',
 'The arrangements multiply, a copy taken or an argument moved too early is only visible for particular types and combinations.',
 ['function/function.h', 'function/bind.h', 'function/FunctorInvoker.h', 'function/functional.h', 'function/PackArguments.h', 'Tuple.h', 'lazy.h'],
 [S('target of a function', 'function (shared between its copies)', 'function/function.h')], [('selection of the argument for a position', 'function/bind.h')],
 ['the calls the target sees with the identity of every argument', 'results', 'construction and destruction of every argument and captured object'])

prop('C35', 'Dispatchers, factories and translated texts select the declared case',
 'A mapper, visitor or multiple dispatcher selects exactly the case declared for the given value or dynamic type - the handler sees the very object - and fails (or takes the declared default) when no case is declared. A factory creates exactly the class registered for a name in its context or the nearest enclosing one, a name is registered at most once, and registrations and creations of several threads do not disturb each other. A translated text yields, for an ordered list of languages, the first available translation, operations on it (append, join, replace, transform, serialize) act on each language separately and leave its other copies alone, and language codes compare equal exactly when their letters do regardless of case. Integer builders concatenate exactly the given bits, sequence generators give each number once, random numbers stay in range and repeat for a seed.',
 ['inputs', 'histories', 'schedules'], 'All values, types, nested contexts, sets of languages, and interleavings of registrations and creations.',
 'Selections go wrong only for particular combinations of declared and undeclared cases; most of these parts have no tests.',
 ['Mapper.h', 'IVisitor.h', 'VariantMultidispatch.h', 'GenericEntityFactory.h', 'factory/Factory.h', 'factory/Factory.cpp', 'Creators.h', 'string/TranslatedString.h', 'string/TranslatedStringUtils.h', 'locale/LangCode.cpp', 'Random.cpp', 'IntegerBuilder.h', 'IntegerSequenceGenerator.h'],
 [S('registry of a factory context', 'classes by name', 'factory/Factory.cpp')], [('lookup of a translation by language', 'string/TranslatedString.h')],
 ['the selected handler and object', 'created objects', 'texts per language'])
