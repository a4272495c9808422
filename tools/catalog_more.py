prop('C04', 'Heaps hold exactly what was put on them and always yield the smallest first',
     'For every history of operations, a heap holds exactly the elements put on it and not yet taken off, popping returns an '
     'element with nothing smaller on the heap, ascending iteration gives every element in order and leaves the heap alone, and '
     'filtering, mapping and copying keep exactly the selected elements. The set variants hold every element at most once with '
     'lookups in agreement with the contents; the time based variants give out exactly the entries with timestamps strictly '
     'below the requested one, earliest first, and reports of missing or empty are given only when that is the case.',
     ['histories', 'inputs'], 'all operation histories and all totally preordered elements and timestamps',
     'a broken heap invariant or a stale lookup shows only after a specific sequence of pushes, removals and ties',
     ['satella/coding/structures/heaps/base.py', 'satella/coding/structures/heaps/time.py'],
     [('heap order', 'Heap.push / pop / pop_item / push_many / filter_map / iter_ascending'),
      ('uniqueness', 'SetHeap.* ; TimeBasedSetHeap.push / pop / filter_map'),
      ('due entries', 'TimeBasedHeap.pop_less_than')], 'contents and order of what the heap returns')
prop('C05', 'Sorted lists and rankings stay sorted and report true positions',
     'For every history of additions and removals, a sorted list holds exactly the items added and not removed, ordered by '
     'their keys; adding returns the position at which the item is found, and popping from either end returns an item with the '
     'extreme key. Indexing and slicing agree with a plain list of the items, and a sliceable deque with a plain deque. A ranking reports, for every element it holds, '
     'the position at which the element is found, and no position for elements it does not hold.',
     ['histories', 'inputs'], 'all histories, items and key functions (including equal keys and items that cannot be compared)',
     'misplaced items and stale positions need particular key patterns and removal orders',
     ['satella/coding/structures/sorted_list.py', 'satella/coding/structures/ranking.py'],
     [('order', 'SortedList.add / remove / pop / popleft / __init__'), ('slicing', 'SliceableDeque.__getitem__'),
      ('positions', 'Ranking.add / remove / calculate_ranking_for')], 'order of items, positions, results of lookups')
prop('C06', 'Dictionary variants agree with a plain dictionary and keep their extra promise',
     'After every history of operations each dictionary variant holds exactly what a plain dictionary would, and: a two-way '
     'dictionary can be read backwards consistently at all times and refuses only values that belong to another key; a dirty '
     'dictionary is dirty exactly if its contents changed since the flag was cleared; a default dictionary calls its factory '
     'only for missing keys and answers membership without inserting; counting, view and attribute dictionaries return the '
     'counted, first-found and stored values, and copies share nothing they should not.',
     ['histories', 'inputs'], 'all operation histories, keys and values',
     'the mirror, the flag and the inserted defaults diverge only after particular sequences of operations',
     ['satella/coding/structures/dictionaries/objects.py', 'satella/coding/structures/dictionaries/counting.py',
      'satella/coding/structures/dictionaries/default.py', 'satella/coding/structures/dictionaries/dict_object.py'],
     [('two directions', 'TwoWayDictionary.__setitem__ / __delitem__ / reverse'), ('dirty flag', 'DirtyDict.__setitem__ / __delitem__'),
      ('defaults', 'KeyAwareDefaultDict.__getitem__ / __contains__')], 'contents, reverse contents, flag, factory calls')
prop('C07', 'Expiring dictionaries serve exactly the live entries, self-cleaning no defaults',
     'For every history of operations and clock readings, an expiring dictionary serves, counts and iterates exactly the entries '
     'stored at most the timeout ago, forgets expired ones completely, and reports missing or expired keys with KeyError, also '
     'when other threads use it or clean it up. A self-cleaning default dictionary holds exactly the values that differ from its '
     'default, answers reads of other keys with a default, and membership inserts nothing; background cleaning reaches every '
     'registered dictionary that is still alive.',
     ['histories', 'schedules', 'inputs'], 'all operation histories, clock readings, keys and values, and thread schedules',
     'entries left behind in one of the two internal maps surface only in a later cleanup, at particular clock readings',
     ['satella/coding/structures/dictionaries/expiring.py'],
     [('expiry', 'ExpiringEntryDict.__getitem__ / __contains__ / cleanup'), ('cleaning', 'SelfCleaningDefaultDict.cleanup'),
      ('maintenance', 'ExpiringEntryDictThread.cleanup')], 'what is served, counted and iterated at each clock reading')
prop('C08', 'Caches never serve expired values and size-limited ones drop the least recent',
     'For every history, a cache serves a stored value without asking its source exactly while it is not expired, refreshes it '
     'in the background exactly when it is stale, and otherwise blocks for one fetch whose result is stored with the current '
     'time. A source reporting a missing key evicts the entry, and the failure is repeated from memory exactly for the configured '
     'time; feeding, invalidation and default values act accordingly. A size-limited cache never exceeds its size, drops entries '
     'only to make room for a new key, and drops the least recently used.',
     ['histories', 'inputs'], 'all operation histories, intervals, clock readings and source behaviours',
     'needs particular ages of entries combined with failing refreshes, cached failures and full caches',
     ['satella/coding/structures/dictionaries/cache_dict.py', 'satella/coding/structures/lru.py'],
     [('ages', 'CacheDict.__getitem__ / _on_cache_hit'), ('refresh', 'CacheDict.schedule_a_fetch / _on_failure'),
      ('eviction', 'LRUCacheDict.make_room / LRU')], 'values served, fetches made, entries held')
prop('C09', 'A write-back cache always shows, and finally stores, the last write',
     'For every history and schedule of reads, writes and deletes by several threads, an exclusive write-back cache whose '
     'executor runs tasks in order returns the last value written (KeyError after a delete or if the storage has none), asks the '
     'storage only about keys it knows nothing about, and sends every write and delete to the storage exactly once, in an order '
     'in which cache and storage end up in agreement. Waiting for completion returns only once everything submitted is done and '
     'gives up only after the given time.',
     ['histories', 'schedules', 'inputs'], 'all operation histories, keys, values and thread schedules',
     'a stale read or a divergence of storage and cache needs a read racing with a write or a delete',
     ['satella/coding/structures/dictionaries/writeback_cache.py'],
     [('agreement', 'ExclusiveWritebackCache.__getitem__ / __setitem__ / __delitem__'), ('forgetting', 'ExclusiveWritebackCache._operate'),
      ('waiting', 'ExclusiveWritebackCache.sync')], 'values read, tasks submitted, contents of the storage')
prop('C10', 'A sparse matrix holds exactly the cells set, within exact extents',
     'After every history of operations on cells, rows and columns (with negative indices and full slices) a sparse matrix holds '
     'exactly the cells set and not deleted, setting None being the same as deleting; its numbers of rows and columns reach '
     'exactly up to the last defined cell. Reading, iterating, neighbours, extremes, equality and derived matrices agree with '
     'these contents, indices out of range are refused with IndexError, and reading never changes the matrix.',
     ['histories', 'inputs'], 'all operation histories, indices and values',
     'the per-column counts and extents go wrong only after particular overwrites and deletions',
     ['satella/coding/structures/sparse_matrix.py'],
     [('cells', 'SparseMatrix.__getitem__ / __setitem__ / __delitem__'), ('extents', 'SparseMatrix._calculate_*_count / known_column_count'),
      ('rows and columns', 'SparseMatrix.delete_row / append_row / get_row')], 'contents, sizes, refusals')
prop('C11', 'Deleting while iterating removes exactly the marked elements',
     'Iterating a list or dictionary through a deleter, forwards or backwards, visits every element exactly once, in order, and '
     'does not change the container meanwhile; moving back and forth gives the adjacent element, and stops at either end. When '
     'the deletion takes place, or the context is left (normally or by an exception, which passes), exactly the elements marked '
     'since the iteration began are removed, once, and all others stay in order.',
     ['inputs', 'histories'], 'all containers, markings, directions and moves',
     'shifting indices go wrong only for particular patterns of marks and directions',
     ['satella/coding/deleters.py'],
     [('removal', 'ListDeleter.remove_items / DictDeleter.__exit__'), ('movement', 'ListDeleter.__next__ / prev'),
      ('marking', 'ListDeleter.delete / DictDeleter.delete')], 'elements visited, contents afterwards')
prop('C12', 'Frozen objects never change, equal objects hash equal, singletons are single',
     'Once constructed, an immutable object or a frozen dictionary keeps its contents: every way of setting or deleting an '
     'attribute or entry is refused with TypeError. Objects made comparable and hashable by fields compare exactly as the fields '
     'do, consistently in both directions, and equal ones have equal hashes. For every history of constructions a singleton class '
     'yields one instance (per leading arguments, if so asked), constructed once, and a failed construction leaves none behind.',
     ['inputs', 'histories'], 'all attribute names, values, field values and histories of constructions',
     'an unguarded method, an order dependent hash or a half-built instance shows only for particular values or after a failure',
     ['satella/coding/structures/immutable.py', 'satella/coding/structures/mixins/eqable.py', 'satella/coding/structures/mixins/hashable.py',
      'satella/coding/structures/mixins/enums.py', 'satella/coding/structures/singleton.py'],
     [('write refusal', 'Immutable.__setattr__ / frozendict.*'), ('comparison', 'DictionaryEQAble / OmniHashableMixin / ComparableAndHashableBy*'),
      ('instances', 'Singleton / SingletonWithRegardsTo')], 'refusals, comparison results, hashes, identities')
prop('C13', 'Proxies and wrappers behave exactly like the object inside',
     'Whatever the wrapped object and the operands, every operator, comparison, conversion, item, attribute or call applied to a '
     'proxy is performed on the wrapped object exactly once with the same operands, and gives its result (wrapped, where that was '
     'asked for) or its exception; in-place operators give the proxy itself, now holding the result. An optional of nothing answers calls, attributes and '
     'items with an empty optional, takes assignments without effect, is empty and compares false. Hashable wrappers are equal '
     'exactly if they wrap the same object, in agreement with their hashes; an iterable that can be pushed to gives the pushed '
     'items back last-in first-out before continuing with its source.',
     ['inputs', 'histories'], 'all wrapped objects, operands, results and exceptions',
     'there are some eighty operations, most of which tests exercise with one friendly value or not at all',
     ['satella/coding/structures/proxy.py', 'satella/coding/structures/hashable_objects.py', 'satella/coding/structures/push_iterable.py',
      'satella/coding/structures/tuples.py', 'satella/coding/structures/zip_dict.py', 'satella/coding/optionals.py'],
     [('forwarding', 'Proxy.__*__'), ('wrapping', 'wrap_operation'), ('nothing', 'Optional.__*__'), ('pushing', 'PushIterable.pop / push / push_left')],
     'results, exceptions and calls seen by the wrapped object')
prop('C14', 'Callback groups call every live callback once, rate limits hold',
     'For every history of registrations, cancellations and calls, with callbacks that fail, cancel or register others, a call of a '
     'callback group calls each registered callback that is not cancelled once, in order of registration, with the given arguments, '
     'and gives one result each; one-shot callbacks are called in one call only, and the others, as well as those not reached '
     'because an earlier one failed, stay registered. A rate limited function is called at its first call and then exactly if its '
     'interval has passed since the last call ended.',
     ['inputs', 'histories', 'faults'], 'all groups, options, histories, failures and times',
     'a callback is lost or called twice only for particular combinations of failing, one-shot and cancelled ones',
     ['satella/coding/concurrent/callablegroup.py'],
     [('calling', 'CallableGroup.__call__'), ('registration', 'CallableGroup.add / remove_cancelled'), ('interval', 'CallNoOftenThan.__call__')],
     'calls made, results, callbacks registered afterwards')
prop('C15', 'Futures give exactly the outcome they were last set to',
     'Whatever callbacks are attached and however completion, cancellation and waiting overlap, a future is done once, calls each '
     'pre-done callback once before and each other callback once after it, and gives to every present and later caller the result or '
     'exception that was set last; a wrapped future has the outcome of its source and wakes all that wait for it. An operation on a '
     'collection of futures applies to every one of them, and results of parallel execution come in the order of the arguments.',
     ['inputs', 'schedules', 'faults'], 'all outcomes, callbacks, collections and orders of completion and cancellation',
     'a lost or hanging outcome needs a particular overlap of completion, wrapping and cancellation',
     ['satella/coding/concurrent/futures/futures.py', 'satella/coding/concurrent/futures/collection.py',
      'satella/coding/concurrent/futures/wrapped_executor.py', 'satella/coding/concurrent/functions.py', 'satella/coding/concurrent/list_processor.py'],
     [('completion', 'Future.set_result / set_exception / WrappingFuture._on_future_completed'), ('collections', 'FutureCollection.*'),
      ('parallel execution', 'parallel_execute / parallel_construct / run_as_future')], 'results, exceptions, callbacks called')
prop('C16', 'Waiting never loses a wake-up and ends exactly when it should',
     'Under every schedule, a thread waiting for an element of a queue, for a value of an atomic number, for a deferred value or '
     'for a thread pool to finish goes on as soon as what it waits for is there, and gives up, with the documented exception, '
     'only if a timeout was given, has passed, and it is not there. A queue delivers every element once, in order, and peeking '
     'takes nothing; a deferred value is set once and seen equally by all; calls made in separate threads always complete their '
     'future with the outcome.',
     ['schedules', 'inputs'], 'all thread schedules, timeouts, values and outcomes',
     'a lost wake-up needs a notification exactly between a check and the start of waiting',
     ['satella/coding/concurrent/queue.py', 'satella/coding/concurrent/atomic.py', 'satella/coding/concurrent/value.py',
      'satella/coding/concurrent/sync.py', 'satella/coding/concurrent/thread.py'],
     [('condition variables', 'PeekableQueue.get / put ; AtomicNumber.wait_until_equal ; Condition.wait / notify'),
      ('set once', 'DeferredValue.set_value / value'), ('workers let go', 'sync_threadpool')], 'who is woken up, results, exceptions')
prop('C17', 'Threads stop when told to, periodic work and timers run once and in time',
     'A terminable thread prepares once, repeats its loop until termination is requested (never again afterwards), cleans up '
     'exactly once however it ends, ends quietly exactly on a listed exception or SystemExit, and its sleeps last as asked for '
     'unless termination is requested. A periodic thread keeps its period and reports exactly the overruns. A started timer '
     'that is not cancelled is executed exactly once, not before its time and at most about a second late, whatever other '
     'timers do or raise and whichever threads start them; collections of threads apply each operation to every thread.',
     ['schedules', 'histories', 'inputs'], 'all loops, exceptions, durations, moments of termination and sets of timers',
     'needs exceptions or requests at particular points, equal due times or failing timers next to others',
     ['satella/coding/concurrent/thread.py', 'satella/coding/concurrent/timer.py', 'satella/coding/concurrent/thread_collection.py'],
     [('loop and cleanup', 'TerminableThread.run / safe_sleep ; IntervalTerminableThread.run'), ('due timers', 'TimerBackgroundThread.run ; Timer.start'),
      ('collections', 'ThreadCollection.*')], 'calls of the hooks, their times, exceptions leaving the thread')
prop('C18', 'Pooled connections have one holder at a time and are torn down once',
     'Under every schedule a connection pool gives each connection to at most one holder at a time, at most the configured '
     'number of times, and never again after it was reported as failed or torn down; it makes a new one only if none is idle. '
     'A released connection is kept for further use unless it has failed, is used up, enough are idle, or the pool was closed: '
     'then it is torn down, exactly once. Invalidating and closing a pool tear down all idle connections and leave none behind; '
     'a closeable resource is cleaned up exactly once, however and however often it is closed.',
     ['schedules', 'histories', 'faults'], 'all schedules, histories, limits, failures of creating and tearing down',
     'a connection with two holders or left open needs threads that acquire, release and close at the same time',
     ['satella/coding/resources/cp_manager.py', 'satella/coding/misc.py'],
     [('pool', 'CPManager.acquire_connection / release_connection / _kill_connection / fail_connection / invalidate / close'),
      ('closing once', 'Closeable.close')], 'connections given out, calls of create_connection and teardown_connection')
prop('C19', 'Measured time is the time spent running; backoff and sleep keep their limits',
     'For every history of starting, stopping, resuming and resetting, a measurement reports exactly the time it was running, '
     'stands still while stopped, refuses only what is documented, and exceeds its timeout exactly when that time reaches it; each decorated '
     'call gets a measurement of its own. A backoff starts with its first delay after the grace, doubles it up to '
     'the limit, is ready exactly when healthy or the delay is over, and waiting for it ends in time or when success is reported. '
     'Sleeping lasts as long as asked for and time strings in all documented units are read correctly.',
     ['histories', 'inputs', 'schedules'], 'all histories, times, limits, failures, interruptions and units',
     'resumed measurements, times passing between two readings of the clock and failures reported meanwhile',
     ['satella/time/measure.py', 'satella/time/backoff.py', 'satella/time/misc.py', 'satella/time/parse.py'],
     [('measuring', 'measure.*'), ('backing off', 'ExponentialBackoff.*'), ('sleeping', 'sleep ; parse_time_string')], 'times reported, delays, exceptions')
prop('C20', 'Exceptions are handled exactly as told and never lost; retries keep their limits',
     'For every outcome of the wrapped operation, the exception tools (as decorators and as context managers alike) translate, silence or '
     'log exactly the exceptions they were given, pass on every other exception and every result unchanged, also with nested and recursive use. '
     'Retrying calls the operation until it succeeds and at most as often as allowed, with each callback called exactly when documented; '
     'queue readers, loops and generator watchers handle only their own signals. Global exception hooks run in the order of priority, each '
     'once, until one intercepts, and a failing hook does not stop the others.',
     ['inputs', 'histories'], 'all outcomes, numbers of retries, nested calls and hooks',
     'a recursive call, a callback that raises, or the same exception with another meaning',
     ['satella/coding/recast_exceptions.py', 'satella/coding/decorators/retry_dec.py', 'satella/coding/decorators/flow_control.py',
      'satella/coding/expect_exception.py', 'satella/coding/ctxt_managers.py', 'satella/coding/generators.py',
      'satella/exception_handling/global_eh.py', 'satella/exception_handling/exception_handlers.py'],
     [('exception tools', 'reraise_as ; rethrow_as ; silence_excs ; log_exceptions ; expect_exception ; catch_exception'), ('retries', 'retry'),
      ('control flow', 'queue_get ; loop_while ; RunActionAfterGeneratorCompletes'), ('hooks', 'GlobalExcepthook.*')],
     'results, exceptions, and calls of the callbacks')
prop('C21', 'Condition, argument, result and memoizing decorators do exactly what they say',
     'For every function and every way of giving the arguments, the decorators see each argument under its name and with its value, defaults '
     'included; conditions let a call through exactly if they hold, transformations, replacements and copies touch only the arguments and '
     'results they name, and the function is called once with everything else unchanged. A memoized function is computed exactly '
     'when there is no value for the same arguments that is still valid, and a value is never served for other arguments.',
     ['inputs', 'histories'], 'all values, signatures and calls (up to five arguments) and histories of calls',
     'keyword arguments, defaults, pairs returned, or a predicate that does not hold',
     ['satella/coding/decorators/arguments.py', 'satella/coding/decorators/decorators.py', 'satella/coding/decorators/preconditions.py',
      'satella/coding/misc.py'],
     [('arguments', 'get_arguments ; call_with_arguments ; for_argument ; transform_arguments ; replace_argument_if'),
      ('conditions', 'precondition ; postcondition'), ('memoizers', 'memoize ; cache_memoize')], 'calls of the decorated function, results and exceptions')
prop('C22', 'A binary parser reads exactly the bytes of its window, in order',
     'For every stream, offset and length, a binary parser gives out the bytes of its window one after another, each exactly once and as '
     'the structure asked for; it refuses a read that needs more bytes than remain, and then consumes nothing, and never reads '
     'past its window or the stream. A parser of a part sees exactly that part, and the remaining and total counts are always right.',
     ['histories', 'inputs'], 'all streams, windows, pointers and structures',
     'an offset without a length, an empty window, or a failed read',
     ['satella/parsing.py'], [('parser', 'BinaryParser.*')], 'bytes and values read, refusals, counts')
prop('C23', 'Iterator and sequence tools give exactly the documented elements, in order',
     'For every sequence or one-shot iterator, of any length, the iterator and sequence tools give exactly the documented elements in '
     'the documented order, each once and none besides, and report what is missing by the documented exception. They take no more elements '
     'from an iterator than documented. A wrapped iterator behaves as the list of all its elements, loads only what is needed, and can be '
     'iterated over again; a generator marked to complete does so exactly when closed.',
     ['inputs', 'histories'], 'all sequences and iterators of any length, all positions, steps and predicates',
     'an iterator instead of a list, an empty sequence, a position at or past the end',
     ['satella/coding/sequences/iterators.py', 'satella/coding/sequences/sequences.py', 'satella/coding/sequences/choose.py',
      'satella/coding/sequences/average.py', 'satella/coding/iterators.py'],
     [('iterators', 'enumerate2 ; even ; take_n ; skip_first ; unique ; walk ; ListWrapperIterator'),
      ('sequences', 'is_last ; add_next ; half_cartesian ; group_quantity ; index_of ; choose'), ('generators', 'chain ; SelfClosingGenerator')],
     'elements, their order, exceptions, positions of the source iterators')
prop('C24', 'Predicates compute what their expression says; structures are rebuilt exactly',
     'For every expression built of predicates, values and operators, attributes, items or tests, calling it gives exactly what the same '
     'expression gives on the value in place of x, operands in their order and each computed once, or fails as that does; building it computes nothing '
     'and leaves the predicates it is made of unchanged. Building a structure replaces exactly the predicates, at every depth and in keys too, and '
     'keeps the types, order and all other elements.',
     ['inputs'], 'all expressions, values and structures',
     'reflected operators, nested predicates, raising operands and keys of nested structures',
     ['satella/coding/predicates.py'], [('predicates', 'PredicateClass.* ; make_operation_two_args ; make_operation_single_arg'), ('structures', 'build_structure')],
     'results of predicates and built structures')
prop('C25', 'Value transforms and dictionary helpers give exactly the documented result',
     'Conversions to strings, integers and JSON-able values keep structure and order, with the documented fallbacks only; interpolation, clipping, '
     'percentiles and padding give the documented value for every series, padding made by a factory being made anew each time, and refuse what is outside. '
     'Merging sorted lists and time series gives every key or time once, ascending, with exactly the values belonging to it. '
     'Helpers for dictionaries and attributes (subset, unpacking, numbering, merging, conditional updates, comparing) read, change and report '
     'exactly what they name.',
     ['inputs'], 'all values, series, lists, dictionaries and times',
     'a time on a knot, series of different lengths, equal keys in several lists, or falsy values',
     ['satella/coding/transforms/__init__.py', 'satella/coding/transforms/interpol.py', 'satella/coding/transforms/percentile.py',
      'satella/coding/transforms/merge_list.py', 'satella/coding/transforms/merger.py', 'satella/coding/transforms/jsonify.py', 'satella/coding/misc.py',
      'satella/coding/algos.py', 'satella/coding/deep_compare.py'],
     [('numbers', 'linear_interpolate ; percentile ; clip ; intify'), ('merging', 'merge_list ; merge_series'),
      ('dictionaries', 'update_key_if_not_none ; update_attr_if_none ; merge_dicts ; unpack_dict ; is_subset')],
     'values returned, exceptions, and the dictionaries and objects changed')
prop('C26', 'Metrics report exactly what was fed to them, under their names and labels',
     'For every history of values, labels and levels, a metric takes exactly the values its effective level allows, each once, and reports the exact counts, '
     'sums, last values, buckets, windowed quantiles or link states, one entry per name and labels, under its full name and with the time of its last update '
     'if asked for. Parents report exactly the children their level includes; internal data is never rendered, and what is rendered for Prometheus reads back '
     'as the same data. Collections add, rename, label and compare as sets of entries; measuring counts every run once, and caches with metrics behave as '
     'those without, counting each hit, miss, refresh and eviction once.',
     ['inputs', 'histories'], 'all histories of calls, values, labels, levels, collections and caches',
     'labels after plain calls, a full window, values on the edge of a bucket, levels that are inherited, or equal names',
     ['satella/instrumentation/metrics/__init__.py', 'satella/instrumentation/metrics/data.py', 'satella/instrumentation/metrics/labeled.py',
      'satella/instrumentation/metrics/aggregate.py', 'satella/instrumentation/metrics/metric_types/base.py',
      'satella/instrumentation/metrics/metric_types/counter.py', 'satella/instrumentation/metrics/metric_types/cps.py',
      'satella/instrumentation/metrics/metric_types/histogram.py', 'satella/instrumentation/metrics/metric_types/linkfail.py',
      'satella/instrumentation/metrics/metric_types/summary.py', 'satella/instrumentation/metrics/metric_types/simple.py',
      'satella/instrumentation/metrics/metric_types/measurable_mixin.py', 'satella/instrumentation/metrics/exporters/prometheus.py',
      'satella/instrumentation/metrics/structures/cache_dict.py'],
     [('metrics', 'getMetric ; Metric.* ; EmbeddedSubmetrics.* ; CounterMetric.* ; SummaryMetric.* ; HistogramMetric.* ; ClicksPerTimeUnitMetric.* ; LinkfailMetric.*'),
      ('data', 'MetricData.* ; MetricDataCollection.*'), ('rendering', 'metric_data_collection_to_prometheus'), ('measuring', 'MeasurableMixin.*'),
      ('caches', 'MetrifiedCacheDict ; MetrifiedLRUCacheDict ; MetrifiedExclusiveWritebackCache')],
     'reported metric data, rendered text, values measured, callbacks')
prop('C27', 'Configuration loads, merges and checks as described; transactions end once',
     'For every tree of sources, merged configuration is that of all sources which do not fail, later ones overriding earlier, however often it is loaded and '
     'leaving the sources unchanged; alternatives give the first that does not fail, and failures arise exactly as configured. A schema gives exactly the converted value '
     'or refuses it, changing neither, and is refused itself if it names unknown types. A transaction commits exactly if its body succeeds, else rolls back, and closes '
     'its cursor whatever fails; lazily loaded objects are loaded once, before they are used.',
     ['inputs', 'faults', 'histories'], 'all trees of sources, documents, schemas, values and faults',
     'loading twice, failing sources, relative directories, a default with optional off, or a failing commit',
     ['satella/configuration/sources/derivative.py', 'satella/configuration/sources/file.py', 'satella/configuration/sources/format.py',
      'satella/configuration/sources/envvars.py', 'satella/configuration/sources/from_dict.py', 'satella/configuration/sources/object_from.py',
      'satella/configuration/schema/base.py', 'satella/configuration/schema/basic.py', 'satella/configuration/schema/structs.py',
      'satella/configuration/schema/from_json.py', 'satella/db.py', 'satella/dao.py'],
     [('sources', 'MergingSource.provide ; AlternativeSource.provide ; DirectorySource.* ; FormatSource.provide ; load_source_from_dict'),
      ('schemas', 'Descriptor.__call__ ; Dict.__call__ ; List.__call__ ; Union.__call__ ; descriptor_from_dict'), ('transactions', 'transaction.*'), ('loading', 'must_be_loaded')],
     'configurations loaded, values converted, exceptions, calls on the connection')

prop('C28', 'File and process helpers do exactly what they document and close what they open',
     'For every content, encoding, path and failure: reading gives the whole content, or the default if there is no file; writing leaves exactly the data, and only if it differs '
     'where that is asked for; deleting tells whether it did. Splitting a path and joining it again gives the path, and finding files names exactly those that match. A file closed '
     'after each use keeps its position and content as one held open would. Whatever is opened is closed, and the working directory is restored, whatever fails. A lock by process '
     'number is held by one living process at a time; all output of a process is returned, however long.',
     ['inputs', 'faults', 'histories'], 'all contents, encodings, paths, directory trees, histories of operations and faults',
     'an absolute path, an entire path matched below the top directory, a seek before a read, more output than a pipe holds, or a stale lock',
     ['satella/files.py', 'satella/processes.py', 'satella/os/pidlock.py'],
     [('contents', 'read_in_file ; write_to_file ; write_out_file_if_different ; read_lines ; read_re_sub_and_write ; try_unlink'),
      ('names', 'split ; make_noncolliding_name ; find_files'), ('closing and going back', 'AutoflushFile.* ; DevNullFilelikeObject.* ; jump_to_directory.*'),
      ('processes', 'PIDFileLock.* ; call_and_return_stdout ; read_nowait')],
     'contents of files, positions, names, the working directory, open descriptors, output',
     note='contracts of read_in_file, write_to_file, write_out_file_if_different, try_unlink, jump_to_directory, AutoflushFile, DevNullFilelikeObject, PIDFileLock, '
     'call_and_return_stdout and read_re_sub_and_write are discharged on every path of a modelled file system; find_files, split, make_noncolliding_name and read_lines '
     'are decided for trees, paths and files of a stated size only, and read_nowait by run-time cases', bounded=True)

prop('C29', 'Contexts nest per thread, metaclasses wrap and document, typed tuples convert',
     'For every history of entering, leaving, setting, deleting and pushing up: a variable of a context is the one of the innermost layer that sets it, does not exist if that layer '
     'deleted it, and leaving restores the layer around; a thread never sees the context of another. A named queue gives the messages of its name, each once, in order, whatever other '
     'threads do. A locked structure holds its lock exactly while entered. A metaclass wraps exactly the members selected and documents exactly those without documentation of their '
     'own. A typed tuple holds the values given, converted exactly if of another type, and refuses what does not fit. Sequences shuffled together undergo the same permutation.',
     ['inputs', 'histories', 'schedules'], 'all histories of operations on layers and queues, classes, fields and values, and schedules',
     'a variable deleted in an inner layer, a queue added while looking for a message, documentation two levels up, or a field that needs no conversion',
     ['satella/coding/environment.py', 'satella/coding/metaclasses.py', 'satella/coding/fun_static.py', 'satella/coding/concurrent/locked_structure.py',
      'satella/coding/structures/queues.py', 'satella/coding/structures/typednamedtuple.py', 'satella/coding/structures/mixins/strings.py', 'satella/random.py'],
     [('contexts', 'Context.*'), ('queues and locks', 'Subqueue.* ; LockedStructure.*'), ('classes', 'CopyDocsFrom ; DocsFromParent ; wrap_with ; wrap_property ; dont_wrap ; metaclass_maker'),
      ('values', 'typednamedtuple ; StrEqHashableMixin.* ; ReprableMixin.* ; shuffle_together ; random_word')],
     'values looked up, messages, documentation, members, fields, errors',
     note='the contracts are discharged for up to three layers, three messages of two names, three fields and three elements; longer histories, metaclass_maker and '
     'other threads are decided by run-time cases', bounded=True)
