TS = C + 'task_scheduler.py'
prop('P01', 'Partitioning a sequence and joining the parts is the identity',
     'For both distribution schemes, splitting a sequence over any number of engines hands every element to exactly '
     'one engine, balanced to within one element and in order, and joining the parts gives back the sequence. '
     'This holds for sequences shorter than the number of engines, empty ones, multi-dimensional ones and ones '
     'that only support slicing or iteration.',
     ['inputs'], 'Every sequence length (unbounded integer) for up to 8-16 engines and every part index; joins for '
     'every length up to a small bound.',
     'tests use a few lengths; off-by-one and negative-slice errors show only for particular length/engine residues',
     [K + 'map.py'], [('Map.getPartition / joinPartitions', K + 'map.py'), ('RoundRobinMap', K + 'map.py')],
     'partition', observe=['return values of getPartition/joinPartitions'])
prop('T01', 'Every submitted task gets exactly one final reply and is not re-run',
     'Every task accepted by the load-balancing scheduler yields exactly one final reply to its client with its own '
     'content, and runs at most once per allowed retry. No engine ever gets a task that is running elsewhere, already answered, '
     'or addressed to an engine that is gone; nothing is stuck while an engine could run it. The Hub hears of '
     'each submission, dispatch and result exactly once.',
     ['schedules', 'fault_sequences', 'histories'],
     'All interleavings of up to 3-4 submissions, results (ok/error/unmet), registrations, up to 2 engine deaths and '
     'timers on up to 3 engines, with symbolic dependency flags, retries and high-water mark.',
     'tests sample a few schedules against live processes; lost or doubled tasks need a particular interleaving',
     [TS, C + 'scheduler.py'],
     [('TaskScheduler.dispatch_submission/maybe_run/submit_task', TS), ('dispatch_result/handle_result', TS),
      ('handle_stranded_tasks/fail_unreachable/job_timeout', TS), ('update_graph', TS)], 'tasks',
     observe=['frames on the engine, client and monitor streams'],
     assumptions=['late results that arrive more than 5 s after an engine was unregistered are out of scope',
                  'a `follow` on tasks that only ran on an engine that died keeps waiting (documented behaviour)'])
prop('T02', 'Tasks run only where and when targets, dependencies and retries allow',
     'A task is sent only to an engine among its targets where it has not failed before, only once its `after` '
     'dependency is met, and only to an engine where its `follow` dependency is met. It is rejected as impossible '
     'or invalid exactly when no engine could ever be allowed to run it.',
     ['schedules', 'inputs', 'fault_sequences'],
     'All interleavings of up to 3-4 tasks with symbolic dependency sets and flags, targets, retries and outcomes '
     'on up to 2 engines with up to 2 deaths.',
     'the dependency test suite checks a handful of graphs with live engines and cannot force result orders',
     [TS, C + 'dependency.py'], [('maybe_run can_run', TS), ('Dependency.check/unreachable', C + 'dependency.py')],
     'tasks', observe=['frames on the engine and client streams'])
prop('T03', 'Work conservation, bounded load and fairness of the task scheduler',
     'No engine ever holds more outstanding tasks than the configured high-water mark, no task waits while an '
     'engine that may run it has room, and a task never overtakes an earlier submitted one on an engine that could '
     'run the earlier one.',
     ['schedules', 'configurations'],
     'All interleavings of up to 4 tasks on up to 3 engines; the high-water mark is an unbounded symbolic integer.',
     'tests use one hwm at a time and never observe the order in which waiting tasks are sent',
     [TS], [('submit_task/add_job/finish_job', TS), ('update_graph', TS)], 'tasks',
     observe=['frames on the engine stream'])
prop('T04', 'Scheduling schemes choose as documented',
     'leastload picks an engine with minimal load (the least recently used among equals), lru the least recently '
     'used engine, twobin the less recently used of two random picks, weighted the less loaded of two picks drawn '
     'by inverse load; every choice is a valid engine index.',
     ['inputs', 'schedules'], 'Every list of up to 3 loads (unbounded naturals), every random draw, and every '
     'schedule of 4 plain tasks over up to 3 engines.',
     'random choices and ties are sampled, never forced', [TS],
     [('leastload/lru/twobin/weighted/plainrandom', TS)], 'tasks', observe=['index returned', 'engine a task is sent to'])
prop('T05', 'Dependency objects decide satisfied and unreachable correctly',
     'A dependency is satisfied exactly when all (or any) of its tasks are finished in an acceptable way, and '
     'unreachable exactly when no future can satisfy it; the two exclude each other, and once decided they stay '
     'decided. Serialising a dependency and building one from results, message ids or other dependencies preserves its meaning.',
     ['inputs', 'histories'], 'Every dependency set, every disjoint pair of completed and failed sets over 4 ids and '
     'every flag combination, and every later state.',
     'the space of set combinations is not covered by the few graphs in the tests',
     [C + 'dependency.py'], [('Dependency.check/unreachable/as_dict', C + 'dependency.py')], 'deps',
     observe=['return values'])
BS = C + 'broadcast_scheduler.py'
prop('B01', 'A broadcast reaches each target exactly once, replies keep their identity',
     'A broadcast request reaches every targeted engine exactly once, unchanged, and no other engine, for any depth of the '
     'scheduler tree and any engine ids. Without coalescing, every target yields exactly one reply, which the '
     'client can attribute to that target.',
     ['inputs', 'configurations', 'schedules'],
     'Trees of depth 0-2 (thorough 3) with unbounded symbolic engine ids, every target subset, two concurrent '
     'broadcasts, every order of replies.',
     'tests run one depth with a handful of consecutive ids; routing depends on id arithmetic at every level',
     [BS, C + 'app.py', 'ipyparallel/engine/app.py'],
     [('send_to_sub_schedulers/send_to_targets', BS), ('launch_broadcast_schedulers', C + 'app.py'),
      ('complete_registration: choice of the leaf', 'ipyparallel/engine/app.py')], 'broadcast',
     observe=['frames on the engine and client sockets'])
prop('B02', 'A coalesced broadcast reply is complete, single and correctly attributed',
     'With coalescing, a broadcast gets exactly one reply, after the last target answered; its results are in the '
     'order of the engines its metadata lists, each target once. An error on any target is an error of the reply.',
     ['inputs', 'configurations', 'schedules'],
     'Trees of depth 0-2 (thorough 3), unbounded symbolic engine ids, every target subset, every order of replies, '
     'every combination of outcomes, two concurrent broadcasts.',
     'reply order and id patterns are whatever the live test cluster produces',
     [BS, K + 'client.py'], [('coalescing_reply', BS), ('_extract_metadata', K + 'client.py')], 'broadcast',
     observe=['frames on the client socket', 'metadata decoded by the client'])
HM = C + 'heartmonitor.py'
prop('H01', 'The heart monitor announces and buries engines exactly when it should',
     'An engine is announced at the first beat after it answers, once per life; it is declared dead exactly when it '
     'has missed more than the configured number of consecutive beats. An answer to the current or the previous ping '
     'counts, an older one never does.',
     ['fault_sequences', 'schedules', 'configurations'],
     'Every pattern of timely, late, stale and missing answers of up to 2-3 engines over up to 8 beats; the allowed number of misses is '
     'an unbounded natural number.',
     'timing patterns of heartbeats cannot be forced with live processes', [HM],
     [('HeartMonitor.beat/_check_missed/handle_pong', HM)], 'heart',
     observe=['messages to the Hub', 'pings'],
     assumptions=['consecutive pings have different text (the clock advances between beats)'])
HB = C + 'hub.py'
prop('H02', 'The Hub registers each engine once, under an id of its own',
     'At all times registered and pending engines have distinct ids and uuids. A free requested id is granted, other ids '
     'are never reused. An engine is registered at its first heartbeat, dropped if that does not come in time, gone '
     'once it unregisters or its heart stops; an engine that leaves takes no other engine with it. Clients hear of each change '
     'exactly once and are always told the exact set of engines. A Hub restarted at any point restores the engines it knew.',
     ['histories', 'fault_sequences', 'crash_points'],
     'All histories of up to 5-6 registrations, heartbeats, deaths, unregistrations and timeouts of 2-3 engines, with '
     'unbounded symbolic requested ids.',
     'tests start engines one way; cancelled, stalled, duplicate and re-used registrations do not occur in them', [HB],
     [('register_engine/finish_registration/unregister_engine', HB), ('new_engine_id', HB),
      ('_save_engine_state/_load_engine_state', HB)], 'hub_registry',
     observe=['registration and connection replies', 'notifications'])
prop('H03', 'The Hub knows of every request where it is and what became of it',
     'For any history of monitored traffic, the Hub reports each request as queued on, or assigned to, exactly the engine that '
     'has it, or as unassigned; as pending until its result arrives or its engine is gone, and as completed from then on, once. '
     'Its record holds the request, its result and all of its output, whatever order they were seen in.',
     ['histories', 'schedules', 'fault_sequences'],
     'All histories of up to 6 requests, dispatches, retries, results, outputs, engine deaths and timeouts of 1-2 requests '
     'on 1-2 engines.',
     'the order in which monitor traffic arrives cannot be controlled in live tests', [HB, C + 'dictdb.py'],
     [('save_queue_request/save_queue_result', HB), ('save_task_request/destination/result', HB),
      ('save_iopub_message', HB), ('_handle_stranded_msgs', HB), ('get_results/queue_status', HB)], 'hub_traffic',
     observe=['replies to queue, load, result and history requests'],
     assumptions=['a direct-view result that reaches the Hub after its engine was unregistered is out of scope'])
prop('H04', 'Hub queries return, purge and resubmit exactly what was asked for',
     'Results of an earlier session are reported like live ones. Purging removes exactly the finished requests named by id or '
     'engine, never a pending one, and nothing if it is refused. Resubmitting sends each named request again, unchanged, '
     'once, under a new id. A database query gives every record its own buffers. Targets may be ids, names or all live '
     'engines; anything else is an error.',
     ['inputs', 'histories'],
     'Up to 3-4 records in every combination of states, all subsets of ids and engines, any combination of keys; unbounded '
     'symbolic engine ids.',
     'the combinations of record states and query arguments are not covered by the few queries in tests', [HB, C + 'dictdb.py', K + 'client.py'],
     [('get_results/purge_results/resubmit_task/db_query', HB), ('_validate_targets', HB), ('Client.db_query', K + 'client.py')],
     'hub_queries', observe=['replies of the Hub', 'records returned by Client.db_query'],
     assumptions=['resubmission is under the default (load-balanced) scheduling: a resubmitted task does not keep the dependencies and targets of the original'])
prop('D01', 'A database query matches exactly the records it describes, on any backend',
     'For every documented operator and every combination of them, over present, missing and null fields, the in-memory and the '
     'SQLite backend both return exactly the records that the query describes, and dropping matching records leaves '
     'exactly the others. Timestamps compare as instants, whatever their time zone.',
     ['inputs'], 'All queries with up to 3 tests on 2 fields, all (unbounded) values, null or not, lists of up to 2-3 values.',
     'tests use a few hand-written queries on one backend at a time and never a null field with an ordering operator',
     [C + 'dictdb.py', C + 'sqlitedb.py'],
     [('DictDB.find_records/_match, filters', C + 'dictdb.py'), ('SQLiteDB._render_expression', C + 'sqlitedb.py'),
      ('_adapt_timestamp', C + 'sqlitedb.py')], 'db', observe=['records found and dropped', 'SQL text and arguments'],
     assumptions=['values of one field are mutually comparable; $glob patterns and the sqlite3 engine itself are outside'])
prop('D02', 'The in-memory database culls the oldest records, only when over a limit',
     'Whatever is added, updated or dropped, the database stays within its limits on records and buffer bytes, removes '
     'only the oldest records, only when a limit is exceeded and no more than it takes to get under it by the configured '
     'fraction, and its byte count is that of the records it holds.',
     ['histories', 'inputs', 'configurations'],
     'All sequences of 4-5 operations with unbounded symbolic buffer sizes, limits and fractions.',
     'tests use one limit and uniform buffer sizes', [C + 'dictdb.py'],
     [('DictDB._maybe_cull/_add_bytes/_drop_bytes', C + 'dictdb.py')], 'db', observe=['records, history, byte count'])
prop('D03', 'The task databases keep records as they were written',
     'A record added to the in-memory or SQLite database, and every update of it, reads back as it was written (numbers, '
     'texts, nested dicts, buffers, times of any time zone, unset fields), whole or in part; it changes and drops no other record, and the '
     'history lists exactly the records there are by submission time. A second record with the same id is refused. With SQLite, '
     'records survive a restart of the controller, and those already committed survive a kill, in the same table; tables '
     'of other sessions or formats are left as they are.',
     ['histories', 'crash_points', 'inputs'],
     'All sequences of 3 (4) adds, updates, drops, commits, restarts and kills on up to 3 records with symbolic contents.',
     'tests store a few records with the same shape and never restart or kill the controller in between',
     [C + 'sqlitedb.py', C + 'dictdb.py'],
     [('SQLiteDB.add_record/update_record/get_record/find_records', C + 'sqlitedb.py'), ('SQLiteDB._init_db/_check_table/close', C + 'sqlitedb.py'),
      ('adapters and converters', C + 'sqlitedb.py'), ('DictDB', C + 'dictdb.py')],
     'db_records', observe=['records returned by get_record, find_records and get_history'],
     assumptions=['texts inside a content that look like ISO 8601 times come back from SQLite as times',
                  'two controllers never write to one table at the same time'])
prop('C01', 'Every client request resolves exactly once, with its own outcome',
     'Each request a client submits (direct, load balanced, execute, broadcast, coalescing) resolves exactly once: '
     'with its own result, its own remote error, an abort, or the death of its engine. Replies, output and '
     'notifications may arrive in any order, including results of requests already given up. Its output and metadata are its own, '
     'a wait for requests, named in any way, ends exactly when they are done or its time is up, and no finished request stays in the '
     'client\'s caches or outstanding sets.',
     ['schedules', 'fault_sequences', 'inputs'],
     'Every delivery order of replies, output and notifications for up to 3 requests over 2 engines with symbolic '
     'payloads, every failure pattern, one engine death and one abort at any point.',
     'tests run against live engines that answer in order; races between replies, output and engine death are not forced',
     [K + 'client.py', K + 'asyncresult.py', K + 'futures.py', K + 'view.py', 'ipyparallel/engine/kernel.py'],
     [('Client._send / _handle_apply_reply / _handle_execute_reply', K + 'client.py'),
      ('Client._handle_stranded_msgs / _dispatch_iopub', K + 'client.py'),
      ('AsyncResult._init_futures / _resolve_result / _resolve_output', K + 'asyncresult.py'),
      ('BroadcastView._make_async_result', K + 'view.py')], 'client_life',
     observe=['AsyncResult.ready/get/exception/metadata', 'client.outstanding, results, metadata, history'])
prop('C02', 'AsyncResults report exactly the outcomes of their messages',
     'Whatever the order in which its messages finish and whenever it is asked, an AsyncResult is ready exactly when '
     'all messages are, and get (with timeout, return_exceptions or return_when), iteration, wait, get_dict, '
     'split/join, indexing, len, progress and successful report the results in submission order and exactly the errors '
     'that occurred, and never wait longer than they were told; maps give the flattened elements, unordered iteration each chunk once.',
     ['schedules', 'inputs', 'histories'],
     'Up to 3 messages of 1-2 symbolic elements (lists, tuples, arrays or scalars), every failure pattern and completion '
     'order, each API call at every point.',
     'tests query finished results or sleep; which messages are done at the time of a call is left to chance',
     [K + 'asyncresult.py', K + 'futures.py', K + 'map.py', 'ipyparallel/error.py'],
     [('AsyncResult (all public methods)', K + 'asyncresult.py'), ('AsyncMapResult', K + 'asyncresult.py'),
      ('multi_future', K + 'futures.py'), ('Map/RoundRobinMap.joinPartitions', K + 'map.py'),
      ('collect_exceptions', 'ipyparallel/error.py')], 'client_results',
     observe=['return values and exceptions of AsyncResult methods'])
prop('C03', 'Parallel maps, scatter and gather compute what the builtin map computes',
     'map of any view (blocking or not, any chunk size, ordered or not, sequences or iterators of any length), imap with '
     'any number of outstanding tasks, parallel functions and scatter followed by gather yield exactly f of every '
     'element: in order (or each once, if unordered), whatever the order of replies; a failing call surfaces as its '
     'error, in place with return_exceptions, and an error of the input iterator is raised.',
     ['inputs', 'schedules', 'configurations'],
     'Up to 4 symbolic elements over 2-3 engines, chunks of 1-3, one failing element anywhere, every reply order.',
     'tests use long ranges on live engines with one chunk size, and compare the result only',
     [K + 'view.py', K + 'remotefunction.py', K + 'map.py', K + 'asyncresult.py'],
     [('DirectView.map/scatter/gather', K + 'view.py'), ('LoadBalancedView.map/imap', K + 'view.py'),
      ('BroadcastView.map', K + 'view.py'), ('ParallelFunction.__call__', K + 'remotefunction.py'),
      ('Map.getPartition/joinPartitions', K + 'map.py'), ('AsyncMapResult iteration', K + 'asyncresult.py')],
     'client_maps', observe=['elements returned or iterated', 'errors raised'])
prop('C04', 'Views address exactly the engines, flags and messages they name',
     'A view sends each request to exactly the engines its targets name (ids, negative indices, slices, lists, all), in '
     'order, or raises and sends nothing; the client\'s engine list follows every registration and death, and waits for '
     'engines end exactly when enough are registered. Flags given for one call or one with-block apply to it and nothing '
     'else, whatever it raises; histories and outstanding sets list exactly the view\'s own messages; abort and purge '
     'touch the named messages only. Clear, signals and shutdown reach the named engines only, and whoever waits for '
     'them hears of a refusal.',
     ['histories', 'inputs', 'schedules'],
     'Every target specification over up to 4 engines with id gaps, up to 3 registrations and deaths, every flag '
     'combination with errors at any point, sequences of up to 3 operations.',
     'tests use contiguous engine ids, valid flags and one view at a time',
     [K + 'view.py', K + 'client.py'],
     [('Client._build_targets', K + 'client.py'), ('Client._register_engine/_unregister_engine/wait_for_engines', K + 'client.py'),
      ('View.temp_flags/set_flags', K + 'view.py'), ('LoadBalancedView._really_apply', K + 'view.py'),
      ('save_ids/sync_results', K + 'view.py'), ('Client.purge_local_results/abort/wait', K + 'client.py'),
      ('Client._send_control_request/clear/send_signal/shutdown', K + 'client.py')],
     'client_views', observe=['messages on the mux, task, broadcast and control channels', 'client.ids, view.history'])
prop('C05', 'Results retrieved from the Hub are the engines\' own',
     'get_result returns for every request (by id, history index, AsyncResult, or a list of them in any order), whether '
     'cached, purged, pending or submitted by another client, exactly its outcome: reading it (get, wait, iteration, '
     'indexing, metadata, output) gives what the engines answered, errors included, and ends once they have. '
     'result_status and queue_status report what is the case, purging forgets exactly the named results, resubmitting '
     'runs the same requests again.',
     ['histories', 'schedules', 'inputs'],
     'Up to 3 requests of any kind with symbolic payloads, in every combination of states and order of naming, each way to '
     'read the result, every moment at which pending ones finish; the Hub may lag.',
     'tests retrieve one or two finished results of a live cluster and read them with get()',
     [K + 'client.py', K + 'asyncresult.py', HB],
     [('Client._asyncresult_from_jobs/get_result', K + 'client.py'), ('Client._get_result_status', K + 'client.py'),
      ('AsyncHubResult.wait', K + 'asyncresult.py'), ('Client.resubmit/purge_results/queue_status', K + 'client.py'),
      ('get_results/queue_status/purge_results/resubmit_task', HB)], 'client_hub',
     observe=['AsyncHubResult.get and friends', 'result_status, queue_status', 'client.results, metadata'])
prop('C06', 'Output of engines is shown completely, once, and under the right engine',
     'Everything engines print, display or return as the value of executed code reaches the user exactly once and under '
     'the label of the engine it came from, whether shown afterwards (display_outputs with any grouping) or streamed '
     'while it arrives. %px runs the code on the engines it names, shows all of it, and raises the errors of the engines; '
     'an error is abbreviated only if it has been shown before. With --local it also runs here, and with %autopx every '
     'following cell runs on the engines until it is switched off; an interrupt while a cell is waited for signals the '
     'engines that run it. The view of the magics is left as it was.',
     ['schedules', 'configurations', 'fault_sequences'],
     'Up to 3 requests over 2-3 engines with every combination of output kinds and failures, every order of arrival of '
     'messages of different engines, streaming begun at any moment, the death of an engine.',
     'tests capture output of fast engines that all behave alike; who prints what when is up to the network',
     [K + 'asyncresult.py', K + 'magics.py', K + 'client.py'],
     [('AsyncResult.stream_output', K + 'asyncresult.py'), ('AsyncResult.display_outputs', K + 'asyncresult.py'),
      ('Client._handle_iopub', K + 'client.py'), ('ParallelMagics.cell_px/parallel_execute', K + 'magics.py')],
     'client_outputs', observe=['what is printed, displayed and raised'])
prop('C07', 'Widget traffic passes between engines and the notebook unchanged',
     'In a notebook, every comm (widget) message an engine sends while it works for this client reaches the notebook\'s front '
     'end exactly once, in order, with its content, metadata and buffers, as output of the running cell; every message or '
     'close the front end sends for such a comm reaches the engine that opened it, and no other. Comms of other clients are '
     'not shown, and outside notebooks this traffic has no effect.',
     ['schedules', 'histories'], 'Up to 2 comms on 1-3 engines and every sequence of up to 5-6 messages and closes from either '
     'side, in every order of arrival of different engines.',
     'no test relays a comm; owners, closes and arrival orders are not sampled at all',
     [K + 'client.py'], [('Client._dispatch_iopub', K + 'client.py'), ('Client._send', K + 'client.py')],
     'comms', observe=['messages to the front end', 'messages that reach engines'])
prop('C08', 'Times and progress of results are those of their requests',
     'The metadata of every result tells when its request was submitted, started and completed (by the clock of the engine it '
     'ran on) and received. wall_time, serial_time, elapsed and timedelta of its AsyncResult are the spans between exactly '
     'these, tasks that never started counting nothing, or a TimeoutError before it is done. An interactive wait ends exactly '
     'when what it waits for is there or its time is up, and shows how many tasks are done.',
     ['schedules', 'inputs', 'fault_sequences'],
     '1-2 requests of any kind over 2 engines that succeed, fail or are lost with their engine, every delivery order, symbolic '
     'instants on unrelated clocks.',
     'tests compare times loosely on one machine whose clock never jumps, and of successful requests only',
     [K + 'asyncresult.py', K + 'client.py', 'ipyparallel/engine/kernel.py', 'ipyparallel/util.py'],
     [('AsyncResult.serial_time/wall_time/elapsed/timedelta/wait_interactive', K + 'asyncresult.py'),
      ('Client._extract_metadata', K + 'client.py'), ('IPythonParallelKernel.init_metadata', 'ipyparallel/engine/kernel.py')],
     'timings', observe=['AsyncResult.metadata and timing properties', 'progress bars'])
prop('C09', 'Names on the engines behave like a local namespace, on the engines of the view',
     'Pushing, pulling, item access, execute, run and clear act on the engines of the view and on no other, in the order '
     'in which they were requested; values come back per engine in the order of the targets, and a name that is missing is '
     'reported for exactly the engines that lack it. References stand for the value on each engine. Imports in a sync_imports block bind '
     'the same names on every engine of the view as here, whatever else runs in the block, and import works as before '
     'afterwards. A function with dependencies (depend, require) runs exactly where they are met, with the names they provide.',
     ['histories', 'inputs', 'programs'],
     'All sequences of 3 (4) operations on 2 (3) engines through every kind of view with symbolic values; import blocks of 2 (3) statements.',
     'tests try single operations with one view; mixed-up targets, orders and partially missing names are not covered',
     [K + 'view.py', C + 'dependency.py', 'ipyparallel/util.py'],
     [('DirectView.push/pull/execute/run/clear', K + 'view.py'), ('sync_imports', K + 'view.py'), ('_push/_pull', 'ipyparallel/util.py'),
      ('depend/require', C + 'dependency.py')],
     'client_names', observe=['namespaces of the engines', 'results and errors'],
     assumptions=['import ... as and from ... import * in sync_imports blocks are documented not to work',
                  'a clear while other requests are in progress may overtake them'])
prop('S01', 'What is sent is what arrives: serialization is faithful and zero-copy',
     'Functions, arguments, keywords and results come out of deserialization as they went in: values, types, order, dtypes '
     'and shapes of arrays, defaults, closures, partials and interactively defined classes, which see the globals of the '
     'engine. Buffers above the threshold travel as frames of their own, and every frame is matched with the object it '
     'came from, for any thresholds and containers; nothing is left over and nothing that is sent gets changed.',
     ['inputs', 'configurations'],
     'All buffer and item thresholds (unbounded integers), messages of two arguments and two keywords made of 8 kinds of '
     'elements in 6 kinds of containers, 17 array dtypes in 7 shapes and 3 layouts in 9 places, 20 kinds of callables.',
     'tests use the default thresholds and a few simple values',
     ['ipyparallel/serialize/serialize.py', 'ipyparallel/serialize/canning.py'],
     [('serialize_object/deserialize_object', 'ipyparallel/serialize/serialize.py'),
      ('pack_apply_message/unpack_apply_message', 'ipyparallel/serialize/serialize.py'),
      ('CannedFunction/CannedPartial/CannedArray/CannedClass', 'ipyparallel/serialize/canning.py')],
     'serial', observe=['objects after deserialize_object', 'frames of the message'],
     assumptions=['functions that refer to themselves in a closure, and classes that use super() in __main__ are out of scope',
                  'the order of keyword arguments and Fortran order of arrays are not preserved'])

EN = 'ipyparallel/engine/'
prop('E01', 'Engines answer each request exactly once, and never run aborted ones',
     'Whatever a request does (return, raise anything, exit, print, publish data, be unreadable or have a result that cannot be '
     'sent), the engine runs it once and sends exactly one reply, with its own result or error, after its output and before '
     'it reports to be idle; the next requests are not affected and nothing temporary stays in the namespace. A request '
     'aborted before it starts never runs and is answered as aborted; no other request is. Malformed messages are ignored.',
     ['inputs', 'schedules', 'histories'],
     'Up to 3 requests of 18 kinds with symbolic payloads, one control request of 7 kinds at any point (also while a request '
     'runs).',
     'tests abort a sleeping queue and never see requests that break the engine\'s own output or messages',
     [EN + 'kernel.py', EN + 'datapub.py'],
     [('do_apply/apply_request', EN + 'kernel.py'), ('should_handle/abort_request/clear_request', EN + 'kernel.py'),
      ('init_metadata/finish_metadata', EN + 'kernel.py'), ('ZMQDataPublisher.publish_data', EN + 'datapub.py')], 'engine',
     observe=['messages on the shell, control and iopub streams', 'the user namespace'],
     assumptions=['code queued behind a failing execute request may be aborted (ipykernel: stop_on_error)'])
prop('E02', 'Engines join as what the Hub says, and leave when the controller has gone',
     'An engine takes the id it is granted, connects each of its channels once, under its own identity and secured with the '
     'keys of the controller, to the broadcast leaf that serves its id, and names itself in all it sends. Engines that are '
     'refused or get no answer exit, and unregister nobody else. A registered engine stops, and unregisters, if and only if '
     'it missed the heartbeat of the controller for the configured number of consecutive checks.',
     ['schedules', 'fault_sequences', 'configurations'],
     'All sequences of up to 7 (thorough 9) checks, with or without pings before each, at symbolic instants with a symbolic limit; all replies to the '
     'registration with 2-4 broadcast leaves, with and without nanny and keys.',
     'tests start engines that the controller always answers and never lose heartbeats', [EN + 'app.py'],
     [('register/complete_registration/abort', EN + 'app.py'), ('start_heartbeat/_hb_monitor', EN + 'app.py')],
     'engine_life', observe=['sockets, their options and connections', 'messages to the Hub', 'the exit status'],
     assumptions=['no ssh tunnels, no MPI'])
prop('N01', 'The nanny relays controls, delivers signals and reports the death of its engine once',
     'Control requests for the engine and its replies pass the nanny unchanged, in order, once. A signal request signals the '
     'engine exactly once, or fails, and its reply goes to its requester. However the engine ends, the Hub is told exactly once '
     'that this engine has gone, and never while it lives; then the nanny ends. Malformed requests are ignored.',
     ['schedules', 'fault_sequences', 'inputs'],
     'All sequences of up to 3 (thorough 4) requests, replies, the pipe closing and the process exiting, with loop callbacks '
     'at any point.',
     'tests send one signal; the ways an engine ends race in ways tests cannot choose', [EN + 'nanny.py'],
     [('dispatch_control/dispatch_parent/signal_request', EN + 'nanny.py'),
      ('pipe_handler/wait_for_parent_thread/finish/notify_exit', EN + 'nanny.py')],
     'engine_life', observe=['messages on the control, parent and registration sockets', 'signals sent'],
     assumptions=['the nanny process itself is not killed'])

prop('K01', 'Every address the controller hands out is served by the right part',
     'For any configuration that the controller accepts, each address that its parts, clients and engines take from it or from '
     'the connection files is bound by exactly one socket, that of the part which is meant: clients and engines are joined by the '
     'same queues, each engine by the leaf for its id, every part is monitored and notified by the Hub, and no two sockets bind '
     'the same port. With CURVE every connection is encrypted with the key of this controller, else messages are signed with the '
     'key in the files. Engines and clients get the ports of their own pools first, and random ones only when all are used up.',
     ['configurations'],
     'Interfaces, transports, schemes, depths 0-2, threads or processes, CURVE on or off, pools of up to 20 ports and the '
     'deprecated port settings; all ports are symbolic and only assumed to be distinct where they are configured to be.',
     'tests start one configuration on localhost with random ports', [C + 'app.py', C + 'scheduler.py', C + 'broadcast_scheduler.py',
     C + 'heartmonitor.py', K + 'client.py', EN + 'app.py', 'ipyparallel/util.py'],
     [('init_hub/init_schedulers/next_port/construct_url', C + 'app.py'), ('launch_scheduler', C + 'scheduler.py'),
      ('launch_broadcast_scheduler', C + 'broadcast_scheduler.py'), ('Client.__init__/_connect', K + 'client.py'),
      ('load_connection_file/register/complete_registration', EN + 'app.py'), ('bind/connect', 'ipyparallel/util.py')],
     'wiring', observe=['bind and connect calls of all sockets and their options', 'connection files'],
     assumptions=['configured ports are distinct, and random ports are in none of the pools', 'no ssh tunnels',
                  'engines use the nanny'])
prop('K02', 'Connection files are complete and private at any moment, and survive restarts',
     'Whenever somebody finds a connection file it is complete and nobody else can read its key, wherever the controller that '
     'writes it dies or fails to. A controller that reuses the files starts whatever an earlier one left behind, serves all of '
     'the addresses in them, and leaves them as they are unless the configuration has changed; then they describe the new one.',
     ['crash_points', 'configurations', 'histories'],
     'Crashes before any operation on a file and full disks in up to 3 starts; 15 changes of the configuration between starts; '
     'symbolic ports, of which reused and random ones may be the same.',
     'tests never restart a controller nor kill it while it writes', [C + 'app.py'],
     [('save_connection_dict/load_config_from_json/load_secondary_config', C + 'app.py'), ('init_hub/next_port', C + 'app.py')],
     'wiring', observe=['files in the security directory', 'bind and connect calls of all sockets'],
     assumptions=['two controllers do not use the same files at the same time'])
prop('L01', 'A cluster and its file follow the processes that run',
     'Whatever is started, stopped, signalled or dies in a cluster, and whoever loads its file: once exits have been noticed, '
     'the cluster file lists the controller and all engines that run, nothing of a part that has ended, and is removed when '
     'nothing runs; it is never incomplete, and loading it gives a cluster that controls exactly what runs. A stop ends all processes of a part (TERM, and KILL for those that stay) and no other; '
     'observers are told of each end once, with the exit code; a start that fails leaves nothing behind and can be repeated. '
     'The end of a with block, and of the program unless told otherwise, stops the cluster.',
     ['histories', 'crash_points', 'fault_sequences'],
     'Histories of 3-4 operations and exits with failing starts, takeovers by other processes and symbolic exit codes; crashes '
     'before any operation on the file and full disks.',
     'tests start real clusters a few times, with none of the failures',
     [CL + 'cluster.py', CL + 'launcher.py'],
     [('Cluster', CL + 'cluster.py'), ('BaseLauncher/LocalProcessLauncher/LocalEngineSetLauncher', CL + 'launcher.py')],
     'launch', observe=['signals to processes', 'the cluster file', 'on_stop callbacks'],
     assumptions=['process ids are not used again'])
prop('L02', 'ssh and batch systems start exactly what is configured',
     'Over ssh, each host gets as many engines as are configured for it, in order, up to the number asked for, '
     'and is reached as its user, at its port; connection files of the running controller are there before its first engine '
     'starts. With a batch system, one job asks for the right number of processes, in the right queue, with its output in the '
     'right file. Programs, arguments and environment arrive exactly as given, whatever characters they have. Stops and signals '
     'reach exactly the processes or the job they are for, also after another process has taken over.',
     ['configurations', 'inputs', 'histories'],
     '2-4 hosts with 0-2 engines in every documented form of configuration, two sets of engines; five batch systems; odd strings; '
     'failing submissions, restarts, takeovers.',
     'tests have no batch system but Slurm in CI, and one ssh host without odd arguments',
     [CL + 'launcher.py', CL + 'shellcmd.py', CL + 'shellcmd_receive.py'],
     [('SSHLauncher/SSHEngineSetLauncher/SSHProxyEngineSetLauncher', CL + 'launcher.py'), ('BatchSystemLauncher and subclasses', CL + 'launcher.py'),
      ('ShellCommandSend', CL + 'shellcmd.py'), ('ShellCommandReceive', CL + 'shellcmd_receive.py')],
     'remote', observe=['processes on each host and their arguments, environment and files', 'batch scripts and commands'],
     assumptions=['hosts run POSIX shells; ssh and scp deliver what they are given', 'batch systems read directives as documented by them'])

prop('W01', 'the cluster web service shows and controls the clusters that run',
     'The web service lists every cluster that runs in a profile, however it was started, once, with its controller and its '
     'engines, and none that has ended as running; a profile with no cluster has one to start. A start runs one controller and the '
     'number of engines asked for, in the profile and with the id that were chosen; a deletion stops all of its processes, and no '
     'others; a failed or refused request leaves nothing behind. Unknown clusters are refused, and without a login nothing is shown '
     'or changed.',
     ['histories', 'schedules', 'fault_sequences'],
     '2 (thorough: 3) events in three profiles with up to two clusters each: requests, two at once, terminals, exits of processes.',
     'tests of the web service need a browser and sample one history; schedules of requests are not tested at all',
     ['ipyparallel/nbextension/handlers.py', CL + 'cluster.py'],
     [('ClusterListHandler/ClusterActionHandler', 'ipyparallel/nbextension/handlers.py'), ('ClusterManager', CL + 'cluster.py')],
     'web', observe=['responses to requests', 'processes, their environment and signals', 'cluster files'],
     assumptions=['the server routes and authenticates as its base handler says'])

prop('A01', 'the ipcluster commands start, list and stop exactly what they are for',
     'ipcluster start runs one controller, with the arguments after --, and the number of engines asked for, in its profile and with '
     'its id, and refuses if that cluster runs, however it ended before. Unless it is left running on purpose, all of it has ended, and '
     'its cluster file is gone, when the command ends: after a signal, a stop elsewhere, the end of the controller or an early end of the engines, or a '
     'failed start. What is left running is listed until it ends, and a stop ends all of the cluster it is for and nothing else.',
     ['histories', 'fault_sequences', 'configurations'],
     'one command with 1 (thorough: 3) events while it runs, one failing start of a process, then 1-3 commands or exits and a stop.',
     'tests start real clusters with sleeps, and sample a few histories without failures',
     [CL + 'app.py', CL + 'cluster.py', 'ipyparallel/apps/baseapp.py'],
     [('IPClusterStart/IPClusterEngines/IPClusterStop/IPClusterList', CL + 'app.py'), ('BaseParallelApplication', 'ipyparallel/apps/baseapp.py')],
     'apps', observe=['processes, their arguments, environment and signals', 'cluster files', 'exit codes and output of commands'],
     assumptions=['signals arrive while the event loop of a command is idle or asleep'])
prop('L03', 'What is configured is what is started',
     'The number of engines, the kind of launchers, address, location, arguments, commands, environment and delay of a cluster '
     'are those of the nearest place that says something: the call, then the arguments of the Cluster, then its configuration '
     '(its own, its parent\'s, or the ipcluster command line), then the ipcluster configuration file of its profile (and of no other), '
     'read unless load_profile is off; then the documented default. Every process started is told its cluster and profile. '
     'A cluster loaded from its file has the same settings.',
     ['configurations', 'inputs'],
     'Each setting said or not said in each of four places, profile by directory, name or default, symbolic numbers.',
     'tests configure one place at a time; the combinations are many',
     [CL + 'cluster.py', CL + 'app.py', CL + 'launcher.py', 'ipyparallel/util.py'],
     [('Cluster._merge_profile_config/_profile_config_default', CL + 'cluster.py'), ('Cluster.start_controller/start_engines', CL + 'cluster.py')],
     'settings', observe=['command lines and environments of the processes'])
prop('K03', 'Controllers and engines end when told, and leave nothing behind',
     'A controller that gets SIGINT, SIGTERM or SIGABRT, an interrupt or a client\'s shutdown request ends: all its processes are '
     'terminated although some of them are already dead, or end with it, its clients are told, and its connection files are removed '
     'unless they are to be reused. SIGTERM ends an engine at any moment, also before it has registered, with its output restored; SIGINT '
     'ends it at none. An engine waits for its connection file as long as it is told, uses it when it has come by then, and exits otherwise.',
     ['schedules', 'fault_sequences', 'configurations'],
     'Every way to end, with any dead child, any missing file; signals at any moment; symbolic time limits and arrivals.',
     'tests end live processes once, at a quiet moment',
     [C + 'app.py', C + 'hub.py', 'ipyparallel/engine/app.py'],
     [('IPController.start/handle_signal/terminate_children/cleanup_connection_files', C + 'app.py'), ('Hub.shutdown_request', C + 'hub.py'),
      ('IPEngine._signal_stop/start/init_engine', 'ipyparallel/engine/app.py')],
     'ending', observe=['processes and files after the end'])
