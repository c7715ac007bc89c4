prop("C01", "Aggregation batches calls without losing, mixing or overfilling",
     "Calls of an aggregated function are collected into batches: every call's argument is handed to the underlying function in exactly one batch, a batch never holds more than max_count arguments, keeps their arrival order, and each caller receives the result (or individual exception) produced for its own argument. A batch runs as soon as max_count arguments are collected and otherwise when leeway_ms has elapsed since its first argument, and once it is full or started to run no later call joins it. A batch is run again only if the caller running it was cancelled before the results were there.",
     ["schedules", "inputs"], "every arrival pattern of calls, every max_count/leeway, every behaviour of the underlying function",
     "tests run a few fixed arrival patterns with round numbers; ties between the timer and the last argument, or calls arriving while a batch executes, are schedules they do not reach",
     ["aiomisc/aggregate.py"],
     [("batch state swap (_clear) before executing", "AggregatorAsync.aggregate"), ("lock per batch", "AggregatorAsync.aggregate"), ("positional pairing of results", "_to_async_aggregate")])
prop("C02", "Aggregation failures reach every caller and no caller hangs",
     "When the underlying function raises, every caller of that batch whose own result is not set yet gets that exception, and a caller whose result was neither set nor returned gets ResultNotSetError. Cancelling the caller that is executing a batch leaves the batch to another waiting caller of it, which runs the function with the same arguments; executions of one batch never overlap, and no caller of a batch is left waiting after it has been executed.",
     ["schedules", "fault_sequences"], "every failure and cancellation point of the underlying function and of the callers",
     "tests cancel or fail at single chosen points with two or three callers",
     ["aiomisc/aggregate.py"],
     [("exception distribution", "AggregatorAsync._execute"), ("retry by the next lock holder", "AggregatorAsync.aggregate")])
prop("C03", "Retry decorators follow their policy exactly",
     "asyncbackoff/asyncretry call the wrapped coroutine function with the caller's arguments at most max_tries times and call it again only after a listed exception or a timeout, when giveup did not return true, and not before pause seconds have passed. The call returns the first successful result, otherwise raises the last failure itself (TimeoutError if the deadline expires before any failure); an attempt never outlives attempt_timeout and the whole call never outlives deadline. Cancellation of the caller and exceptions that are not listed end the call at once and pass through unchanged.",
     ["inputs", "histories", "schedules"], "every sequence of attempt outcomes and durations, every setting of the parameters, cancellation at every await",
     "tests sample a handful of outcome sequences; the number of attempts is unbounded",
     ["aiomisc/backoff.py", "aiomisc/timeout.py"],
     [("retry loop", "asyncbackoff.decorator.wrap.run"), ("deadline scope", "asyncbackoff.decorator.wrap"), ("timeout decorator", "timeout")])
prop("C04", "Circuit breaker state machine",
     "A circuit breaker is PASSING, BROKEN or RECOVERING and changes state only when a call enters it: PASSING becomes BROKEN only when statistics were collected in all buckets of the window and every bucket in the response-time window reached the error ratio; BROKEN lasts at least broken_time and then becomes RECOVERING; RECOVERING becomes BROKEN when the share of bad buckets reaches half of the error ratio, and PASSING only after recovery_time, and PASSING then lasts at least passing_time. Becoming BROKEN discards the collected statistics.",
     ["histories", "inputs"], "every history of calls, outcomes and times",
     "tests walk through the states once with fixed times and ratios",
     ["aiomisc/circuit_breaker.py"],
     [("transition function", "CircuitBreaker._compute_state"), ("bucket window", "CircuitBreaker.counter / recovery_ratio")])
prop("C05", "Circuit breaker is transparent and counts each call once",
     "While PASSING every call executes the function exactly once with its arguments and returns its result or raises its exception unchanged; while BROKEN the function is never executed and CircuitBroken is raised carrying the last listed exception of an executed call (none if a later call succeeded); while RECOVERING exactly one of the two happens, nothing being admitted at the start of the recovery and everything once recovery_time has passed. Each executed call is counted once as total and either as success, as failure (listed exception accepted by the inspector; an inspector that itself fails accepts) or as neither, in the bucket current when the call started, and rejected calls are not counted in the statistics.",
     ["inputs", "histories"], "every outcome of the function and of the inspector in every state, sync and async",
     "tests use one exception type and fixed outcomes; the counting of a mixture of outcomes is never compared with a model",
     ["aiomisc/circuit_breaker.py"],
     [("context manager", "CircuitBreaker.context/_on_passing/_on_recover"), ("wrapper", "cutout")])
prop("C06", "Pool instances are exclusive, bounded, checked and destroyed once",
     "A pool never has more than maxsize instances in service (created and not taken out of service), never hands an instance to two users at a time, hands out only an instance whose check has just succeeded, and reuses released instances. Every instance taken out of service (failed check, expired, pool closed) is destroyed exactly once and never handed out again. A failing or cancelled creation or check loses no capacity.",
     ["schedules", "fault_sequences"], "every interleaving of acquire/release, every failing or cancelled create/check/destroy",
     "tests use one worker pattern and never fail or cancel inside create/check",
     ["aiomisc/pool.py"],
     [("capacity semaphore", "PoolBase.__create_new_instance"), ("recycling", "PoolBase.__recycle_instance/__recycler"), ("acquire/release", "PoolBase.__acquire/__release")])
prop("C07", "Entrypoint starts, stops and unwinds services completely",
     "Entering an entrypoint emits PRE_START, starts every service exactly once, waits until each has returned from start or signalled readiness, and emits POST_START; the exception of a service that fails to start is raised. Leaving it emits PRE_STOP, stops every service exactly once with the reason of leaving, and then emits POST_STOP; a service that fails to stop neither prevents nor interrupts the stopping of the others, and its exception is raised in the end. Its signals, whose receivers get the entrypoint and the services concerned, are frozen when it is entered. Leaving ends the starts which still run and, in a loop the entrypoint made, all other tasks, also if a service fails to stop (unless leaving is cancelled).",
     ["fault_sequences", "schedules"], "every subset of services failing in start or stop, in every order of completion",
     "tests fail a single service at a single point",
     ["aiomisc/entrypoint.py", "aiomisc/service/base.py"],
     [("start/stop orchestration", "Entrypoint._start/__aexit__/graceful_shutdown"), ("service start guard", "Entrypoint._start_service")])
prop("C08", "cancel_tasks finishes exactly the pending tasks it was given",
     "cancel_tasks requests cancellation of every given task that is not done, gives CancelledError to every given plain future that is not done, touches nothing that is done and nothing it was not given. The returned awaitable completes only when all the cancelled tasks are done and never raises because of how they ended; set_exception does the same with a given exception and returns exactly the tasks it cancelled.",
     ["inputs", "schedules"], "every mixture of pending/done tasks and futures and any behaviour of the tasks on cancellation",
     "tests use homogeneous collections of sleeping tasks",
     ["aiomisc/utils.py"],
     [("pending filter", "pending_futures"), ("cancellation", "set_exception/cancel_tasks")])
prop("C09", "select reports exactly one winner and cleans up the rest",
     "Awaiting select (given no timeout) completes when the first of its awaitables returns or raises an exception; the result is that awaitable's value at its own index with None at every other index, reports whether it is an exception, and never changes afterwards. An exception of the winner is raised unless return_exceptions is set. With cancel=True the other awaitables are cancelled (and, with wait=True, finished before select returns), with cancel=False they are left running, and cancelling the select cancels all of them.",
     ["inputs", "schedules"], "any number of awaitables finishing in any order with any outcome",
     "tests use two or three awaitables with one fixed winner",
     ["aiomisc/utils.py"],
     [("first result wins", "SelectResult.set_result"), ("waiter", "SelectAwaitable")])
prop("C10", "awaitable, shield and timeout wrappers are transparent",
     "A function wrapped with awaitable, shield or timeout is called once with the caller's arguments and the caller gets its result or its exception unchanged: awaitable passes coroutines and futures through as they are and wraps any other value, shield keeps the wrapped coroutine running to its end when the caller is cancelled, and timeout raises TimeoutError and cancels the function exactly when it runs longer than the given time.",
     ["inputs", "schedules"], "any value, exception, awaitable kind and cancellation point",
     "tests use a few value types and one timing each",
     ["aiomisc/utils.py", "aiomisc/timeout.py"],
     [("awaitable", "awaitable.wrap"), ("shield", "shield.wrap"), ("timeout", "timeout.decorator.wrap")])
prop("C11", "chunk_list partitions any iterable",
     "Concatenating the chunks of chunk_list(iterable, size) gives exactly the items of the iterable in order; every chunk but the last has exactly size items, the last one has between 1 and size items, no chunk is empty, and the iterable is consumed lazily, never further than the end of the chunk handed out.",
     ["inputs"], "iterables of every length and every chunk size",
     "tests try a few lengths; the length is unbounded",
     ["aiomisc/utils.py"], [("islice loop", "chunk_list")])
prop("C12", "DNS store finds the right zone and records",
     "A DNS store answers a query with exactly the records of the queried name and type (case-insensitively) that were added to the most specific zone enclosing the name, and with nothing if there is no such zone; adding or removing other names, types or zones does not change the answer. A zone accepts only records whose name equals the zone name or lies below it on a label boundary, and removed zones and records are not found any more.",
     ["inputs", "histories"], "every set of zones and records and every queried name",
     "tests look up names in one or two fixed zones; nested and sibling zones in combination are never enumerated",
     ["aiomisc/service/dns/store.py", "aiomisc/service/dns/tree.py", "aiomisc/service/dns/zone.py"],
     [("radix tree", "RadixTree"), ("zone membership", "DNSZone.check_record"), ("lookup", "DNSStore.query")])
prop("C13", "DNS server replies are complete, framed and truncated correctly",
     "Every well-formed query gets one reply with the same id and question carrying all stored records of the asked name and type, NXDOMAIN when there are none, or SERVFAIL when looking them up or encoding them fails, and one failing query does not stop the server. A UDP reply that would be longer than the client's limit (its advertised payload size, at least 512) is instead a well-formed message within the limit with the TC bit set; other replies are complete and do not carry TC. TCP replies are never truncated and are preceded by their exact length, and requests are parsed correctly no matter how the stream is fragmented.",
     ["inputs", "schedules"], "every record set and reply size, every payload size and fragmentation of the stream",
     "tests send single unfragmented messages of two sizes",
     ["aiomisc/service/dns/service.py"],
     [("reply builder", "DNSServer.handle_request"), ("truncation", "UDPDNSServer"), ("framing", "TCPDNSServer")])
prop("C14", "Worker protocol frames round-trip over any fragmentation",
     "Every picklable packet written with the worker protocol is read on the other side as the same packet type and an equal payload, in order and without losing or inventing bytes, no matter how the transport splits or delays the stream; nothing is delivered from an incomplete frame.",
     ["inputs", "schedules"], "every packet sequence and every fragmentation of the byte stream",
     "tests exchange a few small packets over a local socket, which is practically never fragmented",
     ["aiomisc_worker/protocol.py"],
     [("sync framing", "SocketIOProtocol"), ("async framing", "AsyncProtocol")])
prop("C15", "Worker pool only serves authenticated workers and settles every task",
     "A connection to a worker pool gets tasks only after it has proved, with the HMAC of one of the pool's worker ids under the pool's cookie, that it belongs to the pool; any other connection (wrong packet, unknown id, wrong digest, or a pool which is closing) is closed without receiving a task and without changing the pool's workers or tasks. A task is sent at most once, to one worker, and a task cancelled before a worker took it is never sent. Each task taken by a worker is settled exactly once, before the worker's next task: with the worker's result or exception for it, with ProcessError when the connection breaks, or with the error when it or its outcome cannot be pickled, which does not cost the worker; a task that raises ConnectionError fails with it and the worker goes on. Cancelling the caller of a running task signals only the worker that runs it; close() leaves no caller with a queued or running task waiting.",
     ["fault_sequences", "schedules", "inputs"], "every order of packets, wrong credentials and breakage of connections",
     "tests use only well-behaved workers and kill a worker at one point; most cannot run on kernels without SO_REUSEPORT for UNIX sockets",
     ["aiomisc/worker_pool.py", "aiomisc_worker/worker.py", "aiomisc_worker/forking.py"],
     [("authentication", "WorkerPool.__handle_client/__serve_client"), ("dispatch", "WorkerPool.__serve_client/create_task"), ("worker", "aiomisc_worker.worker.execute/worker"), ("supervisor", "aiomisc_worker.forking.main")])
prop("C16", "Thread pool runs every submitted call once within its size",
     "The thread pool executes each submitted function exactly once (unless its future was settled first) on one of at most max_workers threads and settles the returned future, in its event loop and once, with its result or exception, whatever the exception is; as long as at most max_workers calls are pending none waits for another, and a failing function does not take a worker away. After shutdown no new function is accepted, every future that is still pending is settled with an exception instead of being dropped silently, and the worker threads end; shutdown(wait=True) returns after the running functions (or SHUTDOWN_TIMEOUT).",
     ["schedules", "fault_sequences"], "every interleaving of submit, execution, cancellation and shutdown",
     "tests submit sleeping functions and never interleave shutdown with pending work systematically",
     ["aiomisc/thread_pool.py"],
     [("work queue", "ThreadPoolExecutor"), ("worker loop", "thread_pool_thread_loop / WorkItem")])
prop("C17", "Waiting for a coroutine from a thread always gets its outcome",
     "wait_coroutine and sync_await called from a thread block until the coroutine has finished in its event loop and then return its result or raise its exception (including cancellation) unchanged, running the coroutine exactly once.",
     ["inputs", "schedules"], "every outcome of the coroutine, including cancellation of its task",
     "tests only return values or raise ordinary exceptions",
     ["aiomisc/thread_pool.py"],
     [("waiter", "CoroutineWaiter"), ("bridge", "wait_coroutine/sync_wait_coroutine/sync_await")])
prop("C18", "Iterating a threaded generator yields all its items in order",
     "Iterating a threaded generator asynchronously yields exactly the items the generator yields, in order, then ends or raises the generator's exception after the last item; with a limit at most max_size items are buffered, so the generator runs at most one item further ahead of the consumer. Closing the iterator or leaving its context, before, during or after the iteration, stops the generator, and waiting for it to be closed always finishes. (Exceptions of generators are Exceptions.)",
     ["schedules", "inputs"], "every interleaving of the producing thread and the consumer, every length and limit",
     "tests run one natural interleaving of a fast producer or a fast consumer",
     ["aiomisc/iterator_wrapper.py"],
     [("channel", "FromThreadChannel"), ("producer", "IteratorWrapper._in_thread")])
prop("C19", "The threaded log handler delivers every record once, in order",
     "Every record logged to a started handler before it is closed is passed to the wrapped handler exactly once, in the order of logging, by a single thread and never by the logging thread itself; a record whose handling fails does not stop later ones, and closing the handler (any number of times) waits until everything logged before has been handled. Logging never fails, and with buffering never waits for the wrapped handler; with a limit a record which finds the buffer full is refused.",
     ["schedules", "fault_sequences"], "every interleaving of logging, flushing and closing",
     "tests log a few lines and close after a delay",
     ["aiomisc/log.py"],
     [("queue and thread", "ThreadedHandler")])
prop("C20", "Recurring callbacks never overlap and follow their strategy",
     "A recurring callback calls its function first after the initial delay and then each time after the delay its strategy gives; runs never overlap, a failing function (unless suppressed types say otherwise) does not stop the series, StrategyStop ends it and StrategySkip skips one run with a wait. Once the future which stop gives is done no new run begins, and a callback that was stopped and started again has exactly one running series.",
     ["histories", "schedules"], "every sequence of outcomes and delays, stop and restart at every point",
     "tests run a handful of ticks in real time",
     ["aiomisc/recurring.py", "aiomisc/periodic.py", "aiomisc/cron.py"],
     [("loop", "RecurringCallback._start/_exec"), ("start/stop", "PeriodicCallback/CronCallback")])
prop("C21", "Context values are visible per event loop until it closes",
     "Reading a context key waits until a value is set and then gives the most recently set value to every reader of the same loop's context, wherever it was set (in the loop, where it takes effect when the loop next runs its callbacks, or in another thread); setting wakes all waiting readers. Contexts of different loops are independent, one reader giving up does not disturb the others, and a StrictContextVar raises its configured exception exactly when no value (or None) is set.",
     ["schedules", "histories"], "every interleaving of setting and reading",
     "tests set a value once before or after one reader",
     ["aiomisc/context.py", "aiomisc/_context_vars.py"],
     [("futures per key", "Context"), ("strict variable", "StrictContextVar")])
prop("C22", "Signals call exactly the connected receivers",
     "Calling a signal awaits each connected receiver exactly once, one after the other, with the given arguments and stops at the first one that raises, passing that exception on. After a signal is frozen, connecting or disconnecting is refused and leaves the receivers unchanged, and copying a signal gives an independent, unfrozen signal with the same receivers.",
     ["histories", "inputs"], "every history of connect, disconnect, freeze, copy and call",
     "tests connect one or two receivers",
     ["aiomisc/signal.py"],
     [("receiver list", "Signal")])
prop("C23", "Statistics report the true value of every declared metric",
     "get_statistics yields, for each live statistic object of the requested kinds (of all kinds if none is requested) and of classes derived from them, exactly one value for each public metric (an int or float annotation) declared by its class or any of its direct or indirect base classes; that value is what has been assigned, added and subtracted since the object was created, starting at zero. Assigning the metric of another object assigns its current value: statistic objects never influence each other's values. Objects and classes may be created and destroyed while the result is read. (One thread at a time.)",
     ["histories", "programs"], "every class hierarchy and every sequence of updates",
     "tests check a fixed dump of existing statistics",
     ["aiomisc/counters.py"],
     [("metric collection", "MetaStatistic.__new__"), ("counter", "Metric")])
prop("C24", "Async files behave like the files they wrap",
     "Opening, reading, writing, seeking, truncating, flushing, closing and any further operation of an async file object run the operation of the same name of the underlying file once, in the executor of the object, with the same positional and keyword arguments, and give its result or exception; a file is opened once, even by several tasks at once. Iterating gives the lines of the file in order, each line to one of several concurrent iterations; leaving the context closes the file and passes the exception of the body on. The buffer of a text file stays usable as long as the text file; an open file is closed when its object is dropped. Two async file objects are equal only if they wrap the same underlying file, and using a file that was not opened raises an error.",
     ["inputs", "histories", "schedules"], "every method, argument and sequence of operations",
     "tests compare a few reads and writes",
     ["aiomisc/io.py"],
     [("operations", "AsyncFileIO.read/write/.../__getattr__"), ("lifecycle", "AsyncFileIO.open/__aexit__/__del__"),
      ("iteration", "AsyncFileIO.__anext__"), ("buffer", "AsyncTextIO.buffer"), ("classes", "async_open")])
prop("C25", "Services take their configuration completely and stop their tasks",
     "Creating a service fails if a keyword argument declared as required is missing and otherwise sets exactly the given keyword arguments as attributes; copying or pickling and unpickling a service preserves the current values of these attributes. A service class is rejected if a method it declares in __async_required__ (start and stop by default) is not a coroutine function. A task store service cancels all the tasks it created that are still running when it is stopped, and no others, and its stop returns only after they have ended.",
     ["inputs", "programs"], "every class hierarchy of required/optional attributes and every set of arguments",
     "tests use two fixed classes",
     ["aiomisc/service/base.py"],
     [("required attributes", "ServiceMeta/Service.__init__"), ("task store", "TaskStoreBase")])
prop("C26", "Servers hand every client to their handler once and stop cleanly",
     "A started TCP, TLS or UDP server listens on the socket it was given, or on one bound to the given address and port with the given options, and calls its handler (coroutine function or not) exactly once for every connection, with its reader and writer, or datagram, with its data and address, each in a task of its own, so that clients do not wait for or disturb one another. The connection of a handler that fails or is cancelled is closed. Stopping a server stops listening, cancels the handlers which still run and returns after they have ended. A TLS server talks TLS only, with its certificate and within the given versions and ciphers, and requires a certificate signed by the given CA from its clients if (and only if) require_client_cert is set.",
     ["inputs", "schedules", "fault_sequences"], "every configuration of a server, every number of clients, every outcome of the handlers",
     "tests serve one client or datagram with the default options and never stop a server while clients are served",
     ["aiomisc/service/tcp.py", "aiomisc/service/tls.py", "aiomisc/service/udp.py", "aiomisc/service/base.py", "aiomisc/utils.py"],
     [("clients", "TCPServer/TLSServer.make_client_handler"), ("datagrams", "UDPServer.UDPSimpleProtocol.datagram_received"),
      ("lifecycle", "TCPServer/TLSServer/UDPServer.start/stop"), ("socket", "bind_socket"), ("TLS options", "SSLOptions.create_context")])
prop("C27", "Clients connect, retry and reconnect as configured",
     "A TCP or TLS client service makes at most connect_attempts attempts to connect to its address and port, again only after a ConnectionError and after connect_retry_timeout, raises the last such error when the attempts are over and any other error at once. It is ready (start_event) as soon as it is connected, not before, and calls handle_connection exactly once for each connection, with its reader and writer, in a task of the service; a handler that fails does not make the service fail. A robust client connects again, after reconnect_timeout, each time handling a connection or connecting again has failed, until it is cancelled; other clients connect once. A TLS client talks TLS only, with its certificate, and unless verify is False accepts only servers whose certificate is signed by the given CA (or a system one) for their name.",
     ["inputs", "histories", "fault_sequences"], "every sequence of outcomes of connecting and handling, every setting of attempts and timeouts",
     "tests connect to a server which is there, at the first attempt",
     ["aiomisc/service/tcp.py", "aiomisc/service/tls.py"],
     [("attempts", "TCPClient.connect / TLSClient.connect / RobustTLSClient.connect"), ("lifecycle", "TCPClient.start / RobustTCPClient.start"),
      ("TLS options", "SSLOptions.create_context")])
prop("C28", "Process services run one process and leave none behind",
     "Starting a process service runs in_process once, with the keyword arguments get_process_kwargs gives, in one new process which has the logging level and format of its parent but not its signal handlers, and returns when that process has begun (or ended). Stopping it interrupts the process (SIGINT), waits for process_stop_timeout and then kills it if it still runs (a process which finishes in time is not killed), after which the service has no running process, even if it was still starting or start or stop was cancelled. A respawning service starts a new process whenever it finds, each process_poll_timeout, that the last one has ended, until it is stopped; a service never has two processes at once, and none is started once it has stopped. ProcessPoolExecutor passes each call on as it is and counts it once when it is submitted and once, with its time, when it is done: as a success if it returned and as an error if it failed or was cancelled.",
     ["schedules", "fault_sequences", "crash_points"], "every moment at which the process begins, ends, dies or hangs, and start or stop is called or cancelled",
     "tests start one process which ends by itself",
     ["aiomisc/service/process.py", "aiomisc/process_pool.py"],
     [("process", "_process_inner"), ("lifecycle", "ProcessService.start/stop"), ("supervisor", "RespawningProcessService"),
      ("statistic", "ProcessPoolExecutor.submit/_statistic_callback")])
prop("C29", "Every record becomes one complete log line, on exactly the configured handlers",
     "With the json format every log record, whatever its level, message, arguments, extra attributes, missing attributes or exception, becomes exactly one line which is one JSON object: msg is the formatted message, level the name of the level (also of a custom one), stackTrace the traceback of its exception, if any, @timestamp its time as the date format says, and @fields has its attributes (code_file, code_func, code_line, code_module, identifier, message_raw, pid, process_name, thread_name), each extra attribute which is not None under its own name and each positional argument as argument_N; what JSON cannot hold is given as its repr, and the record itself is left as it is. basic_config replaces the handlers of the root logger by one of the requested format (none if disabled) and the given ones, each wrapped once by handler_wrapper, and sets the level. An exception which nobody handled (sys.excepthook) or which the event loop reports is logged as an error, with its exception, once by each of these handlers (of aiomisc.log.basic_config: by each given one); these hooks do not fail and leave what they are given as it is.",
     ["inputs"], "every record, every configuration and every context an event loop may report",
     "tests log one string in each format",
     ["aiomisc_log/formatter/json.py", "aiomisc_log/__init__.py", "aiomisc/log.py"],
     [("JSON line", "JSONLogFormatter.format"), ("configuration", "aiomisc_log.basic_config, aiomisc.log.basic_config"),
      ("hooks", "UnhandledPythonHook, UnhandledLoopHook")],
     technique="contract-based deductive verification of the real functions (hooks: all cases; JSON format and configuration: contracts checked over a bounded enumeration)")
prop("C30", "Recurring services run exactly from start to stop",
     "A PeriodicService runs its callback every interval, first after delay, from start until stop, which waits for a running callback to end and does not fail; an interval which is not positive is refused at the start. A CronService refuses functions which are not coroutine functions and specs which are not valid; start starts every registered function once, with its own spec, shield and suppress_exceptions, and stop stops and waits for all of them, whatever way each of them ends. With the plugin set up and NOTIFY_SOCKET given, an SDWatchdogService sends READY=1 once, after the services were started, WATCHDOG=1 at least twice per watchdog interval (if it has one) until it is stopped, WATCHDOG_USEC when its interval is not the one of the environment, and STOPPING=1 once when it has stopped, then closes its socket; an error of a datagram never reaches the application, and without NOTIFY_SOCKET nothing is opened or sent. MemoryTracer and Profiler report every interval, limited to top_results, from start to stop; afterwards they neither report, trace nor profile. A CarbonSender makes one client of its protocol for its host, port, namespace and storage, makes it known, and has it send every send_interval from start until stop, which waits for it and does not fail.",
     ["inputs", "histories", "fault_sequences"], "every interval, delay and set of options, every way a callback ends, every failing datagram",
     "tests run one service each with a round interval for a second and never fail the socket or look at what goes on after stop",
     ["aiomisc/service/periodic.py", "aiomisc/service/cron.py", "aiomisc/service/sdwatchdog.py", "aiomisc/service/tracer.py", "aiomisc/service/profiler.py", "aiomisc/service/carbon.py"],
     [("periodic service", "PeriodicService.start/stop"), ("cron service", "CronService.register/start/stop"),
      ("notifications", "SDWatchdogService, setup"), ("reports", "MemoryTracer, Profiler")])
prop("C31", "Every Sentry event is sent or reported as failed, and closing loses none",
     "An event given to a raven transport (async_send, from any thread) is posted once, as it is and with the time limit of the transport, and exactly one of its callbacks is called, once: the success callback if the server answered 200, otherwise the failure callback with what went wrong (RateLimited with the delay the server asked for after 429, APIError with the status and reason for other answers, else the exception). A queued transport sends its events in order, with at most the given number of workers at a time, and holds at most qsize of them: when there is no room the oldest is dropped and reported as failed. close refuses further events (reported as failed, also those another thread was just adding), waits (for at most its timeout) until all accepted ones are settled and then closes the sessions and connections, also if it is cancelled or its time is over. RavenSender sends what the root logger gets at min_level or above and its filters let pass from start to stop, which waits for these events; nothing is sent afterwards and the credentials of the DSN are not logged. (Callbacks do not fail; the timeout is positive.)",
     ["histories", "schedules", "fault_sequences"], "every answer of the server, every fill of the queue, every moment of close, cancellation and time-out",
     "the only test starts and stops a sender without an event",
     ["aiomisc/service/raven.py"],
     [("sending", "AioHttpTransportBase._do_send"), ("queue", "QueuedAioHttpTransport._async_send/_worker"),
      ("closing", "AioHttpTransportBase.close, _close"), ("service", "RavenSender.start/stop")])
prop("C32", "Web and RPC services serve their application on their socket from start to stop",
     "An HTTP service needs a socket, or an address and a port, and is refused without; it binds one socket, if any. From start until stop it serves the application which create_application (create_asgi_app for ASGI services, on every path) gives, made once, on that socket and nothing else, with its shutdown_timeout, handler_cancellation and runner_kwargs; an SSL service talks TLS only, with its certificate, CA, verify and require_client_cert. It is started at most once, and whatever fails or is cancelled in start or stop, stop leaves nothing served and its runner cleaned up, and does not fail only because the service could not be started. An uvicorn service passes every attribute to the option of uvicorn of the same name, serves its application on the given socket, or on one of uvicorn, and stop asks the server to exit and waits until it has. A gRPC service adds every handler, method handler and port which was added to it before the start exactly once to one server made with its arguments, tells each future of a port the number of that port, shows its services by reflection if (and only if) asked for, and stop lets running calls finish within GRACEFUL_STOP_TIME.",
     ["inputs", "fault_sequences", "schedules"], "every combination of arguments, every step of start and stop failing or cancelled, requests in progress at stop",
     "tests start each service once with one set of arguments and never fail or cancel a start or a stop",
     ["aiomisc/service/aiohttp.py", "aiomisc/service/asgi.py", "aiomisc/service/uvicorn.py", "aiomisc/service/grpc_server.py"],
     [("HTTP", "AIOHTTPService.__init__/start/stop"), ("TLS", "AIOHTTPSSLService.create_site"), ("ASGI", "_create_app"),
      ("uvicorn", "UvicornService.start/stop"), ("gRPC", "GRPCService")])
prop("C33", "Entrypoint owns its loop, pool, logging and signals until it is left",
     "An entrypoint runs in the loop it was given or is entered in; entering it without one makes one loop of the given policy and debug mode, the current one of the thread, with a default executor of pool_size threads, which is refused while a loop runs in this thread. When it is left (or a with statement fails to enter it), whatever fails, its context is closed, the executor it made is shut down and the loop it made is closed, and no other one (nothing else happens if its body has closed the loop). With log_config logging is configured with the given level, format, date format, buffering and handlers, for its loop, from before the services start until they have stopped; without it is left alone. Once the services are started, each of catch_signals (by default SIGINT and SIGTERM in the main thread, none elsewhere) begins the shutdown: the former handlers of the signals are restored, the services are stopped with a RuntimeError, and then the loop is stopped; a shutdown which takes longer than shutdown_timeout is cancelled and ends the process with code 70. closing() returns for all who wait when the shutdown begins, and at once later. The current entrypoint and loop can be found from before the services start. run gives the result or exception of its coroutine, run within such an entrypoint, and the AIOMISC_* environment variables give the defaults of the arguments.",
     ["inputs", "fault_sequences", "schedules"], "every combination of arguments, each step of entering and leaving failing, the time of a shutdown running out at any point",
     "tests stop an entrypoint by one signal at one point and enter it in one or two ways",
     ["aiomisc/entrypoint.py", "aiomisc/utils.py"],
     [("loop and pool", "create_default_event_loop, Entrypoint.loop"), ("leaving", "Entrypoint.__exit__/_stop"),
      ("signals", "OSSignalHandler, Entrypoint._on_interrupt"), ("closing", "Entrypoint.closing/graceful_shutdown")])
prop("C34", "Every installed plugin is set up exactly once",
     "Unless AIOMISC_NO_PLUGINS is set, every entry point of the groups aiomisc and aiomisc.plugins of every installed distribution is loaded once, and then each loaded plugin (one of a name) is set up exactly once; a plugin which cannot be loaded is skipped and does not prevent the others, the exception of one which cannot be set up is raised. plugins is a read-only mapping of the names to the plugins which were set up, and python -m aiomisc.plugins prints these names, sorted, unless told not to.",
     ["inputs", "fault_sequences"], "every set of entry points, every subset of them failing to load or to be set up",
     "tests see the plugins which happen to be installed, and none that fails",
     ["aiomisc/plugins/__init__.py", "aiomisc/plugins/__main__.py", "aiomisc/compat.py"],
     [("plugins", "setup_plugins"), ("entry points", "entry_pont_iterator"), ("listing", "aiomisc.plugins.__main__.main")])
