# The single source of properties.jsonl and MANIFEST.json.
PROPS = []
NOT_APPLICABLE = {}


def P(id, title, statement, over, quant, why, files, mech, tech, observe=(), na=None, **kw):
    d = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
             mech=mech, tech=tech, observe=list(observe), **kw)
    PROPS.append(d)
    if na:
        NOT_APPLICABLE[id] = na


S, I, H, F, C, X = "schedules", "inputs", "histories", "fault_sequences", "configurations", "crash_points"

P("C01", "Shutdown completes exactly when no hold is active",
  """Completion of the shutdown (the Done channel, the return of WaitForSignal without a third signal) is never
  reported to someone who asked while a hold was active and stayed active up to the report, and is reported promptly
  once every hold has been released. Holds may be taken, released and waited for concurrently in any order, before or
  after the shutdown has begun, without a panic, a lost hold or a waiter that hangs.""",
  [S, H], "every interleaving of concurrent Hold, HoldAndWait, Release, Begin, Done and WaitForSignal calls, including holds taken while someone waits for completion",
  "the only test takes one hold and releases it once; the failing cases need a hold taken at the instant the last one is released",
  ["shutdown/shutdown.go", "shutdown/accessors.go"],
  [("hold counter and completion channel", "shutdown/shutdown.go: hold, holdAndWait, done")],
  "random schedules of holders and waiters; invariant on event-numbered hold intervals, bounded completion",
  ["shutdown.Hold", "shutdown.HoldAndWait", "shutdown.Done", "shutdown.WaitForSignal"])

P("C02", "Shutdown start is broadcast once, and the 5 second notice follows it",
  """The shutdown is reported as started to every observer as soon as a Begin call returns, stays so, and is never
  reported before somebody asked for it; calling Begin any number of times, concurrently or later, is harmless. The
  5-second notice is given to every observer no earlier than five seconds after the first Begin and does always
  follow; HoldAndWait returns only after the start and is a hold from the moment it is called.""",
  [S, H, F], "every interleaving of concurrent Begin callers and observers, wall clock jumps, slow tasks",
  "the test calls Begin once from one goroutine and never looks at the 5-second notice",
  ["shutdown/shutdown.go", "shutdown/accessors.go"],
  [("once + closed channels", "shutdown/shutdown.go: begin, started, started5Sec, holdAndWait")],
  "simulated clock and schedules; ordering and delay invariants at every observation",
  ["shutdown.Begin", "shutdown.Started", "shutdown.Started5Sec", "shutdown.HoldAndWait"])

P("C03", "Signals escalate: graceful stop, cancel root context, exit; never skipped",
  """While waiting for the end of the process, the first INT, TERM or QUIT begins the graceful shutdown, the second
  cancels the root context with a cause, the third exits with code -1: each exactly once, in this order, however the
  signals are timed or bunched, and none of it without the signal. The wait returns once all holds are released and
  never while one is active.""",
  [S, F, H], "every timing of up to six signals of any of the three kinds against services that release on start, on cancellation, late or never",
  "no test sends a signal",
  ["shutdown/shutdown.go"],
  [("signal loop", "shutdown/shutdown.go: waitForSignal")],
  "simulated signal delivery and os.Exit; reference escalation automaton checked during the run, bounded reaction",
  ["shutdown.WaitForSignal"])

P("C04", "Graceful shutdown finishes requests in progress and refuses new ones",
  """A request that the server has begun to handle when the shutdown begins is handled to its end and its client receives
  the complete response, unless it takes longer than the drain period; the process-wide shutdown is not reported as done
  while such a request is still being handled within that period. Once the shutdown is done no server accepts
  connections any more, idle and silent connections or hung handlers do not keep it from completing, and starting to
  listen during a shutdown returns instead of hanging.""",
  [S, F, H], "every timing of the shutdown against requests in any phase on any number of servers and connections, network delays, segmentation, small windows, accept errors, hung handlers, cancellation of the server's context",
  "no test shuts a server down",
  ["http/server.go", "shutdown/shutdown.go"],
  [("hold while serving, http.Server.Shutdown on Started", "http/server.go: Listen")],
  "whole server on a simulated network; exactly-once and completeness of each in-flight request, refusal after done, bounded completion",
  ["http.Server.Listen", "shutdown.Done", "client connections"])

P("C05", "Each API request is executed once, in isolation, and gets its own response",
  """Every well-formed request to a registered operation, over raw HTTP or the client, is executed exactly once with the
  inputs, path and client of that request and no state of any other, and is answered with the outputs (or the error
  status and message) of that execution; compression is used only when accepted, and errors above 499 reveal nothing
  internal. Requests that are not acceptable (bad JSON, unknown path, missing or mistyped inputs, missing authentication) are answered with
  an error and never executed. After clients have gone, however they went, no connection or task of theirs stays behind and the
  server answers the next request.""",
  [S, I, F], "every interleaving of concurrent requests, pipelined or on several connections, of any size and outcome, with connection resets, stalls, segmentation and delays",
  "tests send one request at a time over a perfect network",
  ["http/api.go", "http/server.go", "http/mux.go", "http/error.go", "http/client.go", "api/api.go", "api/handler.go", "api/request.go"],
  [("fresh object per request", "api/handler.go"), ("error mapping, gzip", "http/server.go: handleRequest")],
  "random concurrent clients over a faulty network; per-request identity, execution count and response oracle",
  ["http.RegisterAPI", "http.Server.HandleRequest", "http.Client.API"])

P("C06", "A truncated request is never executed",
  """An operation is executed only if the complete request, body included, reached the server: a client that
  disconnects, resets or stalls anywhere within its request never causes an execution. A client that stops sending is
  answered or disconnected within the read timeout, and a request which was completely sent is executed exactly once
  and answered.""",
  [X, F, S], "every byte position at which a request (chunked or with a declared length) can be cut, every way of cutting it (reset, half close, close, stall), concurrent with other requests",
  "tests never truncate a request",
  ["http/server.go", "http/call.go", "http/api.go", "enc/json.go"],
  [("body is read to its end before decoding", "http/server.go: handleRequest")],
  "cut at seeded positions over the simulated network; execution ledger against bytes delivered",
  ["http.RegisterAPI", "http.Server.HandleRequest"])

P("C07", "No client input takes the server down or starves other clients",
  """Whatever bytes a client sends to the server's operations, handlers and websockets, and whenever it disconnects or
  stalls, the process does not crash, ordinary requests and websocket calls keep being answered correctly within a
  bounded time, and a shutdown still completes once the clients are gone.""",
  [I, F, S], "arbitrary and mutated HTTP requests, JSON documents, websocket handshakes and frames of any opcode, fragmentation and length, combined with network faults and concurrency",
  "tests send well-formed messages only",
  ["http/server.go", "http/call.go", "http/ws/handler.go", "http/ws/conn.go", "http/ws/channel.go", "http/ws/rpc.go", "http/ws/ws.go", "enc/json.go", "api/handler.go"],
  [("error returns instead of panics in decoding and routing", "http/ws, enc, api")],
  "hostile clients generated by mutation, on the whole server; liveness probes by ordinary clients after and during the attack",
  ["http.Server.Listen", "ws.Handler"])

P("C08", "Messages from a websocket client arrive whole, in order, one at a time",
  """The handler of a websocket connection receives exactly the messages its client completely sent, each once,
  unaltered and in the order sent, one at a time, with the context made at the connection; never a partial message, nor
  one of another connection, nor anything after it failed. Pings are answered with their payload, fragmented messages
  are reassembled, and everything sent on a connection without trouble is delivered.""",
  [S, I, F], "every interleaving of several connections; messages of any size and fragmentation with control frames in between; resets, stalls, cuts at any byte, early closes",
  "tests exchange a few unfragmented messages with a well-behaved client",
  ["http/ws/conn.go", "http/ws/ws.go"],
  [("reader loop and inbox", "http/ws/conn.go")],
  "random frame sequences over a faulty network; the delivered sequence must equal the prefix of the completely sent one",
  ["ws.Conn.Loop", "ws.Handler"])

P("C09", "Concurrent sends on a websocket arrive whole, once, in per-sender order",
  """Any number of tasks may send on one websocket connection while others close it or the client pings: every frame
  the client receives is well-formed, every message is one that was sent, at most once and in the order of its sender,
  no frame follows a close frame, and a send reported as successful before any close does arrive if the connection has no
  trouble. Closing ends the connection within a bounded time even when the client does not read.""",
  [S, F], "every interleaving of concurrent senders, closers, pings and slow or vanishing clients, with segmentation and tiny windows splitting the writes",
  "tests send from a single goroutine",
  ["http/ws/conn.go", "http/ws/ws.go"],
  [("write lock and deadline", "http/ws/conn.go")],
  "random senders over a faulty network; client-side frame parser with sender/sequence ledger",
  ["ws.Conn.Send", "ws.Conn.Close", "ws.Conn.CloseWith"])

P("C10", "RPC over websockets: calls reach their object once, answers their caller",
  """On each connection every frame is answered as the protocol says, in order: opening a channel creates a
  fresh object with its registered defaults, a call executes the named exported method of that channel's object exactly
  once with the given argument and its returns, errors and notifications come back on that channel, and closing one
  channel leaves the others alone. Objects of different channels and connections share nothing, calls on one connection
  are never concurrent, a closed or unknown channel, an unknown object or method is answered with a disconnection and nothing is
  executed, panics reveal nothing internal, and only exported methods taking the context are callable.""",
  [S, I, H, F], "every sequence of open, call, close and malformed frames on several channels and connections at once, under network faults",
  "tests drive one channel through a mock client",
  ["http/ws/handler.go", "http/ws/conn.go", "http/ws/channel.go", "http/ws/rpc.go", "http/ws/reflect.go"],
  [("channel table and dispatch", "http/ws/handler.go, http/ws/channel.go, http/ws/rpc.go")],
  "random frame sequences against an executable reference model predicting each frame; execution counts per call",
  ["ws.Handler.Register", "ws.C.Reply", "ws.C.Close"])

P("C11", "Every websocket ends cleanly: closed, cancelled, nothing left behind",
  """However a websocket connection ends (client close, reset or silence, handler error or close, cancellation of the
  server's context, process shutdown), its context is cancelled, its connection is closed within a bounded time,
  nothing is delivered after its handler returned, later sends fail, and no task or connection stays behind. The process shutdown
  is not done while a connection is open or handling a message.""",
  [S, F, X], "every combination and timing of concurrent reasons to end, activity in progress and network faults, over both raw and RPC websockets",
  "tests close one idle connection",
  ["http/ws/conn.go", "http/ws/handler.go", "http/ws/ws.go", "shutdown/shutdown.go"],
  [("hold, context and close on exit of the loop", "http/ws/handler.go, http/ws/conn.go")],
  "seeded terminations over the simulated network; leak, hold and bounded-end checks",
  ["ws.Conn", "shutdown.Done"])

P("C12", "The request cache fetches once per key and never serves past its TTL",
  """Concurrent requests for one key never run two fetches of it at once, a successful answer is reused by requests for that key
  until its time to live has passed and by none that begin later, and an answer without a time to live is not reused.
  What is returned (value, error and the hit or miss flag) is that of the fetch it came from, errors included, and a slow fetch of
  one key does not delay requests for others.""",
  [S, H, F], "every interleaving of concurrent requests for several keys, fetches of any duration, outcome and TTL, clock at any point",
  "tests use fixed sleeps and a handful of goroutines",
  ["utils/caches/request.go", "utils/caches/lru.go"],
  [("per-key lock and expiry", "utils/caches/request.go")],
  "simulated clock; fetch intervals and answers recorded and checked for overlap, staleness and provenance",
  ["caches.RequestCache.Request"])

P("C13", "After an invalidation the request cache never serves the older value",
  """Once an invalidation of a key has returned, no request that begins later is answered with a value
  fetched from data older than the invalidation, even when a fetch of the old data was in progress during the
  invalidation. Every answer belongs to the key asked for.""",
  [S, H], "every interleaving of writers that change the data and invalidate, with requests and slow fetches",
  "no test invalidates while a fetch is in progress",
  ["utils/caches/request.go", "utils/caches/lru.go"],
  [("invalidation under the entry's lock", "utils/caches/request.go, utils/caches/lru.go")],
  "versioned data source; version floor of each request checked against its answer, and at rest",
  ["caches.RequestCache.Request", "caches.RequestCache.Invalidate"])

P("C14", "The LRU cache behaves like one list ordered by recent use",
  """Concurrent operations on an LRU cache (get with loader, invalidation, listing of keys) are equivalent
  to some sequential order of them, consistent with real time, on a list of at most the configured size from which the least
  recently used entry is evicted. A get either finds the entry or loads it exactly once for that call, returns that value, and
  says which.""",
  [S, H, F], "every interleaving of concurrent operations on caches of any small size, with loaders that are slow, fail or find nothing",
  "the test fills the cache from one goroutine and does not check the eviction order after a hit",
  ["utils/caches/lru.go"],
  [("list and map under one lock", "utils/caches/lru.go")],
  "histories of concurrent operations checked for linearizability against a reference LRU list",
  ["caches.LRU.Get", "caches.LRU.Invalidate", "caches.LRU.Keys"])

P("C15", "The memory cache serves what was loaded, and never what was invalidated",
  """Concurrent gets of the memory cache return a value loaded for that very key, are never answered with a version older than an
  invalidation that had returned before the get began, and report truthfully whether the value was found, loaded or
  failed to load. A failed load leaves nothing behind.""",
  [S, H, F], "every interleaving of gets, invalidations and slow or failing loads of several keys",
  "tests are sequential",
  ["utils/caches/mem.go"],
  [("map under a lock", "utils/caches/mem.go")],
  "versioned loader; freshness floors and truthfulness of flags over concurrent histories",
  ["caches.Mem Get, Invalidate"])

P("C16", "The concurrent map is linearizable; iteration and encoding never fail",
  """Store, load, delete, load-or-store and load-and-delete on the concurrent map take effect atomically in an order
  consistent with real time, for any values, nil included. Iteration, copying and encoding visit no key twice, report
  only keys that were stored, include every key present throughout, and stop when told to.""",
  [S, H], "every interleaving of concurrent operations on few keys, with values of interface type including nil",
  "tests are sequential and do not store nil",
  ["utils/sync/map.go"],
  [("typed wrapper", "utils/sync/map.go")],
  "concurrent histories checked for linearizability per key; presence intervals for iteration",
  ["sync.Map"])

P("C17", "The timed mutex excludes, never loses the lock, and honours timeouts",
  """At most one task holds a timed mutex, all its effects are visible to the next holder, a timed attempt neither gives up before
  its timeout nor much after it, and succeeds if the lock comes free in time. After everybody has released, the mutex is free: an
  attempt that timed out keeps neither the lock nor a lingering task. Measuring mutexes exclude in the same way.""",
  [S, F], "every interleaving of lock, unlock and timed attempts with critical sections and timeouts of any length, including expiry at the instant of release",
  "the only test uses real sleeps with wide margins",
  ["utils/sync/mutex.go"],
  [("timed lock", "utils/sync/mutex.go")],
  "simulated clock; exclusion and lost-update invariants, deadline bounds, availability at rest",
  ["sync.Mutex.TryLock", "sync.MetricsMutex"])

P("C18", "The concurrent set is linearizable",
  """Adding to, removing from and testing membership of the concurrent set take effect atomically in an order
  consistent with real time. Listing the set never gives a member twice, nor one nobody added, and includes every
  member present throughout.""",
  [S, H], "every interleaving of concurrent operations on few members",
  "the set has no concurrent test",
  ["utils/lists/set.go"],
  [("set over a concurrent map", "utils/lists/set.go")],
  "concurrent histories checked for linearizability per member",
  ["lists.Set"])

P("C19", "Metrics lose nothing, invent nothing, and every scrape is consistent",
  """Each scrape of counters, gauges and histograms is well-formed text that contains, per series, every observation that
  had returned before the scrape began, none made after it ended, none of another metric or series, and all those an
  earlier scrape showed; in each histogram series the sum, the count and every cumulative bucket describe the same set of observations.
  Neither a stalled scraping client nor a scrape before the first observation blocks or breaks anything, and each registered metric
  appears exactly once.""",
  [S, F, H], "every interleaving of concurrent observations, registrations and scrapes of several series, with stalled and failing scraping clients",
  "tests scrape after all observations, from one goroutine",
  ["utils/prom/counter.go", "utils/prom/gauge.go", "utils/prom/histogram.go", "utils/prom/metric.go", "utils/prom/http.go"],
  [("per-metric locks and snapshot before printing", "utils/prom/*.go")],
  "observations are powers of two, so that each printed sum identifies the exact set it contains; linearizability of scrapes",
  ["prom.Handler", "prom.Register", "Metric.Print"])

P("C20", "The key-value store is linearizable and a range sees one instant",
  """Upsert, get, delete and filtered range on the in-memory store take effect atomically in an order consistent with real time; a
  range reports exactly the records that match its filter at one instant, each once, and stops when its callback says
  so. Records read are unaffected by later writes, and an unsupported filter gives an error or nothing, never a record.""",
  [S, H, I], "every interleaving of concurrent operations on few keys, with filters of each operator over nested fields",
  "the store's tests are sequential",
  ["storage/storage.go", "storage/keyvalue.go", "storage/filter.go", "enc/map.go"],
  [("store lock, filter evaluation", "storage/keyvalue.go")],
  "concurrent histories checked for linearizability against a reference map with filter evaluation",
  ["storage.Storage"])

P("C21", "The pipe delivers every item exactly once, in order, and ends properly",
  """Each item written without error to a pipe is received exactly once by the other side, items of one writer in order,
  also with concurrent readers and writers; an item whose write failed is not received. A reader gets end-of-data only after
  every item of a side that was closed, a cancelled read or write returns promptly with the cause, writes after a close fail and closing
  twice is harmless.""",
  [S, F, H], "every interleaving of concurrent readers, writers, closers and cancellations on both sides",
  "the test passes one message",
  ["enc/util.go"],
  [("channel pair", "enc/util.go: Pipe")],
  "item ledger with write/read intervals; loss, duplication, order and bounded cancellation",
  ["enc.Pipe"])

P("C22", "ReadAll returns all the stream gave, or why not, promptly and safely",
  """Reading a whole stream returns exactly its bytes when it ends normally, and otherwise the error together with a
  correct prefix of what it gave; it never reports success for a stream that failed or was cut by a cancellation. It returns soon
  after its context ends even if the stream is stuck, closes the stream exactly once, never reads it concurrently or
  after its end, and the bytes returned never change afterwards.""",
  [S, F, I], "every chunking, delay, error and stall of the stream against every time of cancellation",
  "tests read in-memory strings",
  ["utils/io.go"],
  [("reader task with context", "utils/io.go: ReadAll")],
  "simulated stream and clock; prefix, success and boundedness oracle, leak check",
  ["utils.ReadAll"])

P("C23", "Contexts inherit values and exactly the right cancellations",
  """A context ends exactly when it or something it descends from is cancelled or passes its deadline, with the cause of
  that end, everywhere in the tree within a bounded time; a detached context keeps the values and is not ended by its ancestors. Tags,
  values and deadlines seen on a context are those set on its path, the innermost winning, whatever is set concurrently on
  relatives.""",
  [S, H, F], "every interleaving of derivations, tags, cancellations with causes, deadlines and observations on trees of contexts",
  "tests are sequential and check one derivation each",
  ["ctx/ctx.go", "ctx/helper.go", "ctx/tags.go", "ctx/detach.go"],
  [("wrappers of context", "ctx/*.go")],
  "random context trees against a reference model evaluated with happens-before slack",
  ["ctx.WithCancel", "ctx.WithTimeout", "ctx.Detach", "ctx.WithTag", "ctx.RangeTag", "ctx.Cause"])

P("C24", "Tracking ids identify each span uniquely and extend their parent's",
  """Every span derived from a context gets its own tracking id, distinct from that of every other span however many
  are derived concurrently from the same or other contexts, extending the id of its parent, stable, and equal to the id in its
  tags; contexts derived without a new span keep the id.""",
  [S, H], "every interleaving of concurrent span creation in trees of contexts",
  "tests create spans from one goroutine",
  ["ctx/span.go"],
  [("span counter shared per context", "ctx/span.go")],
  "random trees of concurrent spans; uniqueness, prefix and stability invariants",
  ["ctx.WithTracking", "ctx.Span", "ctx.GetTracking"])

P("C25", "Each log record reaches its own log once, whole, with its own tags",
  """Every record logged at or above the configured level appears exactly once in the log of the context it was logged on and in no
  other, as one whole line with its message, level, source line and precisely the tags of that context, whatever is
  logged concurrently; records below the level do not appear. Redacted values never appear in clear, arguments of the caller are
  left as they were, and each helper is called exactly for the records of its context.""",
  [S, H, I], "every interleaving of loggers on trees of contexts with various sinks, levels, tags and argument lists",
  "tests log single records",
  ["ctx/log/log.go", "ctx/log/redacted.go"],
  [("logger in the context, slog handler", "ctx/log/*.go")],
  "random logging histories; each record carries an identity that is matched against the sinks",
  ["log.Infof", "log.WithLogFunc", "log.WithHelper", "log.NewDefaultSlogLogger"])

P("C26", "Concurrent encoding and decoding give the same results as alone",
  """Encoding and decoding of any number of values at the same time, by any number of tasks and of the same types for the
  first time, give exactly the results and errors that each gives alone; without races on shared internal state.""",
  [S, I], "every interleaving of concurrent marshal and unmarshal of overlapping types, including their first use",
  "tests encode from one goroutine",
  ["enc/enc.go", "enc/handler.go", "enc/json.go", "enc/map.go"],
  [("per-type caches", "enc/*.go")],
  "random concurrent codec calls compared with the sequential result; race-detector stage under the same schedules",
  ["enc.Marshal", "enc.Unmarshal"])

P("C32", "Equal input gives equal output, byte for byte",
  """Equal values, whatever the order their maps were filled in, always have the same encoding and the same text form;
  decoding the same document into the same type always gives the same value or the same error; and the same registered
  operations always give the same OpenAPI document. None of it depends on the order of iteration over maps, hash
  seeds, or what else is encoded at the same time.""",
  [S, I], "every order of map iteration and insertion, nested maps of any size and key type, documents with several errors, concurrently",
  "a test sees one order of iteration, and one error at a time",
  ["enc/map.go", "enc/handler.go", "enc/json.go", "enc/pairs.go", "api/openapi/openapi.go"],
  [("sorted keys", "enc/map.go: sortedKeys, MarshalJSON")],
  "map iteration order drawn by the simulator; each operation repeated by several tasks with permuted insertion, all results compared",
  ["enc.Marshal", "enc.Unmarshal", "enc.JSON", "enc.Map.String", "openapi.Service"])

P("C27", "The test transport conserves bytes and wakes its readers",
  """The in-memory read-write-closer delivers every byte appended to it exactly once and in order over all its readers,
  wakes a waiting reader when data or the close arrives, gives end-of-file only after the close and everything before
  it was read, and records every write separately and unaltered. No read returns nothing without an error.""",
  [S, H], "every interleaving of concurrent readers, appenders, writers and closers, buffers of any size",
  "tests use one reader and one writer",
  ["test/io.go"],
  [("condition variable and buffer", "test/io.go")],
  "byte ledger over concurrent histories, bounded wake-up",
  ["test.BufferedRWC"])

P("C28", "The HTTP client reports what happened, in time, and leaks nothing",
  """A call of the HTTP client returns the complete response of its own request, or an error: never a truncated or foreign body
  as success, never success for an error status, whose code the error carries. It sends each request at most once and unaltered, returns soon
  after its context ends and says so, does succeed when the complete answer arrived in time, and leaves no connection
  or task behind, however the server behaves.""",
  [S, F, I], "every server behaviour (status, chunked, compressed, truncated, corrupt, slow, stalled, redirecting, closing) at every byte position, with network faults and cancellations, concurrently",
  "tests use a well-behaved local server",
  ["http/client.go", "http/error.go", "api/request.go"],
  [("response handling", "http/client.go")],
  "scripted misbehaving servers on the simulated network; response provenance, timing and leak oracle",
  ["http.Client.Get", "http.Client.Post", "http.Client.API"])

P("C30", "The call handler enforces its limits and answers each call with its result",
  """A call reaches its handler only with the complete body, which is not larger than the configured maximum, with a deadline of the
  configured timeout and at most once; larger bodies are refused. The caller gets the result of its own call or the status of
  its error, without internal details, and is answered or disconnected within the configured timeouts however slowly it sends or reads.""",
  [S, I, F], "every size around the limit (declared or chunked), every pace of sending and cutting, handlers of any duration and outcome, concurrently",
  "tests make one small call",
  ["http/call.go", "http/error.go"],
  [("limited read with timeout", "http/call.go")],
  "clients with seeded sizes and pace over the simulated network; execution ledger, limit and deadline oracle",
  ["http.CallHandler"])

P("C29", "Readiness shows the code last set; liveness and the API description hold",
  """The readiness endpoint of each server answers with the code most recently set for that server (ready at first), taking
  effect atomically in an order consistent with real time, whatever sets and asks concurrently. Liveness always answers 204, and the API description is always
  a complete document with every registered path.""",
  [S, F], "every interleaving of concurrent SetReady calls and probes on several servers, over a faulty network",
  "tests probe once, sequentially",
  ["http/server.go", "api/openapi/openapi.go"],
  [("atomic readiness code", "http/server.go: SetReady, NewServer")],
  "probe histories checked for linearizability against a register per server",
  ["http.Server.SetReady", "GET /ready", "GET /live", "GET /openapi.json"])

P("C31", "Every request is counted once, with its method, path and final status",
  """Each request the server handled is counted exactly once in the request metric, under its method, the path it was
  registered for (or asked for, if not registered as a handler) and the status code its client got, and adds at least
  the time its handler took. The client gets the status the handler set first; counts seen by scrapes never exceed the requests made so far, and never decrease.""",
  [S, I, F], "every interleaving of concurrent requests to handlers that set a status once, twice, after an informational response or never, with scrapes in between and network faults",
  "no test looks at the metric",
  ["http/server.go", "http/mux.go", "http/metrics.go", "utils/prom/histogram.go"],
  [("response wrapper records the code", "http/mux.go: response"), ("observed after the handler", "http/server.go: NewServer")],
  "ledger of requests and answers compared with the scraped metric, during the run and at rest",
  ["http.Metrics.Request", "prom.Handler"])

# --- not applicable: no concurrency, time, I/O or multi-party behaviour to simulate ---------

def NA(id, title, statement, quant, why, files, mech, reason):
    P(id, title, statement, [I], quant, why, files, mech, "", na=reason)

PURE = "a pure sequential function of its input: no scheduling, clock, I/O, randomness or fault can change its result, so simulation would be mere input fuzzing, which is another technique. "

NA("C40", "Encoding then decoding gives back the value",
   """Marshalling any supported value and unmarshalling the result into the same type gives an equal value, through nodes and through JSON text,
   for all numbers, strings, times, nested structures, maps and optional or tagged fields; unsupported input gives an error, never a wrong value.""",
   "all values of supported types", "tests sample some values", ["enc/handler.go", "enc/json.go", "enc/numeric.go", "enc/time.go"],
   [("handlers per kind", "enc/handler.go")],
   PURE + "Its concurrent use is decided by C26, hostile input by C07")
NA("C41", "Configuration is read completely, with its defaults, or refused",
   """Every field is filled from its source or its default, required ones that are missing and values that can't be parsed are reported.""",
   "all configuration types and environments", "tests sample", ["config/config.go"], [("reflection over tags", "config/config.go")],
   PURE + "The environment is read once at start")
NA("C42", "List helpers permute, group, sort and reverse without losing elements",
   """Permutations are complete and distinct, sorting is a stable ordered permutation, reversing twice is the identity and grouping partitions its input.""",
   "all lists", "tests sample short lists", ["utils/lists/perm.go", "utils/lists/sort.go", "utils/lists/reverse.go", "utils/lists/group.go", "utils/lists/lists.go"],
   [("generic helpers", "utils/lists")], PURE)
NA("C43", "The ordered map keeps insertion order through updates and encoding",
   """Iteration and encoding give each key once, in order of first insertion, with its last value, and decoding keeps the order of the document.""",
   "all sequences of operations", "tests sample", ["utils/ordered_map.go", "enc/pairs.go"], [("slice of pairs", "utils/ordered_map.go, enc/pairs.go")],
   PURE + "It is documented for use by a single goroutine")
NA("C44", "The OpenAPI schema describes exactly the API's inputs and outputs",
   """For every registered operation the generated schema has each exported input and output field, with its type, requiredness and documentation, and nothing else.""",
   "all operation types", "tests compare two types", ["api/openapi/openapi.go", "api/request.go", "api/tag.go"], [("schema by reflection", "api/openapi")],
   PURE + "That the document is served completely under load is part of C29")
NA("C45", "Errors keep their cause, code and stack through wrapping",
   """An error created or wrapped, at any depth, still matches its causes, gives the innermost code and the stack of its origin, and its message is that of the formatted parts.""",
   "all chains of wrapping", "tests sample", ["ctx/error.go", "http/error.go"], [("Unwrap and Is", "ctx/error.go")], PURE + "Codes on the wire are decided by C05 and C30")
NA("C46", "Test assertions pass exactly when their condition holds",
   """Each assertion helper fails its test if and only if its condition does not hold, and shows the source of the failing call.""",
   "all values", "the helpers' own tests sample", ["test/assert.go", "test/equals.go", "utils/ast/call_args.go"], [("assertions", "test")], PURE)
