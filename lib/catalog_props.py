from __main__ import prop, na

prop("C01", "In-process cache operations are atomic per key",
     "Under any number of concurrent callers, every put, get, delete and increment on the in-process cache takes effect atomically at some instant between its call and its return, as do the parts of a multi-key operation for each of their keys. A get reports an entry exactly when one is present and delivers the stored value; increments are never lost and each returns a distinct successor of the value it was applied to. No sequence of concurrent operations crashes the process.",
     ["schedules", "histories", "inputs"], "every interleaving of any number of callers issuing any sequence of put/get/delete/increment/multi-get/multi-set on shared keys",
     "The unit tests call the cache from one goroutine; lost updates and map races need a particular interleaving.",
     ["runtime/plugins/simplecache/cache.go", "runtime/core/backend/cache.go", "runtime/core/backend/reflect.go"],
     [("lock around the value map", "runtime/plugins/simplecache/cache.go: SimpleCache.Put/Get/Delete/Incr")], ["return values of the cache API"])

prop("C02", "The in-process queue is a bounded FIFO delivering each item exactly once",
     "Concurrent pushes and pops on the in-process queue behave as one FIFO queue of capacity ten: every accepted item is delivered exactly once, unchanged and in order. A push or pop reports that it did nothing only if its context has ended and the queue was full (or empty) at some instant during the call, and then it has had no effect. A blocked call proceeds as soon as an opposite call makes that possible, and returns once its context ends.",
     ["schedules", "histories", "fault_sequences"], "every interleaving of producers and consumers, with contexts that end before, during or after each call",
     "Unit tests use one producer, one consumer and real sleeps; losing or duplicating an item when a cancellation races with a hand-off needs a particular schedule.",
     ["runtime/plugins/simplequeue/queue.go", "runtime/core/backend/queue.go", "runtime/core/backend/reflect.go"],
     [("bounded channel and select on context", "runtime/plugins/simplequeue/queue.go: Push, Pop")], ["return values of Push and Pop"])

prop("C03", "The in-process document store applies each operation atomically",
     "A collection of the in-process document database behaves as one ordered list of documents on which concurrent operations take effect one at a time: the changes an update, upsert, replacement, deletion or insertion makes to a document happen entirely or not at all, and its reported counts equal what it did. A find reads a snapshot of some instant during the call, and nothing stored changes afterwards except through an operation: documents handed out or passed in share no memory with the store. Filters and updates follow MongoDB's rules for the operators the store supports; a malformed filter or update is refused without effect, a replacement keeps the document's identity, and no sequence of operations crashes the process.",
     ["schedules", "histories", "inputs"], "every interleaving of callers issuing find, insert, update, upsert, replace and delete on shared collections with generated filters and updates",
     "Unit tests use the store from one goroutine with a few fixed documents; torn reads, lost updates and map races need concurrent calls, and wrong matches need particular documents.",
     ["runtime/plugins/simplenosqldb/nosqldb.go", "runtime/plugins/simplenosqldb/query", "runtime/core/backend/reflect.go"],
     [("collection lock and copy-on-write of documents", "runtime/plugins/simplenosqldb/nosqldb.go"), ("filter and update operators", "runtime/plugins/simplenosqldb/query")],
     ["return values and cursors of the NoSQL API"])

prop("C05", "A client pool keeps its capacity, never shares a client, strands no caller",
     "At any time a client pool has created at most its capacity of clients, and a client is held by at most one caller between acquire and release. A caller is refused only if its context ended or the construction it triggered failed; a caller that waits is served once a client is returned or a failed construction frees room, and idle clients are reused before new ones are made. Once all clients are returned the full capacity can be acquired again, and the reported size and availability equal the clients in existence and idle.",
     ["schedules", "fault_sequences", "histories"], "every interleaving of callers with slow and failing client construction, deadlines and cancellations",
     "The unit test has one caller and a construction that never fails; stranded waiters and leaked slots need a failure or cancellation racing with contention.",
     ["runtime/plugins/clientpool/clientpool.go"],
     [("size counter with compare-and-swap, channel of idle clients", "runtime/plugins/clientpool/clientpool.go: Pop, Push")], ["clients handed out, Size(), Available()"])

prop("C06", "A process builds each component once, runs its servers and stops them all",
     "However many callers ask for components of a process and of its nested scopes concurrently, each component's successful construction happens exactly once, never overlaps another construction of the same component, and every caller receives that same instance; failed constructions are reported and may be retried; a component missing from a scope is resolved in the enclosing one. Each constructed server is started exactly once and keeps running until its scope or an enclosing one is shut down (by request, interrupt or the enclosing context) or a server of that scope fails, whereupon it is told to stop; waiting on a scope returns only after all its servers, including those of nested scopes, have returned. A scope whose required arguments are missing, or one of whose eager components cannot be constructed, is refused and leaves nothing running; arguments come from explicit settings, else the command line, else the environment.",
     ["schedules", "fault_sequences", "programs", "configurations"], "every tree of scopes and components, interleaving of lookups, and timing of construction failures, server failures and shutdown",
     "Unit tests look components up sequentially and shut down an idle scope; double construction, leaked servers and premature completion need concurrent lookups or failures at particular points.",
     ["runtime/plugins/golang/namespace.go", "runtime/core/backend/reflect.go"],
     [("instance map with build functions", "runtime/plugins/golang/namespace.go: Namespace.Get"), ("context and wait group", "runtime/plugins/golang/namespace.go: Shutdown, Await, Build, BuildWithParent")],
     ["instances returned by Get", "server run and stop events"])

prop("C07", "A service registry builds its client once and serves every caller that result",
     "However many callers ask a service registry for its client at the same time, the selected constructor runs exactly once, no caller gets an answer before it has finished, and all callers get its result - the same client or the same error. Without a usable constructor every caller gets an error and nothing is constructed.",
     ["schedules", "fault_sequences"], "every interleaving of concurrent callers with slow and failing construction, for any set of registered constructors and default",
     "The unit tests call the registry from one goroutine.",
     ["runtime/core/registry/registry.go"], [("cached build result", "runtime/core/registry/registry.go: Get")], ["return values of Get"])

prop("C08", "Retry clients call once at a time, at most max times, stop at first success",
     "A call through a generated retry client makes one attempt after another, never two at once, stops at the first that succeeds and returns exactly that attempt's results; it makes at least one attempt and no more than its policy allows, and fails only with the last attempt's error, or because the caller's context ended. Backoff policies leave at least the stated delay between attempts, grow it as stated and start no further attempt once the caller's context has ended; a rate limit bounds the retries made per window, and a token budget the retries made in total, across all concurrent callers of the client. Attempts are numbered consecutively from the first.",
     ["schedules", "fault_sequences", "inputs", "configurations"], "every interleaving of concurrent callers of each retry policy, with services that fail, are slow or fail for a while, and contexts that end at any moment",
     "No test executes the generated retry clients; shared rate and budget state is wrong only under particular interleavings.",
     ["plugins/retries/codegen.go", "plugins/retries/ir.go", "plugins/retries/wiring.go"],
     [("generated retry loops", "plugins/retries/codegen.go: templates")], ["calls reaching the wrapped service", "results of the client"])

prop("C09", "A call with a timeout returns in time, with the service's results or an error",
     "A call through a generated timeout client returns no later than its timeout. If the service answers in time the caller gets exactly the service's results and error; otherwise it gets an error and no results. The service is called once, with a context whose deadline is no later than the timeout and which is ended when the call returns. A call that outlives its timeout disturbs nobody: it runs to its own end, leaves nothing blocked behind, and its late results reach no one.",
     ["schedules", "fault_sequences", "inputs"], "every interleaving of calls with services that answer before, at or after the timeout, stalls, and contexts of the caller that end first",
     "No test executes the generated timeout clients; leaks and torn results need a service that answers at a particular moment.",
     ["plugins/timeouts/codegen.go", "plugins/timeouts/wiring.go", "plugins/retries/codegen.go"],
     [("goroutine, result channel and deadline", "plugins/timeouts/codegen.go: clientTemplate")], ["results of the client", "contexts and calls reaching the wrapped service"])

prop("C10", "A service deployed over HTTP behaves like the local service, at most once",
     "Calls made through a generated HTTP client reach the right method of the right service with exactly the arguments given, and a call that succeeds returns exactly the results of its one execution; the service's errors arrive as errors without results. However the network refuses, delays, cuts or tears messages and servers restart, no call is executed more than once or reported successful without having been executed successfully. While the network and the server work, a call fails only if the service does; a call returns once its caller's context has ended, no calls or connections pile up, and a process that was shut down serves no more.",
     ["schedules", "fault_sequences", "inputs", "histories"], "every interleaving of concurrent callers of several remote services, with lost, delayed, torn and reset messages, partitions, server restarts and contexts that end at any moment",
     "No test runs a generated client against a generated server, let alone over a failing network.",
     ["plugins/http/httpcodegen", "plugins/http/wiring.go", "plugins/goproc", "runtime/plugins/golang/namespace.go"],
     [("generated client and server", "plugins/http/httpcodegen: clientTemplate, serverTemplate")], ["results of the client", "calls reaching the service"])

prop("C11", "Modifiers stack in the order written, independently for each service",
     "Whatever stack of retries, backoff, timeouts, client pools, injected latency and faults, health checks, load balancing and HTTP deployment a wiring spec applies to its services, the generated program builds, and a call behaves as if each modifier wrapped exactly what was applied before or after it, in the order written: it makes the attempts, on the service instances, at the times and with the results that the stack implies. Modifiers of one service never affect another, even of the same type. A load balancer sends calls to its replicas in turn, a pool never lets more calls through than its size, also under concurrent callers, and every caller gets results of its own call only.",
     ["configurations", "programs", "schedules", "inputs"], "every combination and order of modifiers on several services and load balancers in one or two processes, with failing and slow services and concurrent callers",
     "Tests compare the compiler's intermediate representation for a few specs; no test runs a stack of generated wrappers.",
     ["plugins/clientpool", "plugins/loadbalancer", "plugins/latency", "plugins/faultinjector", "plugins/healthchecker", "plugins/retries", "plugins/timeouts", "plugins/http", "plugins/golang/gogen", "blueprint/pkg/coreplugins/pointer", "blueprint/pkg/wiring"],
     [("pointer modifiers", "blueprint/pkg/coreplugins/pointer/pointer.go: AddSrcModifier, AddDstModifier"), ("namespace code generation", "plugins/golang/gogen/namespacebuilder.go")],
     ["calls reaching instances and their times", "results of the clients"])
