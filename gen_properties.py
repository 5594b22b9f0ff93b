"""Writes properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier={"over": over, "text": qtext},
        why_tests_cant=why,
        anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                 **({"state": state} if state else {}), "observe_at": [o.strip() for o in observe.split(";")], "hook_needed": None},
    ))


A = "a_sync/a_sync/"
prop("P01", "A dual-mode function computes exactly what the wrapped function computes",
     "For any function, sync or async, decorated or wrapped for dual use, every call in either mode forwards exactly the given positional and keyword arguments, whatever their names, and produces exactly the value the undecorated function would return, or raises exactly the exception it would raise. The wrapped body runs exactly once per awaited or blocking call, and never when a returned awaitable is not awaited.",
     ["programs", "inputs", "configurations"],
     "all function kinds (def, async def, generators excluded), all signatures with positional, keyword, default, *args and **kwargs parameters, all default modes, all call modes, all return values and exceptions",
     "Tests call a handful of functions with one or two arguments; the guarantee is an equivalence over every signature, default, mode and outcome, including exceptions and falsy values.",
     [A + "function.pyx", A + "_helpers.pyx", A + "decorator.py"],
     [("mode dispatch and flag popping", A + "function.pyx"), ("sync bridge and thread bridge", A + "_helpers.pyx")],
     "return value or exception of the call or of awaiting it; log of wrapped-body invocations")

prop("P02", "Call mode is decided by flag, then default, then the kind of the function",
     "A call of a dual-mode function returns an awaitable exactly when the per-call flag says so (sync=False or asynchronous=True), or, without a flag, when the configured default says async, or, without a default, when the function was defined async; otherwise it returns the plain result; the aggregates of a method or property over instances (C.method.sum(instances) and the like) are such functions with the default of the method. The flag is never passed on to the wrapped function, two flags in one call are rejected, and a function whose own signature uses a flag name is rejected at decoration.",
     ["configurations", "programs", "inputs"],
     "all combinations of function kind, default mode given by any spelling of the decorator, modifiers present or absent, flag name and value, other arguments",
     "The resolution order is a table over many independent configuration dimensions; tests sample few of its cells and none of its interactions with modifiers.",
     [A + "function.pyx", A + "_flags.pyx", A + "_kwargs.pyx", A + "decorator.py", A + "flags.py"],
     [("flag lookup in kwargs", A + "_kwargs.pyx"), ("negation of flag values", A + "_flags.pyx"), ("decorator argument parsing", A + "decorator.py")],
     "type of the object returned by the call; keyword arguments seen by the wrapped function; exception type of rejected calls and definitions")

prop("P03", "Instances run their methods in the mode the instance was built with",
     "For any class hierarchy of dual-mode objects, every public instance method, sync or async, plain, overridden, inherited or reached through super(), behaves sync or async according to the per-call flag if given, else the default of its own decorator if it has one, else the mode of the instance, which its own constructor flag, class attribute or flag property fixes, under any spelling of the flag. Undecorated plain def methods stay dual-use and private and double-underscore names are left untouched. Instances of one class built with different modes, and copies of them, never affect each other, and a call always gives what the plain method computes on that very instance.",
     ["programs", "configurations", "histories"],
     "all class shapes (def / async def / decorated methods, inheritance, overriding and super() calls, flag supplied by constructor argument, default value, class attribute or property, negated spellings), all modes, all interleavings of calls on several instances and copies; static methods and nested classes excluded",
     "Mode discovery walks signatures, class attributes and caches keyed per class and per instance; tests use fixed classes and rarely mix instances, overrides and call flags.",
     [A + "base.pyx", A + "abstract.pyx", A + "_meta.py", A + "method.pyx"],
     [("flag discovery from the constructor or class definition", A + "base.pyx"), ("attribute wrapping in the metaclass", A + "_meta.py"), ("bound method dispatch", A + "method.pyx")],
     "results of method calls on instances, sync or awaited")

prop("P04", "Dual-mode properties give the getter's value in either mode",
     "Reading a dual-mode property gives the getter's value directly on a sync instance and an awaitable of that value on an async instance, and the double-underscore getter gives an awaitable or, with a flag, either; the getter runs once per read for plain properties and its exceptions reach the reader unchanged in type. Reads on one instance never return another instance's value.",
     ["programs", "histories", "configurations"],
     "all classes with sync and async getters, all default modes and instance modes, all sequences of reads over several instances, values of every kind including falsy ones and exceptions",
     "Properties combine descriptor lookup, hidden getter methods and mode defaults; tests read a few constants.",
     [A + "property.pyx", A + "_descriptor.py", A + "method.pyx"],
     [("property descriptor __get__", A + "property.pyx"), ("hidden getter", A + "property.pyx")],
     "value read, value awaited from the property and from the hidden getter, getter invocation log")

prop("P05", "A cached property is computed once per instance, whatever the concurrency",
     "For every instance, all successful reads of a cached property, sync or async, sequential or concurrent, direct or through the hidden getter, return one and the same value, and the getter runs once for it until the cached value is replaced or deleted. A failed computation is reported to every concurrent reader with the getter's exception and computed again on the next read; cancelling one reader disturbs no other. Values are never shared between instances, between properties, or between a property and the one it overrides.",
     ["schedules", "histories", "fault_sequences"],
     "all schedules of concurrent readers over several instances and properties, getter latencies, getter failures, reader cancellations",
     "Depends on the interleaving of concurrent readers with the computing task and on cancellation points, which tests with one gather cannot cover.",
     [A + "property.pyx", "a_sync/_smart.py"],
     [("per-instance lock task", A + "property.pyx"), ("shielded wait", "a_sync/_smart.py")],
     "getter invocation count per instance and the values or exceptions seen by readers")

prop("P06", "A singleton class has one instance per mode",
     "All constructions of a singleton dual-mode class in one mode return the identical, once-initialised instance, from whatever thread, the sync and async instances are distinct, and a subclass or another class never shares them. A construction that fails leaves nothing behind. Calls on the instances behave as on any dual-mode instance of that mode.",
     ["histories", "programs", "schedules"],
     "all sequences and thread interleavings of constructions with any flag spelling given by keyword or default over several singleton classes and subclasses",
     "The guarantee is over construction histories and threads, not over a pair of calls.",
     [A + "singleton.py", A + "_meta.py"],
     [("instance table per class and mode", A + "_meta.py")],
     "identity of constructed objects, initialiser invocation log")

prop("P07", "Memoised functions compute each distinct call once and never mix up arguments",
     "With the memory cache modifier a dual-mode function or method returns, for every call, a value the wrapped function computed for equal arguments (of the same instance), runs the wrapped function once per distinct arguments while the entry is cached (concurrent async callers included, however long ago the last call was), and never caches exceptions. A bounded cache never keeps more entries than its size, typed caches keep equal arguments of different types apart, and entries are recomputed once their time to live has passed, never before. Cancelling one caller disturbs no other caller.",
     ["histories", "schedules", "configurations"],
     "all call histories with repeated, equal and differently typed arguments, all cache sizes, lifetimes and default modes, concurrent and cancelled callers; undecorated sync functions are cached in async mode only",
     "A cache bug needs a particular history of arguments, evictions or overlaps to show; tests check one repeated call.",
     [A + "modifiers/cache/memory.py", A + "modifiers/cache/__init__.py", A + "modifiers/manager.py"],
     [("memory cache decorator", A + "modifiers/cache/memory.py"), ("ordering of modifiers", A + "modifiers/manager.py")],
     "wrapped-function invocation log and returned values")

prop("P08", "A concurrency limit is never exceeded and never wedges",
     "A function limited by the semaphore modifier never has more than the given number of bodies running at once, whatever mix of calls, failures and cancellations occurs and however long they take, and every call that is not cancelled eventually runs: none waits while fewer bodies run than allowed. An integer gives every function, and every method of every instance, a limit of its own; functions given one semaphore object, and all methods of a class that declares the limit, share it.",
     ["schedules", "fault_sequences", "configurations"],
     "all arrival times, durations, failures and cancellation points of concurrent calls, all limits, integer and semaphore-object spellings, sharing",
     "The bound is over schedules with failures and cancellations; tests time a fixed burst.",
     [A + "modifiers/semaphores.py", "a_sync/primitives/locks/semaphore.pyx"],
     [("semaphore modifier", A + "modifiers/semaphores.py")],
     "start and end log of wrapped bodies")

prop("P09", "A rate limit is never exceeded",
     "A function limited to N runs per minute never starts more bodies in any window than the limiter's bucket allows (at most N at once, N per further minute), does not delay calls the bucket has room for, runs every call in the end, and returns each call's own result. An integer limits every function, and every method of every instance, separately; a shared limiter object and a limit declared by a class are shared. Sync calls of a rate-limited async function obey the same limit.",
     ["schedules", "configurations"],
     "all arrival patterns in virtual time, all limits, integer and limiter-object spellings, sync and async functions",
     "A rate bound is over all windows of all arrival patterns; tests measure one burst in wall-clock time.",
     [A + "modifiers/limiter.py", A + "modifiers/manager.py"],
     [("limiter modifier", A + "modifiers/limiter.py")],
     "virtual start times of wrapped bodies")

prop("P10", "A blocking call inside a running loop is refused, not deadlocked",
     "A sync-mode call, property read or iteration that would have to drive the event loop while that loop is running raises the library's dedicated error promptly, at any nesting depth, and leaves the loop and later calls working. Sync-mode calls of plain sync functions, and reads of values that are already there (finished futures, cached values), keep working there.",
     ["programs", "configurations", "schedules"],
     "all kinds of dual-mode callables, methods, properties, iterators and futures, modifiers, nesting of sync and async calls inside a running loop",
     "Tests exercise the error for one function; the guarantee covers every entry point and nesting.",
     [A + "_helpers.pyx", "a_sync/iter.pyx", "a_sync/exceptions.py"],
     [("run_until_complete bridge", A + "_helpers.pyx")],
     "exception type raised and liveness of the loop afterwards")

L = "a_sync/primitives/locks/"
prop("P11", "Semaphores conserve permits and wake waiters in order",
     "Under every history of acquire, release, context-manager use, timeouts and cancellations, a semaphore never admits more holders than its value plus releases, never loses a permit to a cancelled or abandoned acquire, admits waiters first come first served, and never leaves a waiter asleep while a permit is free. Decorating a function with a semaphore bounds its concurrency the same way.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of holders and waiters with delays, timeouts and cancellations at every await point, all initial values",
     "Permit leaks and lost wake-ups need a cancellation or timeout at one particular point of one particular interleaving.",
     [L + "semaphore.pyx"],
     [("acquire and wake-up", L + "semaphore.pyx")],
     "grant order, number of concurrent holders, locked(), progress of every waiter")

prop("P12", "Priority semaphores admit the most urgent waiter first",
     "Whenever a permit of a priority semaphore becomes free, it goes to a waiter of the best (lowest) priority among those waiting, first come first served within one priority, with -1 as the default priority. Permits are conserved and no waiter is left asleep under cancellations and mixed priorities.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of acquires at any priorities, including default and falsy ones, releases and cancellations, all capacities",
     "Order inversions and lost wake-ups depend on which waiter is cancelled or woken while others arrive.",
     [L + "prio_semaphore.pyx"],
     [("per-priority context managers", L + "prio_semaphore.pyx"), ("wake-up order", L + "prio_semaphore.pyx")],
     "grant order and holder count, progress of every waiter")

prop("P13", "Events, counter locks and clusters release exactly the waiters they should",
     "A waiter of an event returns exactly when the event is or becomes set; a waiter of a counter lock for value v returns exactly when the counter has reached v, and the counter never goes backwards; a cluster waiter returns when every member lock has reached v. No waiter is released early, none stays asleep after its condition holds, and cancelling one waiter affects no other, wherever the object was made: in a running event loop or outside, in any thread.",
     ["schedules", "histories", "fault_sequences"],
     "all histories of set, clear, value changes, waits and cancellations with any number of waiters and any targets",
     "Wake-up correctness is over interleavings of waits, sets and cancellations.",
     [L + "event.pyx", L + "counter.pyx"],
     [("event waiters", L + "event.pyx"), ("counter events per value", L + "counter.pyx")],
     "set of released waiters after every step")

prop("P14", "The thread-safe semaphore bounds concurrency in every thread",
     "Used as a context manager or decorator from any number of threads, each with its own event loop, a thread-safe semaphore lets at most its value run at once per thread, works without cross-loop errors, and returns every permit. The dummy semaphore never blocks.",
     ["schedules", "configurations"],
     "all numbers of threads, values, task counts and durations",
     "Per-thread state and loop binding only matter with several threads and loops, which tests do not vary.",
     [L + "semaphore.pyx"],
     [("per-thread semaphore table", L + "semaphore.pyx")],
     "maximum concurrent holders per thread, completion of all tasks")

Q = "a_sync/primitives/queue.py"
prop("P15", "Bulk queue operations lose, duplicate and reorder nothing",
     "Any mix of single and bulk puts and gets on a queue behaves like one first-in first-out sequence: every item put is delivered exactly once, in order per the queue's discipline, bulk gets return the number of items they promise, failing bulk gets leave the queue unchanged, and join finishes exactly when every item has been marked done.",
     ["histories", "schedules", "inputs"],
     "all sequences of get, get_nowait, get_all, get_multi, put and task_done with blocking producers and consumers",
     "Item loss shows only when a bulk get overlaps a late producer or runs short; tests use full queues.",
     [Q], [("get_all and get_multi", Q)],
     "items returned by every operation compared with a model queue, completion of join")

prop("P16", "A processing queue processes every item once with bounded workers",
     "Every item put in a processing queue is processed by its function exactly once, the future returned for it gets exactly that call's result or exception, no more than the configured number of calls run at once and a free worker never waits while items are queued, items start in first-in first-out order, and join returns exactly after all are processed. Futures that are dropped, cancelled before or during their call, or never awaited disturb no other item; an item cancelled before it starts is not processed. Using the queue as a function gives the same results, and a closed queue refuses new work.",
     ["schedules", "histories", "fault_sequences"],
     "all arrival schedules, durations, results and failures of items, worker counts, put and put_nowait, calls, dropped futures",
     "Needs overlapping items, failures and abandoned futures in many orders.",
     [Q], [("worker coroutine", Q), ("put and put_nowait", Q)],
     "invocation log of the function, results of futures, concurrency")

prop("P17", "Priority and smart queues start the right job next and share duplicate jobs",
     "A priority processing queue always starts the pending job of best (lowest) priority next, first come first served among equals; a queue of variable priorities always hands out the smallest item at that moment; the smart queue starts the pending job with the most waiters and gives callers of an identical pending job the same computation. Every job is run exactly once per distinct pending request and every caller gets its own job's result or exception; a request that was cancelled is not shared any more.",
     ["schedules", "histories", "configurations"],
     "all arrival orders, priorities, duplicates, waiter counts and cancellations of waiters, worker counts",
     "Ordering is over all sets of pending jobs at the moment a worker frees up.",
     [Q, "a_sync/_smart.py"], [("priority heap", Q), ("deduplication table", Q), ("waiter count ordering", "a_sync/_smart.py")],
     "start order of jobs, invocation log, results per caller")

prop("P18", "Shielded and shared awaitables survive the cancellation of their waiters",
     "Any number of waiters of a smart task, smart future or shielded awaitable get its result or exception; cancelling waiters that wait through shields or smart tasks cancels neither the work nor the other waiters, and the reported number of waiters is the number currently waiting. A shield delivers exactly the inner outcome to an outer waiter that was not cancelled, and otherwise smart futures, smart tasks and shields behave like asyncio's own futures, tasks and shields.",
     ["schedules", "fault_sequences"],
     "all numbers of waiters, arrival times, cancellation points and inner outcomes",
     "Cancellation at arbitrary await points cannot be enumerated by example tests.",
     ["a_sync/_smart.py"], [("waiter registry", "a_sync/_smart.py"), ("shield", "a_sync/_smart.py")],
     "outcome of every waiter and of the inner task, waiter count after every step")

T = "a_sync/task.py"
prop("P19", "A task mapping runs its function once per key and returns each key's result",
     "Mapping a function over any keys, given as one or several mappings, lists, sync or async iterables or awaitables of them, and consumed by awaiting, iterating, yielding, gathering, popping or indexing, runs the function exactly once per distinct key with that key and the fixed arguments, and pairs every key with exactly its own result or exception. Aggregations over the mapping (sum, min, max, any, all) equal the same aggregations over the plain dictionary of results. Methods, properties and functions of either kind can be mapped over instances.",
     ["inputs", "schedules", "programs"],
     "all key sequences with or without duplicates, iterable kinds, latencies, failures, consumption styles and aggregation calls",
     "Pairing and exactly-once depend on how consumption overlaps the lazy start of tasks.",
     [T], [("lazy task start", T), ("result iteration", T), ("aggregations", T)],
     "results per key, invocation log, comparison with a plain dictionary")

prop("P20", "A task mapping respects its concurrency limit and its lifecycle",
     "With a concurrency limit a task mapping never runs more calls at once than allowed and still finishes every key; without one it starts every key that was requested. Popped tasks leave the mapping, a cleared or closed mapping starts no more work and cancels what it had started without a limit, consumers that leave early or are cancelled leave no work behind when they pop, and failures or cancellations of one key do not disturb the others.",
     ["schedules", "histories", "fault_sequences"],
     "all limits, key counts, durations, failure sets, pops and clears at any moment",
     "The limit and lifecycle are over schedules; tests use one shape.",
     [T, Q], [("queue-backed wrapped function", T), ("pop, clear and close", T)],
     "maximum concurrent calls, set of keys left, completion")

prop("P21", "gather returns every result under its own position or key",
     "Gathering any positional awaitables gives their results in the order given, gathering a mapping gives a dictionary with the same keys in the same order each with its own result; with return_exceptions failures are returned in place (an awaitable that was cancelled is a failure as well), without it the first failure to happen is raised, and an exclusion predicate removes exactly the results it accepts. An awaitable that is given twice is awaited once and fills both places. Cancelling the gathering itself ends it there and then. The progress-bar variant gives the same results.",
     ["inputs", "schedules", "configurations"],
     "all awaitable kinds, counts, completion orders, failures, option combinations",
     "Order independence is over all completion orders and option combinations.",
     ["a_sync/asyncio/gather.pyx"], [("list and mapping gather", "a_sync/asyncio/gather.pyx")],
     "returned list or dictionary, or exception")

prop("P22", "as_completed yields every awaitable once, in completion order, with its own key",
     "Iterating completions of awaitables or of a mapping yields each one exactly once, in the order they finish, with its own value and, for mappings, its own key, in both sync-style and async-style iteration, with or without a progress bar. Exceptions, cancelled awaitables among them, surface or are returned as requested and a timeout, counted from the first step, is honoured.",
     ["inputs", "schedules", "configurations"],
     "all counts, kinds, completion orders, failures, timeouts and option combinations",
     "Completion order and timeouts vary over schedules.",
     ["a_sync/asyncio/as_completed.pyx"], [("completion iteration", "a_sync/asyncio/as_completed.pyx")],
     "sequence of yielded results and keys in virtual time")

prop("P23", "create_task runs any awaitable exactly once and keeps it alive",
     "Creating a task from any awaitable gives a task of the requested name whose outcome is exactly the awaitable's outcome, and a task created with the keep-alive option finishes even when nobody holds a reference, however many garbage collections occur.",
     ["inputs", "schedules", "histories"],
     "all awaitable kinds, names, outcomes, reference drops and collections between steps",
     "Object lifetime and garbage collection timing are not sampled by tests.",
     ["a_sync/asyncio/create_task.pyx"], [("awaitable adaption", "a_sync/asyncio/create_task.pyx"), ("persisted task set", "a_sync/asyncio/create_task.pyx")],
     "task outcome, name, completion log")

U = "a_sync/utils/"
prop("P24", "Merging async iterators loses, duplicates and reorders nothing",
     "Merging any number of async iterators yields every item of every iterator exactly once, keeps each iterator's own order, ends when all have ended, and propagates a failure of any of them after the items that came before it, after which nothing more is yielded. When the consumer leaves or is cancelled the iterators are not consumed any further. Exhausting one or several iterators consumes all of them fully.",
     ["schedules", "inputs", "fault_sequences"],
     "all numbers of iterators, item counts and values (falsy and identical ones included), latencies, failures, early exits of the consumer",
     "Loss and reordering depend on producer and consumer interleaving.",
     [U + "iterators.py"], [("as_yielded", U + "iterators.py"), ("exhaust helpers", U + "iterators.py")],
     "merged sequence, exceptions, leftover producers")

prop("P25", "async any and all agree with the built-ins",
     "The async any and all over any awaitables give the truth value the built-ins give for their results, short-circuit on the first deciding result to complete, cancel what remains, and propagate an exception that completes before a decision.",
     ["inputs", "schedules"],
     "all counts, truth values, completion orders, failures",
     "Short-circuiting depends on completion order.",
     [U + "__init__.py"], [("any and all", U + "__init__.py")],
     "result, completion time, cancelled remainder")

I = "a_sync/iter.pyx"
prop("P26", "Dual-mode iterables give the same sequence in sync and async iteration",
     "An iterable, iterator or generator function wrapped for dual use gives, by for, async for, awaiting, or the materialised list, exactly the items of the underlying async source in order, including falsy items and failures at their position; awaiting one iterator again gives the same list. Bound generator methods always iterate their own instance and arguments.",
     ["inputs", "programs", "schedules"],
     "all item sequences, sources (async generators, async iterables, bound methods), failure positions, ways and mixtures of consumption",
     "Equality of all consumption styles over all sequences is beyond sampled lists.",
     [I], [("sync bridge of the iterator", I), ("generator function descriptor", I)],
     "sequence obtained in each way of consumption")

prop("P27", "Filtering and sorting dual-mode iterables agree with the built-ins",
     "Filtering a dual-mode iterable with any sync or async predicate yields exactly what the built-in filter yields for it, and sorting it with any sync or async key, reversed or not, yields exactly what the built-in sorted yields (stability included), in sync and async iteration, in any chain of filters and sorts.",
     ["inputs", "programs", "configurations"],
     "all sequences, predicates and keys (sync, async, absent), ties, reversal, chains of filters and sorts",
     "Ties, stability and the predicate kinds multiply beyond example tests.",
     [I], [("filter", I), ("sort", I)],
     "yielded sequence compared with filter() and sorted()")

prop("P28", "Lazy futures compute what the plain values compute",
     "Any expression built from lazy futures and plain values with the supported operators, in either operand order, evaluates, in sync or async use, to exactly what the same expression over the plain values gives, or raises the same exception type, and each underlying call runs exactly once however often and concurrently its future is reused.",
     ["programs", "inputs", "schedules"],
     "all expression trees over the supported operators, values, sharing of subexpressions, sync and async evaluation, concurrent awaiters",
     "An algebra of some thirty operators over shared subexpressions is beyond example tests.",
     ["a_sync/future.py"], [("operator overloads", "a_sync/future.py"), ("materialisation", "a_sync/future.py")],
     "result or exception of the expression, invocation log of the underlying calls")

X = "a_sync/executor.py"
prop("P29", "Executors run each job once and report exactly its outcome",
     "Every job given to an async executor, by run, submit or a dual-mode function, runs exactly once with its arguments and its awaitable gives exactly the job's result or exception, with at most the configured number of jobs at once, first in first out, or inline when configured with zero workers; a job cancelled before it starts never runs. A pruning pool retires threads that stay idle, but starts as many threads again as its limit allows whenever jobs wait, leaves no job behind, and its threads end when it was shut down or dropped. When the initializer of a pool fails, every job it did not start and every later one fails instead of waiting forever.",
     ["inputs", "schedules", "configurations", "fault_sequences"],
     "all job sequences, results and exceptions, worker counts, idle timeouts, bursts and pauses, thread and process pools",
     "Worker retirement and inline mode interact with arrival patterns.",
     [X], [("submit and run", X), ("pruning worker loop", X)],
     "job invocation log, awaited outcomes, concurrency")

prop("P30", "Independent definitions never influence each other",
     "However many functions, classes and instances a process defines, uses and discards, each dual-mode definition behaves as if it were alone: its signature checks, mode, cache, bound methods and class wrapping are derived from its own definition and never from an earlier, possibly discarded, one.",
     ["histories", "programs"],
     "all sequences of defining, decorating, calling, discarding and collecting functions, classes and instances",
     "Needs long histories with object identity reuse, which no test produces.",
     [A + "function.pyx", A + "base.pyx", A + "method.pyx", A + "_meta.py"],
     [("validation caches", A + "function.pyx"), ("signature cache", A + "base.pyx"), ("instance type cache", A + "method.pyx")],
     "behaviour of each definition compared with the same definition in isolation")

prop("P31", "Using objects leaves the event loop and the objects' lifetime alone",
     "However methods, properties and generators of dual-mode instances are used, at any pace and over several event loops, every timer, sleep and timeout of the program fires exactly when it is due, cancelled ones never, and calls take exactly as long as the functions they call. An instance nothing uses any more can be collected at once, or within the five minutes bound generator functions and caches may be kept, and bound methods, results and exceptions keep working whenever they are used again.",
     ["histories", "schedules", "programs"],
     "all sequences of uses of several instances of every method kind, user timers, bound methods kept over hours, drops of instances and changes of the event loop",
     "The timers of the bound method cache interact with the program's own timers only after minutes, which no test waits for.",
     [A + "method.pyx", A + "property.pyx", I],
     [("expiry of bound methods", A + "method.pyx"), ("expiry of bound generator functions", I)],
     "times at which timers fire and calls end in virtual time; weak references to dropped instances; unhandled errors of the event loop")

prop("P32", "Defaults set in the environment apply wherever nothing else was said",
     "A function decorated in a process whose environment sets default modifiers (default mode, cache type, typed keys, size and time to live, rate limit, concurrency limit, executor type and size) behaves in every call exactly like one decorated with those modifiers spelled out, except that every modifier the decorator names itself, including a null one, is the one that counts. Without such variables no modifier applies.",
     ["configurations", "programs", "inputs"],
     "all combinations of the environment variables with all combinations of explicit modifiers and default modes on sync and async functions, and all call schedules",
     "The variables are read when the library is imported, so one test process sees a single configuration.",
     [A + "config.py", A + "modifiers/manager.pyx", A + "decorator.py"],
     [("variables to modifiers", A + "config.py"), ("explicit or default modifier", A + "modifiers/manager.pyx")],
     "mode, results, starts and ends of calls, recomputations and concurrency of a process under the environment, compared with a process without it")

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
