"""Writes properties.jsonl (kept as Python for readability)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=list(over), text=text),
            why_tests_cant=why,
            anchors=dict(
                files=list(files),
                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                mechanism=[dict(name=n, where=w) for n, w in mech],
                observe_at=list(observe),
                hook_needed=None,
            ),
        )
    )


prop(
    "P01",
    "A cron schedule fires at exactly the instants that match it",
    "The next fire time of a cron schedule is the earliest whole second, not before the moment asked about, after the previous run and inside the optional start/end bounds (inclusive), whose local date and time match every field; when there is none the schedule is finished. Fields left out mean 'every' above the least significant given field and 'the minimum' below it, and steps, ranges, names, k-th/last weekdays, last day and ISO weeks mean what the documentation says.",
    ["inputs", "configurations"],
    "every combination of field expressions, bounds, zones without clock changes, previous run and asking instant",
    "The suite samples a few dozen fixed expressions; the fields interact (carry, month lengths, leap years, ISO week 53, several terms per field), and only a search over combinations against an independent matcher covers that.",
    ["asyncz/triggers/cron/trigger.py", "asyncz/triggers/cron/fields.py", "asyncz/triggers/cron/expressions.py", "asyncz/triggers/cron/constants.py"],
    [("field-by-field carry search", "asyncz/triggers/cron/trigger.py"), ("per-expression next value", "asyncz/triggers/cron/expressions.py")],
    ["CronTrigger.get_next_trigger_time", "CronTrigger.from_crontab"],
)
prop(
    "P02",
    "Cron text is either rejected or means exactly what it says",
    "Every text given for a cron field is either rejected with an error when the trigger is built, or accepted and then matches precisely the values its grammar denotes; no part of an accepted text is silently ignored. The printed form of an accepted schedule, given back, denotes the same schedule, and schedules can be printed and compared without failing.",
    ["inputs"],
    "every string given for any of the eight fields, and crontab lines",
    "Tests list a handful of good and bad strings; trailing garbage, unusual spacing or case, out-of-range values and steps form an unbounded input space.",
    ["asyncz/triggers/cron/expressions.py", "asyncz/triggers/cron/fields.py", "asyncz/triggers/cron/trigger.py"],
    [("expression regexes and range validation", "asyncz/triggers/cron/expressions.py"), ("compile_expression", "asyncz/triggers/cron/fields.py")],
    ["CronTrigger(...)", "str(trigger)", "repr(trigger)"],
)
prop(
    "P03",
    "An interval schedule fires at start + k*interval, each point once, in bounds",
    "An interval schedule's first run is the earliest point start + k*interval (k>=0) not before the moment asked about, every later run is exactly one interval after the previous one, and no run lies after the (inclusive) end. Without an explicit start the first point is one interval after the schedule was created, and a zero interval means one second.",
    ["inputs", "configurations"],
    "every interval length, start, end, zone, previous run and asking instant, including sub-second values and long distances",
    "The suite checks a few short sequences with round numbers; alignment errors need large distances, fractional starts or naive starts in unusual zones to show.",
    ["asyncz/triggers/interval.py", "asyncz/utils.py"],
    [("alignment by ceil division", "asyncz/triggers/interval.py")],
    ["IntervalTrigger.get_next_trigger_time"],
)
prop(
    "P04",
    "Clock changes never make a schedule fire early, in the past, or skip",
    "In a zone with clock changes, whichever time zone library supplies it, the next fire time is never before the moment asked about nor, asked at or after the previous run, at or before it; interval runs stay exactly one interval apart in elapsed time. A cron schedule fires at every matching local time that occurs exactly once, at least once for a matching local time that occurs twice (both times if every hour matches), and never at an existing local time that does not match.",
    ["inputs", "configurations"],
    "every zone, every instant near a transition (both readings of repeated hours), every schedule, zoneinfo and pytz",
    "The suite covers two transitions with pytz zones only, while the library itself hands out zoneinfo zones; the failing inputs are the repeated hour and unusual transitions.",
    ["asyncz/triggers/cron/trigger.py", "asyncz/triggers/interval.py", "asyncz/utils.py"],
    [("normalize/localize", "asyncz/utils.py"), ("set/increment field value", "asyncz/triggers/cron/trigger.py")],
    ["get_next_trigger_time of cron and interval triggers"],
)
prop(
    "P05",
    "Combined, one-off and jittered schedules fire when their definition says",
    "A date schedule fires once, at its instant. An 'or' schedule fires at the earliest next time of its parts and ends when all have ended; an 'and' schedule fires at the earliest time all parts agree on, ends when any part has ended, and asking it always returns an answer. Jitter only delays a run, by at most the given number of seconds, and never past the schedule's end.",
    ["inputs", "configurations"],
    "every nesting of and/or over date, interval and cron parts, every jitter, previous run and asking instant",
    "The tests use two or three fixed combinations, mostly asked once without a previous run; disagreement, exhaustion and repeated asking depend on the arithmetic of arbitrary part pairs.",
    ["asyncz/triggers/combination.py", "asyncz/triggers/date.py", "asyncz/triggers/base.py"],
    [("agreement loop", "asyncz/triggers/combination.py"), ("apply_jitter", "asyncz/triggers/base.py")],
    ["get_next_trigger_time of every trigger"],
)
prop(
    "P06",
    "Schedules and tasks survive being stored and restored unchanged",
    "A schedule or task that is serialized and restored (pickle, or any durable store's record) yields the same sequence of fire times for every previous run and asking instant, prints the same, and keeps every task attribute; restoring never depends on having been asked before. Records that are not task records, or are of an unsupported version, are refused.",
    ["inputs", "configurations"],
    "every trigger (nested combinations included), task attributes, pickle protocol, and previous/now pair",
    "Tests compare a few attributes after one pickle round trip and hardly ever ask the restored trigger for its next time.",
    ["asyncz/triggers/base.py", "asyncz/triggers/cron/trigger.py", "asyncz/triggers/interval.py", "asyncz/triggers/date.py", "asyncz/datastructures.py", "asyncz/state.py", "asyncz/tasks/base.py", "asyncz/stores/base.py"],
    [("__getstate__/__setstate__", "asyncz/triggers/base.py"), ("TaskState and envelope", "asyncz/stores/base.py")],
    ["pickle round trip", "store write then lookup"],
)
prop(
    "P07",
    "Changing a task is all-or-nothing and validates every value",
    "An update of a task either is rejected and leaves the task exactly as it was, or applies every given change; ids are immutable and unknown or ill-typed values are rejected. After any update the task's callable accepts its arguments.",
    ["inputs", "histories"],
    "every combination of valid and invalid changes, in one call or in sequence, on tasks inside and outside a scheduler",
    "Tests update one attribute at a time with one bad value; partial application needs several attributes with the bad one processed late.",
    ["asyncz/tasks/base.py", "asyncz/tasks/types.py", "asyncz/schedulers/base.py"],
    [("validate-then-apply", "asyncz/tasks/base.py")],
    ["Task.update_task", "scheduler.update_task", "Task attributes"],
)
prop(
    "P08",
    "A callable with arguments is accepted exactly when the call could be made",
    "A task's arguments are accepted exactly when calling the callable with them would bind; and a callable's textual reference, when one is given, resolves back to that same callable, while callables without a resolvable reference are refused by durable stores rather than stored broken.",
    ["inputs"],
    "every function signature (positional-only, defaults, keyword-only, varargs) and every args/kwargs pair; functions, classes, methods, static and class methods, partials, lambdas, nested functions, callable objects",
    "Tests try about a dozen signatures; the acceptance rule is a hand-written re-implementation of argument binding.",
    ["asyncz/utils.py", "asyncz/tasks/base.py"],
    [("check_callable_args", "asyncz/utils.py"), ("obj_to_ref/ref_to_obj", "asyncz/utils.py")],
    ["scheduler.add_task", "Task(...)", "asyncz.utils"],
)
prop(
    "P09",
    "Dates, times and zones given as text or values denote one instant",
    "Every accepted date, datetime or date text denotes the instant its own offset says, or the local time in the zone it is interpreted in when it has none; anything else is rejected with an error. Converting between instants and stored timestamps loses nothing finer than a microsecond.",
    ["inputs"],
    "every text, date, naive or aware datetime and zone, including repeated and skipped local times and extreme offsets",
    "Tests convert about a dozen values; fractional seconds, offsets and transitions are an open input space.",
    ["asyncz/utils.py"],
    [("to_datetime and DATE_REGEX", "asyncz/utils.py")],
    ["asyncz.utils.to_datetime", "trigger constructors", "scheduler.add_task(next_run_time=...)"],
)
prop(
    "P10",
    "Every store behaves as the same ordered set of tasks",
    "After any sequence of additions, updates, deletions and clears, each store reports exactly the tasks that remain, with their latest attributes, in order of next run time with paused tasks last; the due tasks are exactly those whose next run time is not later than the given instant, and the reported next run time is the earliest. Adding an existing id and changing or deleting an unknown one is refused and changes nothing. Stores that share a directory, database, server or client under different names (suffix, table, keys, collection) are separate sets.",
    ["histories", "inputs", "configurations"],
    "every operation history over memory, file, SQL, redis and document stores, encrypted or not, with arbitrary ids, times and attributes",
    "The shared store tests run short fixed scripts on three tasks; ordering, re-ordering after updates and equality of backends need long mixed histories.",
    ["asyncz/stores/base.py", "asyncz/stores/memory.py", "asyncz/stores/file.py", "asyncz/stores/sqlalchemy.py", "asyncz/stores/redis.py", "asyncz/stores/mongo.py"],
    [("sorted list and index", "asyncz/stores/memory.py"), ("ORDER BY / zset / sort", "asyncz/stores/sqlalchemy.py, asyncz/stores/redis.py, asyncz/stores/mongo.py")],
    ["store API: add_task, update_task, delete_task, lookup_task, get_due_tasks, get_next_run_time, get_all_tasks, remove_all_tasks"],
)
prop(
    "P11",
    "What a durable store accepted is still there after a restart, and only that",
    "Closing a durable store at any point of a history and opening it again shows exactly the accepted tasks; a damaged record affects no other task, and clean-up of unreadable records never removes readable ones, also when a read fails or is interrupted. A file-backed store never reads, writes or deletes outside its directory, whatever the task ids.",
    ["histories", "crash_points", "inputs"],
    "every history with restarts and damaged records interleaved, and every task id",
    "Tests restart a store once after a single add and do not combine damage, restarts and further operations.",
    ["asyncz/stores/file.py", "asyncz/stores/sqlalchemy.py", "asyncz/stores/redis.py", "asyncz/stores/mongo.py", "asyncz/stores/base.py"],
    [("per-record restore with failed-record removal", "asyncz/stores/*.py"), ("forbidden id characters", "asyncz/stores/file.py")],
    ["store API across two instances on the same backend", "directory contents"],
)
prop(
    "P12",
    "With an encryption key, stored records are opaque and tamper-evident",
    "When a store encryption key is configured, nothing of a task's payload appears in clear in the backend, a record that was altered, truncated or written with another key or none is never restored as a task, and an untouched record restores exactly. Encrypting the same task twice never yields the same bytes.",
    ["inputs", "fault_sequences"],
    "every task payload, every modification of the stored bytes, every pair of keys",
    "The suite merely repeats its store tests with a key set; it never alters a record or looks at the stored bytes.",
    ["asyncz/stores/base.py"],
    [("AES-CCM with random nonce", "asyncz/stores/base.py")],
    ["raw bytes in the backend", "store API"],
)
prop(
    "P13",
    "A shared durable store loses nothing under concurrent use or a killed writer",
    "When several schedulers or processes use one file-store directory, redis database or SQL database at the same time, or a writer is killed at any point, every accepted task is present afterwards with one of the versions written, readers see only complete versions, an id added by several at once is accepted exactly once, and a deleted task is not brought back by an update.",
    ["schedules", "crash_points"],
    "every interleaving of add/update/delete/read on the same directory or database, and a kill at any step of an operation",
    "Tests use each store from one thread only.",
    ["asyncz/stores/file.py", "asyncz/file_locking.py", "asyncz/stores/redis.py", "asyncz/stores/sqlalchemy.py"],
    [("directory lock, replaced files", "asyncz/stores/file.py"), ("watched transactions", "asyncz/stores/redis.py"), ("primary key, row counts", "asyncz/stores/sqlalchemy.py")],
    ["store API in several threads and processes", "directory contents"],
)
prop(
    "P14",
    "Every due run is submitted exactly once, under the task's own rules",
    "Whenever the scheduler looks, each unpaused task's run times that have become due since it last ran are submitted once, in order - all of them, or just the latest when the task coalesces, never more than its instance limit allows at a time and none while it is at the limit - and its next run time then is the first one still in the future; an exhausted task is removed, and a paused task or scheduler runs nothing. A run that starts later than its grace time is reported as missed instead of run.",
    ["histories", "schedules", "configurations"],
    "every history of clock advances, wake-ups, task changes and slow runs, over all trigger kinds and stores",
    "Tests drive the loop with mocks for one task and one wake-up; exactly-once over long histories with irregular wake-ups is a statement about all histories.",
    ["asyncz/schedulers/base.py", "asyncz/executors/base.py", "asyncz/tasks/base.py"],
    [("_process_tasks_of_store", "asyncz/schedulers/base.py"), ("get_run_times", "asyncz/tasks/base.py"), ("instances accounting and grace check", "asyncz/executors/base.py")],
    ["calls of the task's function", "events", "next_run_time"],
)
prop(
    "P15",
    "The scheduler never sleeps past the next due run",
    "After every processing round the scheduler's wake-up is not later than the earliest next run time in any of its stores (or the retry delay after a store failed), it waits without limit only when there is nothing to run, and any change that makes an earlier run possible wakes it.",
    ["histories", "configurations"],
    "every set of tasks and stores, every change made while waiting, on the thread-based and native asyncio schedulers",
    "Tests check the returned delay for single mocked stores; missing wake-ups show only for particular operations at particular states.",
    ["asyncz/schedulers/base.py", "asyncz/schedulers/asyncio.py"],
    [("process_tasks return value", "asyncz/schedulers/base.py"), ("wakeup after changes", "asyncz/schedulers/base.py, asyncz/schedulers/asyncio.py")],
    ["value returned by process_tasks", "calls to wakeup", "actual run time on a live loop"],
)
prop(
    "P16",
    "One failing task, listener, store or executor never disturbs the others",
    "A task that raises, a listener that raises, a store that fails temporarily, an executor that refuses or is missing, or a task that removes itself or others while running affects only itself: every other due task is still run in that round, events still reach the other listeners, locks are released, and the scheduler keeps working once the fault is gone.",
    ["fault_sequences", "histories"],
    "every placement of faults over tasks, listeners, stores and executors in every round of a history",
    "Tests inject one fault at a time in otherwise idle schedulers.",
    ["asyncz/schedulers/base.py", "asyncz/executors/base.py", "asyncz/locks.py"],
    [("exception handling around submissions and listeners", "asyncz/schedulers/base.py"), ("lock release", "asyncz/locks.py")],
    ["task calls", "events", "subsequent rounds"],
)
prop(
    "P17",
    "Start, pause, resume and shutdown follow one state machine",
    "Any sequence of start, pause, resume, shutdown and configuration calls moves the scheduler between stopped, running and paused exactly as documented, refusing calls that do not fit without side effects: tasks added while stopped appear in their store at start exactly once, nested starts need as many shutdowns, each store and executor is started and shut down once per run, and a stopped scheduler can be started again with its persistent tasks intact.",
    ["histories", "configurations"],
    "every sequence of lifecycle and configuration calls on every scheduler class",
    "Tests walk a few fixed paths; refused calls with partial effects only show in longer sequences.",
    ["asyncz/schedulers/base.py", "asyncz/schedulers/asyncio.py"],
    [("state and reference counter", "asyncz/schedulers/base.py")],
    ["scheduler.state/running", "start/shutdown calls on plugins", "events"],
)
prop(
    "P18",
    "Managing tasks has exactly the documented effect, in every scheduler state",
    "Adding (with or without replacement), updating, rescheduling, pausing, resuming, running now, deleting and clearing tasks behave as on an abstract collection of tasks per store: each call changes only the addressed task in the documented way or is refused without effect, defaults fill in only what was not given, ids stay unique per store, and the result is the same whether the task was still pending or already stored.",
    ["histories", "inputs", "configurations"],
    "every sequence of management calls on stopped, running and paused schedulers with several stores",
    "Tests call each operation once on a fresh scheduler; combinations (e.g. updates of pending tasks, replacement across states) are untested.",
    ["asyncz/schedulers/base.py", "asyncz/tasks/base.py", "asyncz/schedulers/datastructures.py"],
    [("task management methods", "asyncz/schedulers/base.py")],
    ["scheduler.get_task(s)", "return values and exceptions"],
)
prop(
    "P19",
    "Events report exactly the changes that happened, to exactly who asked",
    "Every state change of scheduler, stores, executors and tasks is announced by exactly one event of the documented kind carrying the right task, store and run times, after the change is visible and in order, and no event is announced without its change; a listener receives exactly the kinds it registered for, from registration until removal.",
    ["histories", "configurations"],
    "every history of operations and every set of listener masks",
    "Tests look for single expected events; absence of extra, duplicated or misaddressed events over histories is not tested.",
    ["asyncz/schedulers/base.py", "asyncz/executors/base.py", "asyncz/events/base.py", "asyncz/events/constants.py"],
    [("dispatch_event", "asyncz/schedulers/base.py")],
    ["listener callbacks"],
)
prop(
    "P20",
    "Inspection, filters and previews tell the truth and change nothing",
    "Task snapshots, filtered and sorted listings, counts and run previews agree with the tasks actually held at that moment: a listing contains exactly the tasks matching every filter, ordered as asked, and a preview is exactly the sequence of times the task would run at if left alone. None of them changes any task or schedule, and snapshots cannot be changed.",
    ["inputs", "histories"],
    "every population of tasks, every filter/sort combination, every preview length",
    "Tests filter a population of three tasks by one criterion at a time.",
    ["asyncz/schedulers/base.py", "asyncz/schedulers/inspection.py", "asyncz/tasks/inspection.py", "asyncz/tasks/types.py"],
    [("get_task_infos, preview_task_runs, get_scheduler_info", "asyncz/schedulers/base.py")],
    ["scheduler.get_task_infos", "scheduler.preview_task_runs", "Task.snapshot"],
)
prop(
    "P21",
    "All ways of writing a configuration give the same scheduler and settings",
    "A configuration given as keyword arguments, as a nested mapping, as flat dotted keys with the prefix, or as a mix, produces schedulers with the same stores, executors, defaults, zone and timings; explicit arguments win over the mapping, malformed values are rejected, and the given mapping is left untouched. Settings classes take each field from the environment (cast to its declared type, or refused) before the given argument before the default, for inherited and optional fields too.",
    ["configurations", "inputs"],
    "every combination of settings, spelled in every accepted way",
    "Tests configure a couple of fixed dictionaries.",
    ["asyncz/schedulers/base.py", "asyncz/schedulers/datastructures.py", "asyncz/conf/global_settings.py"],
    [("setup/_setup", "asyncz/schedulers/base.py")],
    ["scheduler attributes and info", "add_task defaults"],
)
prop(
    "P22",
    "Executors run each submitted run once, report it once, and keep count",
    "Every run submitted to an executor calls the function exactly once with the task's arguments (or reports it missed) and is followed by exactly one outcome event with the right run time and value or exception; the number of runs of a task in flight never exceeds its limit and returns to zero, so the limit is fully available again whatever the outcome, for thread, process, asyncio and inline executors.",
    ["schedules", "histories", "fault_sequences"],
    "every interleaving of submissions, durations, outcomes (value, exception, cancellation) and limits",
    "Tests run one or two jobs per executor; leaks of the running count need particular outcome sequences.",
    ["asyncz/executors/base.py", "asyncz/executors/pool.py", "asyncz/executors/process_pool.py", "asyncz/executors/asyncio.py", "asyncz/executors/debug.py"],
    [("instances counter", "asyncz/executors/base.py"), ("run_task / run_coroutine_task", "asyncz/executors/base.py")],
    ["executor.send_task", "events", "function calls"],
)
prop(
    "P23",
    "Schedulers sharing a store under a lock run each occurrence once",
    "When several schedulers, in one or several processes, share a durable store and a lock path, each occurrence of each task is submitted by exactly one of them, and at most one holds the lock at a time; a lock is released when its holder leaves its section in any way, including an exception or death.",
    ["schedules", "crash_points", "histories"],
    "every interleaving of the schedulers' rounds, and holders that raise or die",
    "Tests start two processes once and count runs of one task.",
    ["asyncz/locks.py", "asyncz/file_locking.py", "asyncz/schedulers/base.py"],
    [("LockProtected / FileLockProtected", "asyncz/locks.py"), ("lock around processing", "asyncz/schedulers/base.py")],
    ["runs recorded by the task function", "lock acquisition results"],
)
prop(
    "P24",
    "Shutdown and lifecycle tasks run exactly once per shutdown",
    "A task scheduled for shutdown runs exactly once when the scheduler shuts down, never before, and is then gone, whichever store, executor or start/pause history it had; a generator-based lifecycle task is set up once, ticks as scheduled and is cleaned up once, as its other tasks are unaffected by its end. A shutdown comes to its end, once, also while running tasks and listeners use the scheduler.",
    ["histories", "configurations"],
    "every history of ticks, pauses and shutdowns with any number of shutdown and lifecycle tasks",
    "Tests cover one lifecycle task through one start/stop.",
    ["asyncz/schedulers/base.py", "asyncz/triggers/shutdown.py", "asyncz/tasks/base.py"],
    [("shutdown task submission", "asyncz/schedulers/base.py"), ("generator wrapping", "asyncz/tasks/base.py")],
    ["calls recorded by the task functions"],
)
prop(
    "P25",
    "The ASGI wrapper and context managers bracket the application exactly",
    "Wrapped around an application, the scheduler is running before the application serves and is shut down after it stops, once each, whatever the order and number of connections, messages and failures; every message passes unchanged unless the wrapper is told to answer the lifespan itself, and context managers shut down on any way of leaving.",
    ["histories", "inputs", "fault_sequences"],
    "every sequence of lifespan and request scopes, with applications that answer, ignore or fail",
    "Tests run one lifespan with a cooperative application.",
    ["asyncz/schedulers/asyncio.py", "asyncz/schedulers/base.py"],
    [("asgi()", "asyncz/schedulers/asyncio.py")],
    ["scheduler.running seen by the application", "messages seen on both sides"],
)
prop(
    "P26",
    "Run history shows every observed run with its true, final outcome",
    "From any order and mix of submission, execution, error, missed and limit events, the run history keeps one record per run with its latest outcome, never turns a finished run back into a running one, keeps the most recent records within its limit, and its queries and summary are exactly the filtered records and their counts.",
    ["histories", "inputs", "configurations"],
    "every event order (including duplicates and results before submissions), limits and query filters",
    "Tests feed one submission followed by one result.",
    ["asyncz/contrib/dashboard/history.py"],
    [("record keyed by task, store and run time", "asyncz/contrib/dashboard/history.py")],
    ["MemoryRunHistoryStorage via the scheduler's events"],
)
prop(
    "P27",
    "Log, event and audit views return exactly the matching latest entries",
    "The in-memory log, scheduler-event and audit storages keep the newest entries up to their limit and answer every query with exactly the kept entries that satisfy all filters, newest first, up to the requested number, also while others append.",
    ["histories", "inputs", "configurations"],
    "every append history, capacity and combination of filters",
    "Tests query one filter over two or three entries.",
    ["asyncz/contrib/dashboard/logs/storage.py", "asyncz/contrib/dashboard/logs/handler.py", "asyncz/contrib/dashboard/events.py", "asyncz/contrib/dashboard/audit.py"],
    [("deque with lock and query", "asyncz/contrib/dashboard/logs/storage.py")],
    ["storage.query results"],
)
prop(
    "P28",
    "Operating a scheduler remotely equals operating it locally",
    "Every operation through the remote client has the same effect, result and kind of refusal as the same call made directly on the worker's scheduler, for all arguments, and every request without the right token, or that is malformed, is refused without effect; connections and answers that fail are reported as remote errors.",
    ["histories", "inputs"],
    "every sequence of operations, on two schedulers kept in step, and every token",
    "Tests call each endpoint once with plain arguments.",
    ["asyncz/contrib/dashboard/remote.py"],
    [("request encoding/decoding", "asyncz/contrib/dashboard/remote.py"), ("token check", "asyncz/contrib/dashboard/remote.py")],
    ["RemoteSchedulerClient results vs BaseScheduler results"],
)
prop(
    "P29",
    "No dashboard page or action is reachable without authentication",
    "With a login backend configured, every request that is not from an authenticated session, whatever its method, path spelling, query or headers, is answered by the login flow and has no effect, except for the login and asset paths; authenticated sessions see the page asked for. Forwarded-prefix headers are honoured only from trusted hosts and never inject anything but a clean path, and user-supplied text is always shown escaped.",
    ["inputs", "histories", "configurations"],
    "every request (method, path, headers, session state) and every mount prefix and trusted host list",
    "Tests request a few pages with and without a session.",
    ["asyncz/contrib/dashboard/admin/middleware.py", "asyncz/contrib/dashboard/admin/core.py", "asyncz/contrib/dashboard/admin/backends.py", "asyncz/contrib/dashboard/application.py", "asyncz/contrib/dashboard/controllers"],
    [("AuthGateMiddleware", "asyncz/contrib/dashboard/admin"), ("ForwardedPrefixMiddleware", "asyncz/contrib/dashboard/admin")],
    ["HTTP responses", "scheduler state after the request"],
)
prop(
    "P30",
    "Dashboard forms and listings do what they display",
    "A task created, edited or acted on through the dashboard ends up with exactly the submitted values, or is refused with a message and nothing changed; task listings show exactly the tasks matching the filters, each on exactly one page, and bulk actions touch exactly the selected tasks.",
    ["inputs", "histories"],
    "every form content, filter, page size and selection",
    "Tests submit a few well-formed forms.",
    ["asyncz/contrib/dashboard/controllers/_helpers.py", "asyncz/contrib/dashboard/controllers/tasks.py"],
    [("form and filter parsing", "asyncz/contrib/dashboard/controllers/_helpers.py")],
    ["HTTP responses", "scheduler state"],
)
prop(
    "P31",
    "Command-line options and commands mean the same as the API",
    "Every interval, trigger, store and executor option text is either refused with a message or builds exactly what it says; and tasks added, listed, paused, resumed, updated and removed by commands on a durable store are exactly those an API user of that store sees.",
    ["inputs", "histories"],
    "every option text and every sequence of commands on one store",
    "Tests invoke each command once with canonical options.",
    ["asyncz/cli/types.py", "asyncz/cli/_parsers.py", "asyncz/cli/utils.py", "asyncz/cli/commands", "asyncz/cli/loader.py"],
    [("option parsers", "asyncz/cli/types.py"), ("store/executor builders", "asyncz/cli/utils.py")],
    ["CLI output and exit code", "store contents"],
)
prop(
    "P32",
    "A state shape never changes what a value means",
    "Converting a supported value to its plain form and back through any registered shape gives an equal value, partial updates change only the given fields, values of the wrong form are refused, and registering or selecting shapes never makes another shape or an already stored record mean something else.",
    ["inputs", "configurations"],
    "every supported value, every built-in shape and custom shape, and every registration order",
    "Tests convert one example object per shape.",
    ["asyncz/shapes", "asyncz/stores/base.py"],
    [("shape registry and adapters", "asyncz/shapes")],
    ["shape API", "task state with each shape"],
)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        fh.write(json.dumps(p) + "\n")
print(len(P))
