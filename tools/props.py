PROPS = []


def P(**kw):
    PROPS.append(kw)


P(
    id="C01",
    title="A cron trigger fires at the earliest matching instant, and at every one of them",
    statement="For every cron expression, zone, start and end bound, the next fire time is the earliest whole second not before the reference time (the current time on the first call, just after the previous fire time afterwards, and never before the inclusive start bound) whose local calendar fields match the expression, and there is none exactly when no such instant exists up to the inclusive end bound. Jitter only delays a fire time, by at most the jitter and never past the end bound. Around a change of the zone's UTC offset fire times still strictly increase, match (or are the shifted image of a skipped match) and are never later than the next unambiguous match.",
    over=["inputs", "histories", "configurations"],
    quant="all expressions (lists, ranges, steps, names, nth/last weekday, last day) in all field combinations, all reference times incl. month/year/ISO-week/leap boundaries and offset changes, zoneinfo and pytz zones, chains of successive fire times",
    why="the tests check some forty hand-computed dates; field interaction with carry, ISO weeks, leap years, bounds and offset changes is a product space",
    files=["asyncz/triggers/cron/trigger.py", "asyncz/triggers/cron/fields.py", "asyncz/triggers/cron/expressions.py", "asyncz/utils.py", "asyncz/triggers/base.py"],
    mech=[("field by field search with carry", "asyncz/triggers/cron/trigger.py:get_next_trigger_time"), ("next value per expression", "asyncz/triggers/cron/expressions.py:get_next_value"), ("offset handling", "asyncz/utils.py:normalize,localize,not_before")],
    tech="bounded-exhaustive exploration of trigger chains against a brute-force calendar reference",
    note="every expression pair (thorough: triple) of the alphabet from 13 boundary instants, crontab forms, bounds, jitter at forced draws, and 5 zones x 2 tz libraries over every offset change of two years; trusts datetime/zoneinfo and the reference's calendar scan",
)
P(
    id="C02",
    title="Interval triggers stay on their grid, date triggers fire exactly once",
    statement="An interval trigger only fires at its start plus a whole number of intervals, at the earliest such instant that is not in the past (first call) or exactly one interval after the previous fire time (later calls), inside its inclusive start and end bounds, and reports the end when none is left. With jitter a fire time is delayed by a random part of at most that many seconds. A date trigger fires at its instant exactly once, however late it is asked. A date given as text means the instant it spells, to the microsecond and in its own zone if it names one, or is refused. Across offset changes, time zones given as names, zoneinfo, pytz or fixed offsets, and naive bounds, fire times strictly increase and never drift by more than the offset change.",
    over=["inputs", "histories", "configurations"],
    quant="all interval lengths (incl. zero, fractional, weeks), start and end offsets around the reference time, input forms (aware, naive, text), zones and long chains of fire times",
    why="the tests check a handful of dates; rounding, bound inclusion, zones and chains interact",
    files=["asyncz/triggers/interval.py", "asyncz/triggers/date.py", "asyncz/triggers/base.py", "asyncz/utils.py"],
    mech=[("grid step", "asyncz/triggers/interval.py:get_next_trigger_time"), ("single fire", "asyncz/triggers/date.py:get_next_trigger_time"), ("bounds and zones", "asyncz/utils.py:to_datetime,localize,normalize")],
    tech="bounded-exhaustive exploration of trigger chains against an arithmetic reference",
    note="14 intervals x 8 starts x 8 ends x 6 input forms x 12 references x chains, jitter at forced draws, DST rasters in zoneinfo and pytz, every combination of 14 date, 13 time, 10 fraction and 14 zone texts",
)
P(
    id="C03",
    title="Combined triggers: 'or' is the earliest child, 'and' the earliest agreement",
    statement="An 'or' combination fires at exactly the earliest of its children's next fire times, an 'and' combination at the earliest instant all children agree on, and either reports the end when there is none. Successive fire times strictly increase and no agreement or child fire time is skipped or repeated, also for nested combinations. Asking always terminates.",
    over=["inputs", "histories"],
    quant="all pairs and triples of cron/interval/date children with bounds, reference times and chains, nested one level",
    why="tests combine two triggers in a few instances; the agreement search depends on the interplay of all children over the whole chain",
    files=["asyncz/triggers/combination.py", "asyncz/triggers/base.py"],
    mech=[("agreement search", "asyncz/triggers/combination.py:AndTrigger.get_next_trigger_time"), ("earliest child", "asyncz/triggers/combination.py:OrTrigger.get_next_trigger_time")],
    tech="bounded-exhaustive exploration of combination chains against a set-based reference",
    note="16 child specifications, all pairs and triples (thorough), nested; children that never agree within the library's own search limit are left out",
)
P(
    id="C04",
    title="A stored and reloaded trigger behaves exactly like the original",
    statement="Serializing a trigger and restoring it, any number of times and at any point of its chain of fire times, yields a trigger with the same description and exactly the same further fire times. This holds for every trigger type, option and combination, bounds, zones given as names or zone objects, and every supported pickle protocol.",
    over=["inputs", "histories", "configurations"],
    quant="all trigger types x options x zones x bounds x jitter, combinations, pickle protocols, restore points",
    why="tests restore one instance per type and compare attributes, not the behaviour over its chain",
    files=["asyncz/triggers/base.py", "asyncz/triggers/cron/trigger.py", "asyncz/triggers/interval.py", "asyncz/triggers/date.py", "asyncz/triggers/combination.py", "asyncz/state.py"],
    mech=[("state capture and restore", "asyncz/state.py:BaseState.__setstate__"), ("trigger state", "asyncz/triggers/*:__getstate__/__setstate__")],
    tech="bounded-exhaustive differential exploration of original and restored trigger chains",
    note="36 base specifications x zone forms x bounds x jitter, pairwise combinations, protocols 2-5, two generations",
)
P(
    id="C05",
    title="Cron expressions are accepted exactly when grammar and range allow",
    statement="A cron field accepts a text exactly when it is in the documented grammar with values in the field's range, and rejects every other text with an error instead of scheduling something else. Every accepted text fires exactly at the values it denotes. Crontab lines with any number of fields other than five are rejected.",
    over=["inputs"],
    quant="all token strings up to a length over each field's alphabet incl. boundary values, names, separators and stray characters",
    why="tests try about twenty invalid strings; silent misinterpretation needs the whole language up to a length",
    files=["asyncz/triggers/cron/expressions.py", "asyncz/triggers/cron/fields.py", "asyncz/triggers/cron/trigger.py"],
    mech=[("expression regexes and range checks", "asyncz/triggers/cron/expressions.py"), ("compilation per field", "asyncz/triggers/cron/fields.py:compile_expression")],
    tech="exhaustive enumeration of the token language up to a length against a reference grammar",
    note="up to 4 (5) tokens over 13-15 tokens for each of the 8 fields, and the denoted values of every accepted text",
)
P(
    id="C06",
    title="A task update applies completely or not at all",
    statement="Updating a task with any set of attributes either applies all of them, and nothing else, or raises and leaves the task (and its stored copy) exactly as before. Read-only attributes (the id, once set) are never changed and unknown attributes are rejected. The stored copy afterwards equals the updated task for every store.",
    over=["inputs", "configurations", "faults"],
    quant="all combinations of up to 3 (4) attributes with valid and invalid values, on free, pending and stored tasks",
    why="tests update attributes one at a time with a single invalid value each; partial application needs a later attribute of a combination to fail",
    files=["asyncz/tasks/base.py", "asyncz/schedulers/base.py"],
    mech=[("validate, then apply", "asyncz/tasks/base.py:update_task"), ("lookup, update, store", "asyncz/schedulers/base.py:update_task")],
    tech="exhaustive enumeration of update combinations on the real code with state comparison",
    note="13 attributes with 2 valid and up to 4 invalid values each, all combinations of up to 3 (4), memory, file and SQL stores",
)
P(
    id="C08",
    title="Task arguments are accepted exactly when the call would be accepted",
    statement="A task is accepted with given positional and keyword arguments exactly when calling its function with them would not raise a signature error. Rejected arguments raise a value error when the task is created or updated, so a scheduled task never fails because of its argument list.",
    over=["inputs"],
    quant="all signatures of up to 3 (4) parameters over all five parameter kinds and defaults, all argument combinations, plain functions, methods, classes, partials, cached and wrapped functions",
    why="tests check a dozen signatures by hand; positional-only, keyword-only and variadic parameters interact",
    files=["asyncz/utils.py", "asyncz/tasks/base.py"],
    mech=[("argument check", "asyncz/utils.py:check_callable_args")],
    tech="exhaustive enumeration of signatures and argument lists; the oracle is Python's own call",
    note="every signature of up to 3 (4) parameters x up to 4 (5) positional arguments x all keyword subsets",
)
P(
    id="C09",
    title="Every store behaves like the same ordered set of tasks",
    statement="After any sequence of add, update, delete and clear, every store (memory, file, SQL, redis, mongo) contains exactly the tasks a map by id would contain, each with the attributes last written, adding an existing id raises the conflict error and changing a missing one the lookup error, without other effect. Listings are ordered by next run time with paused tasks last, the due tasks at any instant are exactly those scheduled at or before it in time order, and the next run time is the earliest of all.",
    over=["histories", "inputs", "configurations"],
    quant="all operation sequences over a small universe of ids and run times (none, ties, fractions, before 1970), on five backends",
    why="tests run a few fixed sequences per store; index and order bugs need specific sequences and ties",
    files=["asyncz/stores/memory.py", "asyncz/stores/file.py", "asyncz/stores/sqlalchemy.py", "asyncz/stores/redis.py", "asyncz/stores/mongo.py", "asyncz/stores/base.py"],
    mech=[("sorted list with index", "asyncz/stores/memory.py:get_task_index"), ("score set", "asyncz/stores/redis.py:get_due_tasks"), ("paused tasks last", "asyncz/stores/base.py:fix_paused_tasks")],
    tech="explicit-state exploration of a reference model, every transition replayed on each real store",
    note="mongo against a stand-in client with mongo's comparison rules; redis against a private server",
)
P(
    id="C24",
    title="Concurrent management and processing act like some order of the calls",
    statement="Whenever tasks are added, replaced, changed, paused, resumed, rescheduled, run manually, listed or deleted, or the scheduler is paused, resumed or shut down, from several threads while due tasks are processed, the final tasks, runs, events, results and errors are those of some sequential order of these calls. No task is lost, revived, duplicated or run twice, no call blocks forever, and what a shutdown leaves in a durable store fits the runs made.",
    over=["schedules", "histories", "configurations"],
    quant="all pairs (and triples around the processing) of 20 calls, all thread interleavings up to a preemption bound at line (thorough: bytecode) granularity, memory, file and SQL stores",
    why="tests call these functions from one thread; a lost update needs a preemption at one specific line",
    files=["asyncz/schedulers/base.py", "asyncz/stores/memory.py", "asyncz/stores/file.py", "asyncz/locks.py", "asyncz/executors/base.py"],
    mech=[("store lock", "asyncz/schedulers/base.py:store_lock"), ("processing lock", "asyncz/schedulers/base.py:process_tasks"), ("manual run", "asyncz/schedulers/base.py:run_task")],
    tech="stateless exploration of the real code under a controlled thread scheduler with preemption bounding; oracle: outcomes of all sequential orders",
    note="about 150000 schedules quick; tasks run inline here, concurrent runs are C16",
)
P(
    id="C07",
    title="A restart keeps every task of a durable store and its behaviour",
    statement="A task in a durable store (file, SQL, redis, mongo, encrypted or not, any pickle protocol) has after any number of restarts the same id, callable, arguments, name, trigger, options, executor and next run time, and makes exactly the runs it would have made without the restart; what cannot be stored is refused when it is given, never exchanged for something else. Whatever was added, changed, paused, rescheduled, run or deleted before, restarting after any step is not observable in the later tasks and runs.",
    over=["inputs", "histories", "configurations", "crash_points"],
    quant="all kinds of callables x arguments x triggers x options x stores x encryption x pickle protocols; all histories of management and processing steps with restarts in between",
    why="tests store and reload one simple task per store; the combination of attributes and histories is a product space",
    files=["asyncz/stores/base.py", "asyncz/stores/file.py", "asyncz/stores/sqlalchemy.py", "asyncz/stores/redis.py", "asyncz/stores/mongo.py", "asyncz/tasks/base.py", "asyncz/datastructures.py"],
    mech=[("task state", "asyncz/tasks/base.py:__getstate__,__setstate__"), ("rebuild", "asyncz/stores/file.py:rebuild_task"), ("envelope", "asyncz/stores/base.py:serialize_task_state")],
    tech="bounded-exhaustive exploration of histories; reference: the same history on a memory store which is never restarted",
    note="a restart is a shutdown plus new scheduler and store objects on the same place, in one process",
)
P(
    id="C19",
    title="Processing submits exactly the due runs and moves every task on",
    statement="Processing at any time submits for each due task exactly its fire times up to now (only the latest when coalescing), once, in its executor, unless the task has as many running instances as allowed, which is reported instead. The next run time becomes the first fire time after the last of these, a task without one is removed and reported, a task with an unknown executor is removed without affecting others, and runs later than the grace time are reported as missed instead of being made. The returned wait is the time to the earliest next run time, none if there is none.",
    over=["histories", "inputs", "configurations"],
    quant="all words of clock advances with processing and run completions over 22 task sets; memory, file, SQL, redis and mongo stores",
    why="tests process a task once or twice; coalescing, grace, instance limits, trigger end and several stores interact over a history",
    files=["asyncz/schedulers/base.py", "asyncz/tasks/base.py", "asyncz/executors/base.py"],
    mech=[("due tasks", "asyncz/schedulers/base.py:_process_tasks_of_store"), ("run times", "asyncz/tasks/base.py:get_run_times"), ("grace time and instances", "asyncz/executors/base.py:run_task,send_task")],
    tech="explicit-state exploration of a reference model, every word replayed on the real scheduler",
    note="the executor is a stand-in which finishes runs on command; triggers are those of C01/C02 reduced to three kinds",
)
P(
    id="C21",
    title="Tasks are processed only while the scheduler runs, and none is lost meanwhile",
    statement="No task runs before the start, while the scheduler is paused or after it was stopped, whatever calls are made; tasks that became due meanwhile are processed after resuming. Pausing and resuming change the state and report it exactly when they have an effect, and are errors on a stopped scheduler. Every call which can make something due earlier on a running scheduler wakes it up.",
    over=["histories"],
    quant="all words of length 5 (6) of ten calls, memory and file (and other) stores",
    why="tests check single transitions",
    files=["asyncz/schedulers/base.py"],
    mech=[("state checks", "asyncz/schedulers/base.py:process_tasks"), ("pause and resume", "asyncz/schedulers/base.py:pause,resume"), ("wakeup on change", "asyncz/schedulers/base.py:real_add_task,update_task")],
    tech="explicit-state exploration of a lifecycle model, every word replayed on the real scheduler",
    note="the timer is left out here (C20 explores it)",
)
P(
    id="C22",
    title="Starts and shutdowns are counted, failed starts leave nothing behind",
    statement="The first of n starts starts the scheduler and the last of n shutdowns stops it; the calls between report that they did nothing. A shutdown of a stopped scheduler is an error and not counted, a failed start can be repeated and loses no task. A real shutdown runs every task with a shutdown trigger exactly once and removes it, keeps all other tasks of durable stores, and the scheduler can be started again.",
    over=["histories", "fault_sequences"],
    quant="all words of length 5 (6) of ten calls including failing starts of stores and executors; memory and file stores",
    why="tests start and stop once or twice; miscounting needs a particular history",
    files=["asyncz/schedulers/base.py", "asyncz/triggers/shutdown.py", "asyncz/stores/memory.py", "asyncz/state.py"],
    mech=[("reference counter", "asyncz/schedulers/base.py:inc_refcount,decr_refcount"), ("start", "asyncz/schedulers/base.py:start"), ("shutdown tasks", "asyncz/schedulers/base.py:shutdown")],
    tech="explicit-state exploration of a lifecycle model, every word replayed on the real scheduler",
    note="base scheduler; the asyncio schedulers are explored by C20 and C26",
)
P(
    id="C23",
    title="Tasks added before the start are committed exactly as if added afterwards",
    statement="Tasks added to a stopped scheduler are listed, changed, deleted and cleared as pending, and the start adds each to its store exactly once: with its first fire time not before the start, replacing an existing task only when asked to, and keeping the existing one on a conflict. A failed start keeps them pending, a restart never adds them again.",
    over=["histories", "configurations"],
    quant="all words of length 4 (5) of 14 calls; memory, file, SQL, redis and mongo stores",
    why="tests add one task before the start; conflicts, replacement, several stores and restarts interact",
    files=["asyncz/schedulers/base.py"],
    mech=[("pending list", "asyncz/schedulers/base.py:add_task,pending_tasks"), ("commit", "asyncz/schedulers/base.py:real_add_task")],
    tech="explicit-state exploration of a lifecycle model, every word replayed on the real scheduler",
    note="start delays with a lock file are part of C25",
)
P(
    id="C16",
    title="Concurrent runs respect the instance limit, each run ends with exactly one event",
    statement="However calls that run a task, the processing of due tasks and the workers of a thread pool interleave, a task never has more instances running than its limit, each submitted run is executed exactly once and ends with exactly one executed or error event, and refused runs are reported. When everything has ended no instance is counted anymore. A waiting shutdown returns only when nothing runs, a cancelling one drops only runs that have not begun, and nothing blocks forever.",
    over=["schedules", "configurations"],
    quant="all interleavings, up to a preemption bound, of 2-3 calling threads with 1-3 pool workers over 13 scenarios (several due times, failing runs, limits, deletion, limit changes, three kinds of shutdown)",
    why="the tests submit from one thread and wait; counters and hand-over go wrong only in particular interleavings",
    files=["asyncz/executors/pool.py", "asyncz/executors/base.py", "asyncz/schedulers/base.py"],
    mech=[("instance counting", "asyncz/executors/base.py:send_task,run_task_success,run_task_error"), ("pool", "asyncz/executors/pool.py:do_send_task"), ("waiting shutdown", "asyncz/schedulers/base.py:handle_shutdown")],
    tech="stateless exploration of the real code under a controlled thread scheduler with preemption bounding",
    note="about 90000 schedules quick; the pool itself is replaced by a stand-in of the same interface whose workers are controlled threads",
)
P(
    id="C20",
    title="The asyncio schedulers fire every run at its time without being woken",
    statement="An asyncio scheduler runs every task at its next run time (within the resolution of the timer, or the drift between loop and wall clock) whatever was added, replaced, changed, paused, resumed, rescheduled, deleted or run by hand before, from inside the loop or from elsewhere. Runs, events and remaining tasks are those of a scheduler that is asked to process at every due instant. It never runs anything early and never keeps the loop busy while nothing is due.",
    over=["histories", "schedules", "configurations"],
    quant="all sequences of operations up to a depth at placements between the due times, both asyncio schedulers, coroutine and thread tasks, clocks running at different rates, started paused or running",
    why="the tests wait for single short timers in real time; a forgotten wake-up or a stale timer only shows after particular sequences",
    files=["asyncz/schedulers/asyncio.py", "asyncz/schedulers/base.py", "asyncz/executors/asyncio.py"],
    mech=[("timer", "asyncz/schedulers/asyncio.py:start_timer,wakeup"), ("waiting time", "asyncz/schedulers/base.py:process_tasks"), ("wake-ups after changes", "asyncz/schedulers/base.py:real_add_task,update_task,resume")],
    tech="bounded-exhaustive exploration of operation sequences on asyncio's own event loop in virtual time; oracle: the same operations on a scheduler polled at every due instant",
    note="9072 histories quick, each 38 virtual seconds",
)
P(
    id="C26",
    title="Shutdown tasks run exactly once, at the shutdown, whatever the others do",
    statement="Every task with the shutdown trigger runs exactly once, when the last user shuts the scheduler down and never before, also when it was paused, changed or added before the start, and not when it was deleted. A failing shutdown task keeps no other from running, coroutines run to their end before their loop ends, and the scheduler can still be read by them. Afterwards they are gone from the store and do not run again after a restart.",
    over=["histories", "configurations"],
    quant="all multisets of kinds of shutdown tasks (plain, failing, ending by StopIteration or SystemExit, suspending coroutines) x schedulers x stores x histories",
    why="the tests run one or two shutdown tasks that succeed",
    files=["asyncz/schedulers/base.py", "asyncz/schedulers/asyncio.py", "asyncz/triggers/shutdown.py"],
    mech=[("running them", "asyncz/schedulers/base.py:shutdown,_shutdown_fn_helper,_ashutdown_fn_helper"), ("coroutines", "asyncz/schedulers/asyncio.py:handle_shutdown_coros,_shutdown")],
    tech="bounded-exhaustive enumeration of task sets and histories on the real schedulers, loops in virtual time",
    note="6370 histories quick",
)
P(
    id="C27",
    title="Failures of a store, trigger, executor or listener stay local and are retried",
    statement="When operations of a store fail, before or after their effect, processing goes on: tasks of other stores run exactly on time, tasks of the failing store run at the latest one retry interval after the last failure, none is lost, and one is repeated only if noting down its run failed. A task that cannot be stored, a failing trigger, executor or listener affects no other task, listener or call. A management call that reports an error has changed nothing, and the scheduler never spins or stops.",
    over=["fault_sequences", "histories"],
    quant="all single and pairs of failing store calls, outages of all, reading or writing operations, permanent failures for single tasks, with management calls in between, on several stores",
    why="the tests let one call fail once",
    files=["asyncz/schedulers/base.py", "asyncz/schedulers/asyncio.py", "asyncz/stores/base.py", "asyncz/executors/base.py"],
    mech=[("retry", "asyncz/schedulers/base.py:_process_tasks_of_store,process_tasks,_get_retry_wakeup_time"), ("listeners", "asyncz/schedulers/base.py:dispatch_event")],
    tech="exhaustive fault injection into the store operations of the real scheduler in virtual time",
    note="about 2400 fault sequences quick, each 45 virtual seconds",
)
P(
    id="C28",
    title="Listeners get exactly the events of what happened, once, in order, by mask",
    statement="Every change (start, shutdown, pause, resume, stores and executors, tasks added, changed, removed, submitted, run) is reported by exactly one event that names it, and a call that fails or changes nothing is not reported. A listener gets every event its mask selects, in the order of the others and only while it is registered, whatever other listeners do. A call that fails, adding a store or executor that does not start included, leaves everything as it was.",
    over=["histories", "configurations"],
    quant="all words of calls up to a depth from a fresh and a running scheduler, listeners for every single event, combinations, failing ones, ones added and removed on the way",
    why="the tests check one call and one mask at a time",
    files=["asyncz/schedulers/base.py", "asyncz/events/base.py", "asyncz/events/constants.py"],
    mech=[("dispatch", "asyncz/schedulers/base.py:dispatch_event,add_listener,remove_listener"), ("what is reported", "asyncz/schedulers/base.py:add_task,update_task,delete_task,add_store,add_executor,pause,resume")],
    tech="exhaustive exploration of call words on the real scheduler against a reference model of the events",
    note="about 44000 words quick",
)
P(
    id="C29",
    title="A run by hand submits, moves on and reports exactly like the processing",
    statement="Running a task by hand submits its due run times (only the newest when it coalesces), or one run for now if none is due and it is forced, through its executor within its instance limit, reports this as manual, and moves the task on to the next run after the last submitted one. A task without further runs is removed, or kept paused when asked for; a refused, unknown or impossible run changes nothing. Mixed with the processing, pausing and resuming in any order no run is lost or doubled.",
    over=["histories", "configurations"],
    quant="all words of calls up to a depth over 14 task sets (interval, date, cron, bounded, coalescing, limits, grace, failing, unknown executor, two stores), five stores",
    why="the tests run one task by hand once",
    files=["asyncz/schedulers/base.py", "asyncz/tasks/base.py", "asyncz/executors/base.py"],
    mech=[("manual run", "asyncz/schedulers/base.py:run_task,_run_task,_coalesce_run_times"), ("due run times", "asyncz/tasks/base.py:get_run_times")],
    tech="exhaustive exploration of call words on the real scheduler against a reference model",
    note="about 207000 words, 825000 steps quick",
)
P(
    id="C11",
    title="A crash or failing write leaves every stored task old or new, never torn or lost",
    statement="If the process dies at any point of an operation of a durable store, also in the middle of a write, the store opened afterwards holds exactly the content before or after the operation (a clear may be partly done), is consistent and fully usable. The same holds when a single system call fails, with the store object staying usable. After a crash while due tasks are processed, every due run is made before the crash or after the restart, at most once more, and the schedule goes on.",
    over=["crash_points", "fault_sequences", "histories"],
    quant="all file-changing system calls (sends for the server store) of every operation x torn writes x contents x plain/encrypted, second crashes in the following operation, crashes of a scheduler at every such call of its processing",
    why="the tests never crash; a torn file needs a stop between two particular calls",
    files=["asyncz/stores/file.py", "asyncz/stores/sqlalchemy.py", "asyncz/stores/redis.py", "asyncz/schedulers/base.py"],
    mech=[("atomic replacement", "asyncz/stores/file.py:write_task,read_task"), ("transactions", "asyncz/stores/sqlalchemy.py:update_task"), ("pipelines", "asyncz/stores/redis.py:add_task,update_task"), ("next run noted after sending", "asyncz/schedulers/base.py:_process_tasks_of_store")],
    tech="exhaustive enumeration of crash points, torn writes and failing calls of the real stores by a preloaded C library shim",
    note="about 17500 crash points quick; crash of the process, not of the machine; mongo needs a server and is left out",
)
P(
    id="C12",
    title="Several processes on one durable store: each operation is atomic",
    statement="When several processes use the same file or redis store at the same time, every add, update, delete, clear, lookup, listing and due query takes effect as a whole: results and final content are those of some order of the operations. In particular no update revives a deleted task or is lost halfway, an id is added once (the other add reports the conflict), and the lookup, the listing, the due query and the next run time agree afterwards.",
    over=["schedules", "histories"],
    quant="all pairs of 14 operations (and words of two, and triples), each by a store object of its own, all interleavings up to a preemption bound at line and at command granularity",
    why="the tests use one store object at a time; a lost or revived task needs another process between two steps of one operation",
    files=["asyncz/stores/file.py", "asyncz/stores/redis.py"],
    mech=[("atomic file replacement and lock", "asyncz/stores/file.py:add_task,update_task"), ("watched transactions", "asyncz/stores/redis.py:add_task,update_task,delete_task,get_due_tasks")],
    tech="stateless exploration of the real code under a controlled thread scheduler with preemption bounding; oracle: outcomes of all sequential orders",
    note="processes are threads with store objects, connections and open lock files of their own; about 60000 schedules quick; sqlite waits in real time and is left out",
)
P(
    id="C25",
    title="Several schedulers sharing a store with a lock make every run exactly once",
    statement="When several schedulers, as in several processes, share a durable store and a processing lock, every due run is submitted exactly once, by exactly one of them, and stored next run times never go back, whatever the others add, delete, clear, start or shut down meanwhile. A task deleted or cleared by one is not revived by another. Shutting one down, even while another one processes, neither stops the others' processing for good nor lets two process at once.",
    over=["schedules", "histories", "configurations"],
    quant="2 and 3 schedulers, 16 combinations of processing, starting with pending tasks, replacing, shutting down, deleting, clearing and adding, all interleavings up to a preemption bound; file, redis and SQL stores",
    why="the tests run one scheduler; running twice needs a second scheduler between the due query and the update",
    files=["asyncz/locks.py", "asyncz/file_locking.py", "asyncz/schedulers/base.py", "asyncz/stores/base.py", "asyncz/stores/file.py", "asyncz/stores/redis.py"],
    mech=[("processing lock", "asyncz/schedulers/base.py:process_tasks"), ("file lock", "asyncz/file_locking.py:lock,unlock"), ("lock per store", "asyncz/stores/base.py:create_lock"), ("lock file lifetime", "asyncz/locks.py:FileLockProtected.shutdown")],
    tech="stateless exploration of the real code under a controlled thread scheduler with preemption bounding",
    note="processes are threads with schedulers, stores, connections and open lock files of their own; about 35000 schedules quick",
)
P(
    id="C38",
    title="The scheduler runs exactly while a block or wrapped application is open",
    statement="A scheduler runs exactly while at least one with block, async with block, wrapped ASGI application's lifespan or start of it is open, however they nest, overlap, repeat and end; what a block raises passes unchanged. An application wrapped by asgi() gets every scope and message as the server sent them and answers as if it were not wrapped; lifespan ones are answered for it exactly when asked to. A start or shutdown which fails is told to the server as failed.",
    over=["histories", "inputs", "configurations"],
    quant="all ways to open and close up to 3 of 7 kinds of scopes in any overlapping order, ended normally or by an exception, on two schedulers; 12 kinds of applications in 3 wrappings x lifespans of 1 to 3 rounds x failing starts and shutdowns",
    why="the tests open one block or one lifespan; that nothing stops or keeps running too long is about overlapping ones",
    files=["asyncz/schedulers/base.py", "asyncz/schedulers/types.py", "asyncz/schedulers/asyncio.py"],
    mech=[("blocks", "asyncz/schedulers/types.py:__enter__,__exit__,__aenter__,__aexit__"), ("references", "asyncz/schedulers/base.py:inc_refcount,decr_refcount"), ("wrapping", "asyncz/schedulers/base.py:asgi")],
    tech="explicit-state enumeration of all words of scopes and lifespans, replayed on the real scheduler and compared with a reference counter model",
    note="the lifespan protocol is the monkay package's; an application failing its own startup is left to it",
)
P(
    id="C39",
    title="A scheduler is configured as written, and refuses what is no configuration",
    statement="The same configuration gives the same scheduler however it is spelled: dotted keys, nested mappings, objects, arguments or a later setup, and a later setup replaces the earlier one. Every task default given applies to every task which does not say otherwise. What is invalid is refused, and never half applied. Whatever shape is used to describe the configuration, be it a mapping, a dataclass, attrs, msgspec or pydantic model, its values arrive unchanged, and records written by one shape are restored by the others.",
    over=["configurations", "inputs", "histories"],
    quant="all combinations of up to 3 of the options in all spellings, all pairs of setups, all invalid values at each place, all pairs of shapes for models and records",
    why="the tests give one configuration in one spelling; equality of all spellings and shapes is about their product",
    files=["asyncz/schedulers/base.py", "asyncz/schedulers/datastructures.py", "asyncz/shapes/base.py", "asyncz/shapes/builtins.py", "asyncz/shapes/registry.py", "asyncz/stores/persistence.py"],
    mech=[("configuration", "asyncz/schedulers/base.py:setup,_setup"), ("shapes", "asyncz/shapes")],
    tech="explicit-state enumeration of all bounded configurations, each given to the real scheduler in every spelling and compared with each other",
    note="dotted and whole keys for the same part at once are undefined and left out; optional packages (attrs, msgspec) as installed",
)
P(
    id="C41",
    title="Decorators, task objects and life cycles are submitted as declared, once",
    statement="Every use of a definition made by add_task without a function adds exactly one own task with the declared options, the one a direct call adds, leaves the function as it is and lists it there. A task object is submitted once, with its own values and those given with it. The documented generator tasks are set up once, stepped once per run and cleaned up exactly once at the shutdown, however the scheduler is started, paused and stopped in between.",
    over=["histories", "inputs", "configurations"],
    quant="definitions with up to 2 of 22 options x 4 triggers x 3 states x 3 stores, used once, twice and on two functions; task objects with options x 14 overrides; all words of 4 of 11 steps; life cycle generators of 4 kinds under all words of 5 of 7 steps",
    why="the tests decorate one function once; that copies never affect each other is about repeated uses at any time",
    files=["asyncz/tasks/base.py", "asyncz/schedulers/base.py", "asyncz/utils.py"],
    mech=[("decorator", "asyncz/tasks/base.py:__call__"), ("submission", "asyncz/schedulers/base.py:add_task"), ("generators", "asyncz/utils.py:make_function,make_async_function"), ("shutdown tasks", "asyncz/schedulers/base.py:_shutdown_fn_helper")],
    tech="explicit-state enumeration of all bounded definitions and words of uses, compared with a twin scheduler called directly and a life cycle model",
    note="a definition with next_run_time=None is left out: the decorator is documented to simply start its tasks",
)
P(
    id="C42",
    title="Settings are read, exported and used as declared, wherever they are declared",
    statement="Every setting annotated anywhere in the class hierarchy of the settings has the value of its environment variable cast to its type, else the one given to the constructor, else that of the most derived class; what cannot be cast is refused. dict() and tuple() export exactly the declared settings, less what is excluded. asyncz.settings is always the settings object in force, the one of ASYNCZ_SETTINGS_MODULE at first, and a module which cannot be loaded is never passed over. A dashboard uses the secret and the configuration of its settings: sessions are valid exactly where the secret is the same.",
    over=["configurations", "inputs", "histories"],
    quant="12 types x 3 spellings x 9 places in a class hierarchy x 3 defaults x 14 environment values x 3 arguments; exports of 9 hierarchies under all flags; all words of up to 5 of 9 operations on the global object; 8 settings modules x 4 environments in own processes; dashboards with up to 2 of 11 options",
    why="the tests never subclass the settings or set their environment; correctness is about the product of type, place and source",
    files=["asyncz/conf/global_settings.py", "asyncz/conf/__init__.py", "asyncz/monkay.py", "asyncz/contrib/dashboard/config.py"],
    mech=[("hints", "asyncz/conf/global_settings.py:safe_get_type_hints"), ("values", "asyncz/conf/global_settings.py:BaseSettings.__init__,_cast"), ("forward", "asyncz/conf/__init__.py:SettingsForward")],
    tech="explicit-state enumeration of all bounded class hierarchies, environments and words of operations, executed on the real settings and compared with a reference reading",
    note="what a generic alias makes of a text is left out; the order environment, argument, class is the code's documented one",
)
P(
    id="C43",
    title="Every dashboard page shows exactly what scheduler and storages hold",
    statement="Every page of the dashboard and every partial table shows, for every filter, limit and page number, exactly the tasks, upcoming runs, run history, events, audit and log records that the scheduler and the storages report, in their order, each with its own values, and its counts and filter forms agree with them. Paging reaches every task once, an action keeps page and filters, and every link leads where it says.",
    over=["inputs", "histories", "configurations"],
    quant="3 scheduler states x 6 task sets x 4 histories on all pages; all filters of the record pages, two off at a time; 12 list sizes around the page size, each page by every way to it; all links at 5 mounts",
    why="the tests look for single words on a page of one or two tasks; rows, orders, boundaries and combinations of filters decide",
    files=["asyncz/contrib/dashboard/controllers/_helpers.py", "asyncz/contrib/dashboard/controllers/home.py", "asyncz/contrib/dashboard/controllers/runtime.py", "asyncz/contrib/dashboard/controllers/instances.py", "asyncz/contrib/dashboard/controllers/timeline.py", "asyncz/contrib/dashboard/controllers/history.py", "asyncz/contrib/dashboard/controllers/events.py", "asyncz/contrib/dashboard/controllers/audit.py", "asyncz/contrib/dashboard/controllers/logs.py"],
    mech=[("tasks", "asyncz/contrib/dashboard/controllers/_helpers.py"), ("records", "asyncz/contrib/dashboard/controllers/history.py"), ("templates", "asyncz/contrib/dashboard/templates/tasks/_table.html")],
    tech="explicit enumeration of scheduler states, histories, filters and pages on the real ASGI app, every cell compared with the scheduler's and storages' own reports",
    note="the wording around the values is not judged; scripts are not run",
)
P(
    id="C40",
    title="Processing locks: never two holders, always released",
    statement="A processing lock, be it the thread, reentrant or lock file one, never has two holders at a time, in one process or several, and a nonblocking use is refused only while somebody holds it. It is released however the protected block ends, including by an exception and after nested use. Shutting it down by one user never lets a second holder in and leaves it usable.",
    over=["schedules", "histories", "configurations"],
    quant="all pairs of 11 programs (and triples of 6) that wait, try, fail inside, nest and shut down, three kinds of locks, shared object or one per thread, all interleavings up to a preemption bound",
    why="the tests use a lock from one thread; exclusion and release are about other users at the same time",
    files=["asyncz/locks.py", "asyncz/file_locking.py"],
    mech=[("protected context", "asyncz/locks.py:LockProtected.protected"), ("lock file", "asyncz/locks.py:FileLockProtected.protected,shutdown")],
    tech="stateless exploration of the real code under a controlled thread scheduler with preemption bounding",
    note="the flock call is modelled on open files and exercised on real ones in C25's processes stand-in",
)
P(
    id="C13",
    title="Encrypted stores: nothing readable at rest, nothing tampered is ever restored",
    statement="With an encryption key nothing of a task but its id and next run time is readable in a durable store, and writing a task again never yields equal bytes. A record that was changed, or was made with another key or without one, is never unpickled or restored, does not affect the other tasks, and without the key no task of an encrypted store can be read. Tasks written with a key are restored with it exactly.",
    over=["inputs", "histories"],
    quant="every changed bit, truncation, addition and recombination of records, all pairs of 25 keys, in four stores, and all words of operations for what stays readable",
    why="the tests store and reload untouched records; authenticity is about every possible change of the bytes",
    files=["asyncz/stores/base.py", "asyncz/stores/file.py", "asyncz/stores/sqlalchemy.py", "asyncz/stores/redis.py", "asyncz/stores/mongo.py"],
    mech=[("encryption", "asyncz/stores/base.py:conditional_encrypt,conditional_decrypt"), ("key", "asyncz/stores/base.py:start")],
    tech="explicit enumeration of all bounded changes of stored records, replayed on the real stores",
    note="cryptographic strength itself is taken for granted",
)
P(
    id="C14",
    title="Task ids never lead the file store out of its directory or mix up two tasks",
    statement="Whatever task ids are used, the file store creates, reads, changes and removes only files directly within its directory, and leaves files which are not tasks alone. Every id is either refused with an error or names a task of its own: adding, looking up, listing, updating and deleting it never touches or returns another task.",
    over=["inputs", "histories"],
    quant="all ids of up to 3 of 19 characters and 60 special ones, through every operation of the store and the scheduler, 4 suffixes",
    why="path containment has to hold for every id; the tests try a handful",
    files=["asyncz/stores/file.py"],
    mech=[("id check", "asyncz/stores/file.py:check_task_id"), ("paths", "asyncz/stores/file.py:add_task,update_task,delete_task,lookup_task,delete_all")],
    tech="explicit enumeration of all bounded ids on the real store, against a map model, with every file access observed and contained",
    note="accesses outside the scratch folder are refused by the harness itself",
)
P(
    id="C15",
    title="A record that cannot be restored only concerns its own task; old records restore",
    statement="A stored record which can't be restored (damaged, of an unknown version, entity or shape, its callable gone) is never returned as a task and never disturbs the others: listings, lookups, due queries, processing and management of all other tasks work as if it weren't there, and its id can be used again. Records written by older versions of asyncz restore to tasks and triggers which behave exactly like current ones.",
    over=["inputs", "histories", "fault positions"],
    quant="27 kinds of broken records at every place and pair of places among three tasks, in four stores, plain and encrypted, with all words of operations; legacy records of 8 kinds in 4 pickle protocols",
    why="the tests break one record at a time and call one method; the guarantee is about every kind, place and later operation",
    files=["asyncz/stores/file.py", "asyncz/stores/sqlalchemy.py", "asyncz/stores/redis.py", "asyncz/stores/mongo.py", "asyncz/stores/base.py", "asyncz/tasks/base.py", "asyncz/serialization.py"],
    mech=[("restoring", "asyncz/stores/file.py:read_task,get_due_tasks"), ("decoding", "asyncz/stores/base.py:conditional_decrypt"), ("task state", "asyncz/tasks/base.py:__setstate__")],
    tech="explicit enumeration of all placements of broken records and words of operations on the real stores against the same stores without them",
    note="about 90000 records quick; old formats are those of the released entities the code still knows",
)
P(
    id="C17",
    title="Each run is made or missed, and reported, the same way by every executor",
    statement="A run later than its grace time is reported missed and not executed; every other run calls the function exactly once with the task's arguments and is reported executed with its return value or as error with its exception. The runs of one submission are made and reported in order, and a failing one doesn't affect the others. Inline, event loop, thread and process pool executors agree on all this, and whatever ends a run the task can be run again.",
    over=["inputs", "histories", "configurations"],
    quant="all submissions of up to 3 run times around the grace time, all plans of returning, failing and slow calls, four executors; and runs ended by interpreter exits, cancellation and dying workers in all words of two",
    why="the tests make one run per executor; boundaries and combinations differ between executors unnoticed",
    files=["asyncz/executors/base.py", "asyncz/executors/asyncio.py", "asyncz/executors/pool.py", "asyncz/executors/debug.py", "asyncz/executors/process_pool.py"],
    mech=[("runs", "asyncz/executors/base.py:run_task,run_coroutine_task"), ("hand-over", "asyncz/executors/base.py:send_task,run_task_success,run_task_error")],
    tech="explicit enumeration of a model of runs, every trace replayed on every real executor",
    note="coroutine functions are given to the event loop executor only; a worker process which dies is covered for its effect on later runs",
)
P(
    id="C30",
    title="Queries, previews and scheduler information are exact and change nothing",
    statement="An inspection query returns exactly the tasks which match all its conditions, in the asked order, and describes each as it is. A preview of a task's coming runs shows exactly the runs which then take place. Scheduler information agrees with the scheduler's state and its tasks in every state, and none of these calls changes anything.",
    over=["inputs", "histories", "configurations"],
    quant="all combinations of up to 3 conditions and 16 orders over 11 tasks; previews of 17 triggers in 5 states and 5 stores against the real runs; all words of 4 of 14 scheduler calls",
    why="the tests query a few tasks by single conditions; previews were never compared with the runs",
    files=["asyncz/schedulers/base.py", "asyncz/schedulers/inspection.py", "asyncz/tasks/inspection.py"],
    mech=[("queries", "asyncz/schedulers/base.py:get_task_infos"), ("previews", "asyncz/schedulers/base.py:preview_task_runs"), ("scheduler information", "asyncz/schedulers/base.py:get_scheduler_info")],
    tech="explicit enumeration of queries, previews and call words on the real scheduler against a reference evaluation",
    note="order among tasks with equal sort keys is left open",
)
P(
    id="C31",
    title="The run history has one record per run, and no outcome is ever lost",
    statement="The run history of the dashboard holds exactly one record per run of a task (submitted, executed, failed, missed or refused), with the outcome, times and source the scheduler reported, whatever order and thread the events arrive in, and a finished run never turns back into a running one. Queries return exactly the matching records newest first, within the configured number, and summaries agree with them.",
    over=["histories", "schedules", "inputs"],
    quant="all words of 3 of 27 run events, deletions and clearings on storages of 1, 2 and many records; all words of 4 steps of a real scheduler; all schedules of 11 groups of concurrent events and readers up to 4 preemptions; 5000 queries",
    why="the tests feed one run's events in order from one thread; events arrive from executors' threads in any order",
    files=["asyncz/contrib/dashboard/history.py", "asyncz/contrib/dashboard/controllers/history.py"],
    mech=[("records", "asyncz/contrib/dashboard/history.py:MemoryRunHistoryStorage"), ("listener", "asyncz/contrib/dashboard/history.py:install_run_history_listener")],
    tech="explicit enumeration of event words against a reference history, and stateless exploration of all thread schedules up to a preemption bound on the real storage",
    note="the state is read through queries; entries of other runs of the same task within 5 s may appear among a run's logs",
)
P(
    id="C32",
    title="Logs, audit trail and scheduler events are kept once, newest first, bounded",
    statement="Every record of a task logger, every audited action and every scheduler event is kept exactly once with its own task, texts and time, newest first, the oldest going first once the limit is reached. Queries return exactly what matches all filters. Using task loggers changes neither the caller's data nor other loggers' records, and appending, asking and clearing from any threads neither fails nor loses or doubles an entry.",
    over=["histories", "schedules", "inputs"],
    quant="all words of 3 of 12 entries on three storages of 3 sizes x 1000-2000 filters; all words of 3 of 14 uses of loggers and 4 of 14 scheduler actions; all schedules of 2-3 threads up to 3 preemptions",
    why="the tests append a few entries and use one filter each, from one thread and one logger",
    files=["asyncz/contrib/dashboard/logs/storage.py", "asyncz/contrib/dashboard/logs/handler.py", "asyncz/contrib/dashboard/audit.py", "asyncz/contrib/dashboard/events.py"],
    mech=[("logs", "asyncz/contrib/dashboard/logs/storage.py:MemoryLogStorage"), ("task loggers", "asyncz/contrib/dashboard/logs/handler.py"), ("audit", "asyncz/contrib/dashboard/audit.py"), ("events", "asyncz/contrib/dashboard/events.py")],
    tech="explicit enumeration of words against reference storages, and stateless exploration of all thread schedules up to a preemption bound",
    note="a limit below one is left out",
)
P(
    id="C34",
    title="A remote scheduler behaves like the scheduler itself, for token holders only",
    statement="Every call of the remote client has the effect and the answer of the same call on the worker's scheduler, and fails as it would fail there, for every option and value JSON can carry. A task with values JSON can't carry never disturbs listing or managing the tasks. Requests without the configured token neither learn nor change anything.",
    over=["inputs", "histories", "configurations"],
    quant="all additions and updates with up to 2 of 38 options, all queries of 3 conditions, all words of 3 of 26 calls, ids, 16 kinds of arguments; 30 requests x 14 wrong tokens x 3 configurations",
    why="the tests make one call per method with ordinary values; options, errors and their combinations cross the wire differently",
    files=["asyncz/contrib/dashboard/remote.py", "asyncz/schedulers/base.py"],
    mech=[("worker", "asyncz/contrib/dashboard/remote.py:create_remote_scheduler_app"), ("client", "asyncz/contrib/dashboard/remote.py:RemoteSchedulerClient")],
    tech="explicit enumeration of calls and call words through the real client and worker against a directly called twin scheduler",
    note="HTTP is replaced by handing the request to the ASGI app; ids with a slash have no address and are refused",
)
P(
    id="C35",
    title="Without login the dashboard shows and changes nothing; logins stay on the site",
    statement="With the login enabled, no request without a valid session learns anything of the dashboard or changes anything, whatever its method, spelling of the path, headers or way of mounting; sessions are separate and end with logout or age. A login leads back to the page asked for and never to another site. Proxy headers count only from trusted proxies, and every response carries the security headers.",
    over=["inputs", "histories", "configurations"],
    quant="all routes x 6 methods x 14 spellings x 8 headers x 6 mounts; all words of 4 of 11 steps of two browsers; 80 addresses and 700 forged ones; 14 proxies x 9 trust lists x 11 prefixes x 4 roots; 7 backends",
    why="the tests request single pages with and without a session; a gap is one spelling, mount or header away",
    files=["asyncz/contrib/dashboard/admin/core.py", "asyncz/contrib/dashboard/admin/middleware/auth_gate.py", "asyncz/contrib/dashboard/admin/middleware/forward_root_path.py", "asyncz/contrib/dashboard/admin/middleware/security_headers.py", "asyncz/contrib/dashboard/admin/backends.py", "asyncz/contrib/dashboard/config.py"],
    mech=[("gate", "asyncz/contrib/dashboard/admin/middleware/auth_gate.py"), ("login", "asyncz/contrib/dashboard/admin/backends.py"), ("proxies", "asyncz/contrib/dashboard/admin/middleware/forward_root_path.py"), ("mounting", "asyncz/contrib/dashboard/admin/core.py")],
    tech="explicit enumeration of requests and session words on the real ASGI app against a reference of who may see what",
    note="session signatures (itsdangerous) are taken as they are; websocket scopes have no routes and are left out",
)
P(
    id="C36",
    title="Dashboard buttons act on their own task like the scheduler; pages are exact",
    statement="Every button and form of the dashboard has exactly the effect of the scheduler call it stands for, on exactly the task it stands beside, and is audited once with its outcome; what the scheduler refuses is told and changes nothing. Every page answers for all tasks and whatever other threads do meanwhile, lists exactly what the scheduler holds, and no text in the data becomes markup. An edit form changes only what was edited, and a preview nothing.",
    over=["inputs", "histories", "schedules", "configurations"],
    quant="all words of 3 of 22 buttons in 3 scheduler states; every control for 44 ids, 5 mounts and filters; all create and edit forms with two fields off; 8 hostile texts in 32 places of every page; all filters and page sizes; another thread's change before each single call a page makes",
    why="the tests press each button once on a plain task; ids, values, failures and concurrent changes decide",
    files=["asyncz/contrib/dashboard/controllers/tasks.py", "asyncz/contrib/dashboard/controllers/_helpers.py", "asyncz/contrib/dashboard/controllers/timeline.py", "asyncz/contrib/dashboard/controllers/home.py", "asyncz/contrib/dashboard/controllers/runtime.py", "asyncz/contrib/dashboard/templates/tasks/_table.html", "asyncz/contrib/dashboard/templates/tasks/edit.html", "asyncz/contrib/dashboard/application.py"],
    mech=[("actions", "asyncz/contrib/dashboard/controllers/tasks.py"), ("table and messages", "asyncz/contrib/dashboard/controllers/_helpers.py"), ("links", "asyncz/contrib/dashboard/templates/tasks/_table.html")],
    tech="explicit enumeration of button words, forms, controls and interference points on the real ASGI app against a directly called twin scheduler",
    note="scripts are not run; links are resolved as browsers do; ids no address can hold are not pressed on",
)
P(
    id="C37",
    title="The asyncz command does exactly what the scheduler call of its name does",
    statement="Every management command changes the stored tasks exactly as the scheduler call it stands for, runs only the run it was asked for and to its end, and looking at tasks changes nothing. Its exit code is 0 exactly when it succeeded, and its output, as text or JSON, shows exactly what the scheduler reports, with ids and names as they are. Stores, executors, jobs of modules and files, hooks and bootstraps are used as named, and an interrupted start still runs its stop hook and shuts down.",
    over=["inputs", "histories", "configurations"],
    quant="every store content reachable within 3 commands of 4 tasks x 40 commands at several times; additions and updates with up to 2 of 25 options x ways to confirm; lists with up to 3 of 22 filters; all views; 45 store and 70 executor specs; 48 starts with and without Ctrl+C; 26 odd ids",
    why="the tests mock the scheduler or call a command once in an in-memory store; due tasks, coroutines, failures and odd values decide",
    files=["asyncz/cli/app.py", "asyncz/cli/utils.py", "asyncz/cli/loader.py", "asyncz/cli/types.py", "asyncz/cli/_parsers.py", "asyncz/cli/bootstrap_loader.py", "asyncz/cli/commands/add.py", "asyncz/cli/commands/run.py", "asyncz/cli/commands/update.py", "asyncz/cli/commands/list.py", "asyncz/cli/commands/start.py", "asyncz/cli/commands/timeline.py"],
    mech=[("commands", "asyncz/cli/commands"), ("temporary scheduler and runs", "asyncz/cli/utils.py"), ("jobs of files", "asyncz/cli/loader.py")],
    tech="explicit-state exploration of store contents under all commands, and enumeration of option combinations, each executed by the real command and compared with a direct scheduler call on a copy of the store",
    note="the command runs in-process as the console script calls it; argument parsing itself (click, sayer) is taken as it is; --watch is left out",
)
