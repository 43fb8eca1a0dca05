"""Writes properties.jsonl (kept as a script so the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": " ".join(qtext.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = state
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

S = "src/docket/"
p("C01", "At most one live schedule per task key",
  """Adding a task under a key that is already scheduled, queued or running changes nothing: the earlier definition runs exactly
  once with its own arguments and time, and the rejected one never runs and is reported as already scheduled. Once the earlier
  task has finished or been cancelled, adding under the same key takes effect again and that task runs at its own time,
  however long ago or recently the earlier one ended.""",
  ["histories", "schedules", "inputs"],
  "every pair of add calls for one key, every relation between their due times, the time of the second call, the task's duration and the worker's polling, and every configured retention period",
  "the tests place the second add at a handful of fixed moments; the guarantee is over every moment of the first task's life and every retention setting",
  [S+"execution.py", S+"docket.py", S+"worker.py"],
  [("schedule script: known/state check", S+"execution.py:_schedule"), ("claim clears known", S+"execution.py:_claim"), ("terminal TTL", S+"execution.py:_terminal"), ("promotion", S+"worker.py:_stream_due_tasks")],
  ["task bodies started", "Docket.add disposition"])
p("C02", "No accepted task is lost when a worker dies at any point",
  """Once scheduling has returned successfully, the task's body runs to completion at least once as long as some worker eventually
  stays alive, even if another worker process dies between any two of its Redis operations, whether the task is immediate, future,
  being retried, or perpetual. A task whose body already completed and was recorded as finished is not run again.""",
  ["crash_points", "schedules", "histories"],
  "every point between two Redis operations of the first worker, for immediate, delayed, retried and perpetual tasks, and every delay before the second worker starts",
  "tests kill workers at one or two chosen points; the guarantee is over every point between two round trips to Redis",
  [S+"worker.py", S+"execution.py", S+"dependencies/_retry.py", S+"dependencies/_perpetual.py"],
  [("redelivery by XAUTOCLAIM", S+"worker.py:_worker_loop"), ("atomic ack+terminal", S+"execution.py:_terminal"), ("atomic ack+reschedule", S+"execution.py:_schedule"), ("atomic promotion", S+"worker.py:_stream_due_tasks")],
  ["task bodies completed after the crash"])
p("C03", "Superseded work never starts nor overwrites its successor",
  """When a task is replaced, the older definition never starts afterwards, including when its message is redelivered after a worker
  died, and an older run still in progress cannot overwrite the newer one's recorded state, progress, result or schedule when it
  finishes, fails, retries or is cancelled.""",
  ["histories", "schedules", "crash_points"],
  "every moment of replacement relative to delivery, start, end and redelivery of the older run, and every outcome of the older run",
  "tests replace at fixed moments with one outcome; the guarantee ranges over every interleaving of the older run's life with the newer one",
  [S+"execution.py", S+"worker.py", S+"dependencies/_retry.py", S+"dependencies/_perpetual.py"],
  [("generation check on claim", S+"execution.py:_claim"), ("generation check on completion", S+"execution.py:_terminal"), ("generation bump", S+"execution.py:_schedule")],
  ["task bodies started", "recorded state/result/progress of the key"])
p("C04", "Replacing a task leaves exactly the newest definition to run",
  """Replacing a pending task discards the previous definition: only the arguments, function and time of the last replacement run,
  exactly once, never before the new time, wherever the previous definition was waiting (scheduled or queued) and in whatever order the
  old and new times fall. Replacing an absent or finished key simply schedules it.""",
  ["histories", "inputs", "schedules"],
  "every sequence of up to three add/replace calls for a key with arbitrary old and new due times, at arbitrary moments",
  "tests cover one replacement with fixed offsets; the order of old time, new time, replacement moment and promotion is unbounded",
  [S+"execution.py", S+"docket.py", S+"worker.py"],
  [("replace branch removes queue, stream and parked data", S+"execution.py:_schedule"), ("promotion", S+"worker.py:_stream_due_tasks")],
  ["task bodies started with which arguments and when"])
p("C05", "A cancelled pending task never runs",
  """If cancellation returns before a task has started, the task never starts, whether it was waiting for its time, promoted or queued,
  and the key can be scheduled again. Cancelling a running task interrupts it and records it as cancelled; other keys are never
  affected by a cancellation.""",
  ["histories", "schedules", "inputs"],
  "every moment of the cancellation relative to due time, promotion, delivery, start and end of the task, with other keys present, for any key text",
  "tests cancel before the due time or right after an immediate add; the moments between promotion and start are not sampled",
  [S+"docket.py", S+"worker.py", S+"execution.py"],
  [("cancel script", S+"docket.py:_cancel_task"), ("stream id bookkeeping on promotion", S+"worker.py:_stream_due_tasks"), ("cancellation listener", S+"worker.py:_cancellation_listener")],
  ["task bodies started after cancel returned", "recorded state"])
p("C06", "Scheduled tasks start on time, never early, exactly once",
  """A task scheduled for a future time starts exactly once, never before that time, and within one scheduling interval plus one polling
  interval after it when a worker is idle; a task scheduled for the past or present starts immediately. This holds for any number of tasks
  due at the same or different times, whichever workers poll at that moment.""",
  ["inputs", "schedules"],
  "every combination of up to three due times (equal, ordered, past, microseconds apart), polling intervals and numbers of workers",
  "tests use a few offsets and real sleeps with slack; boundary instants and simultaneous promotion by several workers are not reachable",
  [S+"worker.py", S+"execution.py", S+"docket.py"],
  [("due-task promotion script", S+"worker.py:_stream_due_tasks"), ("scheduler loop", S+"worker.py:_scheduler_loop"), ("immediate test", S+"execution.py:schedule")],
  ["start time of each task body"])
p("C07", "A task runs with exactly the definition that was submitted",
  """The function, key, arguments, keyword arguments, due time and attempt number a worker or a lookup sees equal what was submitted, through every storage hop
  (queued, scheduled then promoted, parked, rescheduled, looked up), for any serialisable arguments and any key text. Tasks stored without the
  fields older versions did not write still run, and one that cannot be read fails alone, without stopping the worker.""",
  ["inputs", "histories"],
  "any argument values and key text, through each storage path a definition can take",
  "tests round-trip a few sample values on one path each",
  [S+"execution.py", S+"docket.py", S+"worker.py", S+"_lua.py"],
  [("message encoding", S+"execution.py:as_message/from_message"), ("promotion copies fields", S+"worker.py:_stream_due_tasks"), ("lookup from runs record", S+"docket.py:get_execution")],
  ["arguments seen by the task body", "Docket.get_execution"])
p("C08", "Retries run the declared number of attempts at the declared delays",
  """A failing task with a retry policy is attempted at most the declared number of times, each attempt numbered one higher than the last with the
  same arguments, no attempt starting before its delay has passed, and stops at the first success; when attempts run out it is recorded as failed. Exponential
  delays double from the minimum and never exceed the maximum, for any attempt number, including unlimited attempts.""",
  ["inputs", "histories"],
  "every attempt limit, delay, minimum/maximum delay and number of leading failures, and every attempt number up to the thousands for the delay formula",
  "tests sample a few limits and small attempt numbers",
  [S+"dependencies/_retry.py", S+"worker.py", S+"execution.py"],
  [("failure handling", S+"dependencies/_retry.py:Retry.handle_failure"), ("exponential delay", S+"dependencies/_retry.py:ExponentialRetry"), ("reschedule branch", S+"execution.py:_schedule")],
  ["attempt numbers and start times seen by the body", "final state"])
p("C09", "A perpetual task always has exactly one next run",
  """A perpetual task reschedules itself after every run, successful or failed, at the declared interval from when the run began (at once if the run took longer), with
  the arguments it was given or asked for, until it cancels itself; there is never more than one upcoming run, and a perpetual that was explicitly replaced or cancelled
  while running does not overwrite that decision. Automatic perpetuals are started by workers and restarted if their chain is ever lost, without disturbing a healthy one.""",
  ["histories", "inputs", "schedules"],
  "every interval, run duration, outcome, and moment of an external replace or cancel relative to the run; any number of workers starting together",
  "tests run a few iterations with fixed intervals",
  [S+"dependencies/_perpetual.py", S+"worker.py", S+"execution.py"],
  [("completion handling", S+"dependencies/_perpetual.py:on_complete"), ("automatic scheduling and reseeding", S+"worker.py:_schedule_all_automatic_perpetual_tasks")],
  ["start times of the perpetual body", "number of scheduled runs"])
p("C10", "Concurrency limits are never exceeded",
  """At no instant do more task bodies run under one concurrency limit (function, or function and argument value, or scope) than its maximum, on any number of
  workers, through completions, failures, retries, cancellations and redelivery, as long as live workers keep renewing their leases; tasks with different argument values do not
  count against each other.""",
  ["schedules", "inputs", "histories", "crash_points"],
  "every arrival and duration pattern of up to four tasks on up to two workers, every limit up to three, every outcome, and worker death at any point",
  "tests overlap a few tasks with real sleeps on one or two workers",
  [S+"dependencies/_concurrency.py", S+"worker.py"],
  [("slot acquisition script", S+"dependencies/_concurrency.py:_acquire_or_park"), ("release", S+"dependencies/_concurrency.py:_release_and_wake"), ("slot lease renewal", S+"dependencies/_concurrency.py"), ("stale slot scavenging", S+"dependencies/_concurrency.py:_scavenge_and_wake")],
  ["simultaneously running task bodies"])
p("C11", "Every task waiting for a concurrency slot eventually runs, once",
  """A task held back by a concurrency limit runs exactly once with its own arguments after slots free up, woken in arrival order (a newcomer arriving just then may still go first), and
  without waiting for unrelated events, even if the slot holder fails, is cancelled or its worker dies, and even if other waiters were cancelled or replaced.
  While waiting it can be cancelled (and then never runs) or replaced (and then only the replacement runs), and a second add under its key is rejected.""",
  ["schedules", "histories", "crash_points"],
  "every arrival, duration and outcome pattern of up to four tasks, cancellation or replacement of a waiter at any moment, and holder death at any point",
  "tests exercise one waiter and one wake-up path at a time",
  [S+"dependencies/_concurrency.py", S+"docket.py", S+"execution.py"],
  [("park and wake scripts", S+"dependencies/_concurrency.py:_acquire_or_park/_release_and_wake"), ("cancel cleanup", S+"dependencies/_concurrency.py:_cancel_cleanup"), ("safeguard task", S+"dependencies/_concurrency.py")],
  ["task bodies run", "bounded wait after a slot frees"])
p("C12", "Rate limits are never exceeded and delay or drop only when full",
  """In any window of the declared length, no more executions than the declared limit start under a rate limit, over all workers and for
  each argument value separately; an execution that would exceed it is postponed (then runs once a place frees up) or dropped as configured, and one that fits is never postponed or dropped.""",
  ["inputs", "schedules", "histories"],
  "every limit up to three, window, arrival times of up to four tasks (including equal instants and window boundaries) and both configurations",
  "tests use two or three arrivals far from the window boundary",
  [S+"dependencies/_ratelimit.py", S+"worker.py"],
  [("sliding-window script", S+"dependencies/_ratelimit.py"), ("reschedule/drop", S+"worker.py:process_completed_tasks")],
  ["start times of task bodies", "final states"])
p("C13", "Debounce runs exactly once after submissions go quiet",
  """With debounce, each burst of submissions (consecutive gaps shorter than the settle time) leads to exactly one execution, which starts no earlier than
  the settle time after the burst's last submission reached a worker and promptly after that; separate argument values and scopes settle independently.""",
  ["inputs", "schedules", "histories"],
  "every settle time and every pattern of up to three submission times, including gaps at the boundary",
  "tests sample one burst with real sleeps",
  [S+"dependencies/_debounce.py"],
  [("debounce script", S+"dependencies/_debounce.py")],
  ["start times of task bodies"])
p("C14", "Cooldown runs the first task of each window and drops the rest",
  """With cooldown, a task that arrives when no execution started within the cooldown window runs immediately, and any that arrives within the window after a started one is
  dropped and never runs; the window opens at the accepted execution, is not extended by dropped ones, and is separate for each argument value and scope.""",
  ["inputs", "schedules", "histories"],
  "every window and every pattern of up to three arrival times, including arrivals exactly at the boundary",
  "tests sample two arrivals with real sleeps",
  [S+"dependencies/_cooldown.py"],
  [("SET NX PX", S+"dependencies/_cooldown.py")],
  ["task bodies run", "final states"])
p("C15", "Strikes block exactly the matching tasks until restored",
  """A task is blocked, both when submitted and when about to start, exactly when some strike in force matches it: its function, or a parameter condition, alone or combined;
  every strike stays in force until that same strike is restored, whatever other strikes and restores happen in between, and every worker and client converges to the
  same set whatever the order in which they connect. Blocked tasks never run and comparisons that make no sense for a value never block or crash.""",
  ["histories", "inputs", "configurations"],
  "every sequence of up to four strike and restore instructions over functions, parameters, operators and values, and every task argument value",
  "tests check single strikes and one restore each",
  [S+"strikelist.py", S+"docket.py", S+"worker.py"],
  [("instruction application", S+"strikelist.py:update/_strike/_restore"), ("matching", S+"strikelist.py:is_stricken/_is_match"), ("stream monitor", S+"strikelist.py:_monitor_strikes")],
  ["disposition of submissions", "task bodies run"])
p("C16", "A worker respects its concurrency and drains what it started",
  """A worker never runs more task bodies at once than its concurrency setting and, with free slots and due work, does not leave tasks waiting beyond a polling interval; running until finished returns only when
  nothing is queued, scheduled or running, having run everything; bounded runs execute each named key at most the given number of times.""",
  ["inputs", "schedules", "configurations"],
  "every concurrency up to three, up to five tasks with arbitrary arrival, due times and durations, and every bound up to three",
  "tests use fixed sets of tasks and timings",
  [S+"worker.py"],
  [("slot accounting", S+"worker.py:_worker_loop"), ("work check", S+"worker.py:check_for_work"), ("iteration cap", S+"worker.py:run_at_most")],
  ["simultaneously running bodies", "work left on return"])
p("C17", "A live worker keeps its task; a dead worker's task is redelivered",
  """A task running on a live worker is never handed to another worker, however long it runs compared with the redelivery timeout, while a task whose worker died is started by
  another worker within the redelivery timeout plus a polling interval after the death. A redelivered task says so and keeps its attempt number and arguments.""",
  ["schedules", "inputs", "crash_points"],
  "every task duration, redelivery timeout, start offset of the other worker, and moment of death",
  "tests use one duration and one timeout with real sleeps",
  [S+"worker.py"],
  [("lease renewal", S+"worker.py:_renew_leases"), ("redelivery", S+"worker.py:get_redeliveries")],
  ["body starts per task across workers"])
p("C18", "Recorded state, result and error tell what happened to the latest run",
  """After a task ends, its record says completed exactly when the body returned, failed when it raised and was not retried, cancelled when it was cancelled or dropped; the stored result or
  exception is that of the most recent run of the key, and survives exactly for the configured retention; while scheduled, queued or running the record says so. Every state change is published in order
  with the final one last.""",
  ["histories", "inputs", "configurations"],
  "every sequence of up to three runs of one key with any outcomes, any retention period and any time of reading",
  "tests read one run of a fresh key",
  [S+"execution.py", S+"worker.py", S+"_result_store.py"],
  [("terminal script", S+"execution.py:_terminal"), ("result storage", S+"worker.py:_execute"), ("sync", S+"execution.py:sync")],
  ["Execution.state/error/get_result", "state events"])
p("C19", "Waiting for a result never hangs and returns that task's outcome",
  """A caller waiting for a task's result gets the value the body returned, or the exception it raised, no matter when it starts to wait relative to the task's start and end (while its outcome is retained); with a timeout or
  deadline it gives up within that time, and a cancelled task is reported as such rather than leaving the caller waiting.""",
  ["schedules", "inputs"],
  "every interleaving of the waiting caller's Redis operations with the task's state changes, every timeout and every outcome",
  "tests start waiting well before or well after completion; the interleavings between reading the state and subscribing are not reachable",
  [S+"execution.py", S+"_result_store.py"],
  [("get_result", S+"execution.py:get_result"), ("subscribe", S+"execution.py:subscribe")],
  ["return of the waiting call"])
p("C20", "Timeouts interrupt a task at its limit and only then",
  """A task with a timeout whose body finishes first is unaffected, whatever it returns or raises, including its own timeout errors; one still running at the limit is interrupted at the limit,
  recorded as failed with a timeout error (or retried if so declared), and extensions move the limit by exactly what was asked.""",
  ["inputs", "schedules"],
  "every limit, extension, body duration and outcome, including a body that raises a timeout error of its own",
  "tests use one short and one long body",
  [S+"dependencies/_timeout.py", S+"worker.py"],
  [("runtime wrapper", S+"dependencies/_timeout.py:run"), ("extend", S+"dependencies/_timeout.py:extend")],
  ["time and kind of outcome"])
p("C21", "Scattering an agenda schedules every task inside the window",
  """Scattering schedules each task of the agenda exactly once, in order, with its own arguments, at evenly spread times from the start to the start plus the period; jitter moves a task by at most the
  jitter and never before the start; an agenda that cannot be scheduled (unknown task, bad period or jitter) schedules nothing. The agenda is unchanged and can be scattered again.""",
  ["inputs"],
  "every number of tasks up to six, period, jitter, start offset and random draw",
  "tests sample a few counts and random draws",
  [S+"agenda.py"],
  [("even spacing and jitter", S+"agenda.py:scatter")],
  ["scheduled times"])
p("C22", "Server-side scripts receive each value under its own name",
  """Every keyword given to a script function reaches the script as the value of the variable of that name, keys as keys and values as values, with variadic groups intact, for any
  declared order and any mixture of kinds; missing values and values that cannot be represented are rejected before anything is executed, and so are declarations that would misplace one.""",
  ["programs", "inputs"],
  "every declaration of up to five parameters over the supported kinds in any order, and any argument values",
  "tests check a few declarations",
  [S+"_lua.py"],
  [("parameter analysis and prelude", S+"_lua.py:redis_script"), ("encoding", S+"_lua.py:_encode_scalar")],
  ["values seen inside the script"])
p("C23", "A snapshot shows every task once, in its true condition",
  """A snapshot of a docket lists each scheduled or queued task exactly once as future and each delivered unfinished task once as running on the worker that holds it, with its own arguments and times, counts
  that match, and the workers alive at that time; it changes nothing.""",
  ["histories", "schedules"],
  "every population of up to three tasks in any lifecycle stage and every time of the snapshot",
  "tests snapshot a few fixed populations",
  [S+"_docket_snapshot.py", S+"docket.py"],
  [("snapshot", S+"_docket_snapshot.py")],
  ["Docket.snapshot"])
p("C24", "Live workers are listed, dead ones disappear",
  """A worker that is running is reported, with exactly the tasks it can run, by the worker listings at any time between its first heartbeat and its exit; a worker that exited cleanly disappears at once and one that died
  disappears after the configured number of missed heartbeats, regardless of the other workers.""",
  ["schedules", "configurations", "crash_points"],
  "every heartbeat interval and missed-beat limit, time of death and time of query, for up to two workers",
  "tests use one interval and real sleeps",
  [S+"worker.py", S+"_docket_snapshot.py"],
  [("heartbeat", S+"worker.py:_heartbeat"), ("removal", S+"worker.py:_remove_heartbeat"), ("listing", S+"_docket_snapshot.py")],
  ["Docket.workers, Docket.task_workers"])
p("C25", "Clearing a docket removes pending work and only that",
  """Clearing removes every scheduled and queued task so that none of them runs, returns how many it removed, leaves running tasks, strikes and other dockets untouched, and leaves every cleared key free to be scheduled again.""",
  ["histories", "schedules"],
  "every population of up to three tasks (scheduled, due, queued, running) and every moment of the clear",
  "tests clear fixed populations and never re-add",
  [S+"docket.py"],
  [("clear", S+"docket.py:clear")],
  ["task bodies run after the clear", "returned count"])
p("C26", "Progress reports are what the running task reported, and only its",
  """Progress read by anyone equals the sum of the reported increments and the last message and total of the current run; it starts at zero for each run, is gone once the task has ended, and is never changed or
  removed by an older superseded run, or by another task. Invalid totals and increments are rejected without changing anything.""",
  ["inputs", "histories"],
  "every sequence of up to four progress reports with any amounts, from overlapping runs of the key",
  "tests report a few amounts in one run",
  [S+"_execution_progress.py", S+"execution.py"],
  [("progress commands", S+"_execution_progress.py"), ("reset on claim, removal at the end", S+"execution.py:_claim/_terminal")],
  ["ExecutionProgress fields and events"])
p("C27", "Generated identifiers are well formed, unique and ordered by time",
  """Identifiers generated by the docket are valid version-7 UUIDs whose timestamp part is the generation time, all distinct, and ordered by generation time, including within one
  instant (up to 16384 in one tick of 60 ns).""",
  ["inputs", "histories"],
  "every sequence of clock readings (including repeated and backward ones) and random bits",
  "tests generate a few identifiers on the real clock",
  [S+"_uuid7.py"],
  [("field packing and counter", S+"_uuid7.py:uuid7")],
  ["bits of the identifiers"])
p("C28", "Arguments not marked for logging never appear in logs",
  """The textual description of a task call shows the value of exactly the arguments annotated for logging (or only their length when so annotated), positional or keyword, and masks all others, for
  every signature and call shape.""",
  ["inputs", "programs"],
  "every signature of up to three parameters of any kind and any way of passing them",
  "tests describe a few calls",
  [S+"execution.py", S+"annotations.py"],
  [("call description", S+"execution.py:call_repr"), ("annotation lookup", S+"annotations.py")],
  ["call description"])
p("C29", "Redis outages delay work but lose none of it",
  """When a worker's Redis operations fail with connection errors - any one of them, before or after taking effect on the server, or all of them for a while - or the server drops its connections, work is delayed but none is lost: once Redis answers again every accepted task runs to completion and none is left unprocessed, if need be after the worker is started again. Failures of what the worker does besides running tasks (polling, scheduling, renewing leases, listening, seeding automatic tasks) never make it exit or run a task twice: after its reconnection delay it does all its duties as before.""",
  ["fault_sequences", "schedules"],
  "every single failed operation, before or after its effect, every outage and every dropped connection, around populations of immediate, future, retried, limited and perpetual tasks",
  "tests inject an error into one chosen call",
  [S+"worker.py", S+"_redis.py", S+"dependencies/_resolution.py"],
  [("reconnect loop", S+"worker.py:_run"), ("poll guard", S+"worker.py:_worker_loop"), ("listener reconnect", S+"worker.py:_cancellation_listener"), ("outcome recording", S+"worker.py:_record_completion")],
  ["tasks completed after the fault", "state records", "worker exits", "what is left in the stream"])
p("C30", "Cron tasks run at every declared time and at no other",
  """A cron task's first run (and a restarted one) is scheduled at the first instant matching its expression, in its time zone, after the worker looked; each next run at the first matching instant after the previous run began, so no instant is run ahead of time, twice or skipped; a run that lasts past later instants is followed at once by a single one.""",
  ["inputs", "histories"],
  "every run duration and start offset for a fixed set of expressions",
  "tests check a few fixed expressions and instants",
  [S+"dependencies/_cron.py", S+"dependencies/_perpetual.py"],
  [("next-instant computation", S+"dependencies/_cron.py")],
  ["scheduled times"])
p("C31", "Dependencies are resolved once, shared, and always cleaned up",
  """Every declared dependency function is called once per execution, nested ones shared, before the body starts, unless an argument is passed in its place; every one that was entered is closed exactly once in reverse order, after the body, whatever the outcome,
  and a dependency that fails to resolve fails the task without running its body. A task ends once, failed if its body or the closing of a dependency failed; a dependency that swallows or raises exceptions doesn't undo admission control. Shared dependencies are created once per worker and closed when it stops, after its tasks.""",
  ["programs", "inputs"],
  "every dependency graph of up to three nodes, any failing node, and any outcome of the body",
  "tests check a few graphs and one failure each",
  [S+"dependencies/_resolution.py", S+"dependencies/_functional.py", S+"worker.py"],
  [("resolution", S+"dependencies/_resolution.py"), ("dependency failure handling", S+"worker.py:_execute")],
  ["enter/exit events and the body's arguments"])
p("C32", "Command-line durations and statistics mean what they say",
  """A duration given on the command line as a number of seconds, with an h, m or s suffix, or as a clock value, is converted to exactly that length of time, and anything else is rejected. The statistics of a snapshot count each running and queued task of each function once, with the earliest and latest of their times.""",
  ["inputs"],
  "every numeric value and each supported format; every snapshot of up to four tasks",
  "tests parse a few values",
  [S+"cli/_support.py"],
  [("duration parsing", S+"cli/_support.py:duration"), ("task statistics", S+"cli/_support.py:get_task_stats")],
  ["parsed duration"])
p("C33", "Different keys and dockets never interfere",
  """Operations on one task key or one docket never change, run, cancel or hide another key's or docket's tasks, results, progress or limits, for any key text and docket names sharing a Redis server.""",
  ["inputs", "configurations"],
  "every pair of distinct keys drawn from ordinary and adversarial texts, and pairs of docket names",
  "tests use ordinary keys",
  [S+"docket.py", S+"execution.py", S+"worker.py"],
  [("key layout", S+"docket.py:key/parked_task_key/runs_key")],
  ["state of the other key or docket"])
p("C34", "Telemetry and instrumentation never change what runs",
  """Tracing and metrics exporters, whatever they do, never change which tasks run, their arguments or their outcomes, and traces link each run to the call that scheduled it.""",
  ["configurations"], "every exporter and propagator configuration", "only a few exporters are tested",
  [S+"instrumentation.py", S+"_telemetry.py", S+"_prometheus_exporter.py"], [("message propagation", S+"instrumentation.py")])
p("C35", "Cluster, sentinel and TLS connections reach the right server",
  """Connections described by any supported URL (single server, cluster, sentinel, TLS, credentials) reach the described server with the described credentials, and fail over to the new primary without losing work.""",
  ["configurations", "fault_sequences"], "every supported URL and failover sequence", "only URL parsing is tested offline",
  [S+"_redis.py", S+"_redis_sentinel.py"], [("URL handling", S+"_redis.py"), ("sentinel discovery", S+"_redis_sentinel.py")])
p("C36", "The command line does and shows what its options say",
  """`docket strike` and `restore` block and unblock exactly the submissions whose argument meets the condition, the value read as the type it names; the `tasks` commands schedule one task with the message, delay and docket given; `clear` removes and counts exactly that docket's waiting work; `worker` runs with the concurrency, durations, name and fallback given and, until finished, until all is done; `snapshot` and `workers` list every task and worker under its own name, whatever characters it has, with the right times and counts.""",
  ["programs", "configurations", "histories"],
  "every combination of these options, over symbolic arguments, delays and states of the docket",
  "a few command lines are tested, and none where only an in-memory Redis is at hand",
  [S+"cli/__init__.py", S+"cli/_support.py"],
  [("commands", S+"cli/__init__.py"), ("values", S+"cli/_support.py:interpret_python_value"), ("tables", S+"cli/_support.py:print_workers")],
  ["what is blocked, scheduled, run and printed"])

p("C37", "Watching a task follows it to its end",
  """`docket watch` on a task ends when the task ends (within its one-second poll) and not before, however long the task is silent, retried or handed to another worker; it shows the state, error and progress the task ended with, and a task that had already ended at once.""",
  ["schedules", "histories"],
  "every moment to start watching, around tasks that return, fail, retry, are cancelled or struck, or outlive their worker, with one slow Redis operation",
  "tests watch a task from one moment, and never a quiet or cancelled one",
  [S+"cli/__init__.py", S+"cli/_support.py", S+"execution.py"],
  [("watch loop", S+"cli/__init__.py:watch"), ("silence", S+"cli/_support.py:iterate_with_timeout"), ("events", S+"execution.py:subscribe")],
  ["what is drawn, and when the command ends"])

p("C38", "A task a worker does not know goes to its fallback, once per attempt",
  """A worker that is given a task it does not know runs its fallback in its place - once per attempt, with the arguments submitted and the submitted name and key at hand, its own dependencies and retries applied - and records the fallback's outcome as the task's; without a fallback the task is dropped and over. A task that has become known by its next attempt is run itself, tasks it knows are unaffected, and among workers of which some know a task exactly one sees to it.""",
  ["schedules", "histories", "programs"],
  "every moment for a task to become known around runs of the fallback, and every slow operation of workers that differ in what they know",
  "tests run one fallback for one task that never becomes known, on one worker",
  [S+"worker.py", S+"execution.py"],
  [("choice", S+"execution.py:from_message"), ("default", S+"worker.py:default_fallback_task"), ("run", S+"worker.py:_execute")],
  ["what the fallback was given, how often it ran, and the recorded outcome"])

p("C39", "Test assertions pass exactly when what they say is true",
  """`assert_task_scheduled` and `assert_task_not_scheduled` pass exactly if some, or no, task that is scheduled or queued and has not started matches the function or name, all positional arguments, the given keywords and the key; `assert_task_count` exactly if their number, of one function or in all, is the given one; `assert_no_tasks` exactly if there is none - at any moment of any tasks' lives.""",
  ["inputs", "histories"],
  "every combination of criteria over tasks with any arguments, at every moment around starts, cancellations, replacements and clearing",
  "a few assertions are tested on a docket no worker has touched",
  [S+"testing.py", S+"_docket_snapshot.py"],
  [("criteria", S+"testing.py:_matches_criteria"), ("scheduled", S+"testing.py:assert_task_scheduled"), ("tasks", S+"_docket_snapshot.py:snapshot")],
  ["which assertions pass"])

p("C40", "What is over leaves nothing in Redis for good",
  """Once all tasks are over, nothing of them stays in Redis without an expiry: no message on the stream, none unacknowledged, no scheduled entry, no parked definition, record, progress, result, slot, waiter, window or lock - whatever way they ended (returned, failed, retried, timed out, perpetuated, cancelled, replaced, cleared, struck, delayed or dropped by a limit), whether outcomes are retained or not, however slow a worker's operations were and whichever worker died.""",
  ["histories", "crash_points", "schedules"],
  "every moment to cancel, replace, clear or strike, every operation to be slow or to die at, for every kind of task",
  "tests look for leaks after a few undisturbed histories",
  [S+"docket.py", S+"execution.py", S+"worker.py", S+"dependencies/_concurrency.py", S+"dependencies/_ratelimit.py"],
  [("clear", S+"docket.py:_clear_tasks"), ("cancel", S+"docket.py:_cancel_task"), ("end", S+"execution.py:_terminal"), ("slots", S+"dependencies/_concurrency.py")],
  ["what Redis holds after everything is over"])

p("C41", "The metrics count what happened, each thing once",
  """A worker's counters agree with what ran: each run counts once as started and once as completed, as succeeded if its function returned and failed if it raised; the running count is what is running; each retry, perpetuation, accepted schedule, struck task and redelivery counts once; durations and punctuality are those of the run; queue and schedule depth are the tasks due and not over, and due later; strikes in effect are those in effect - whatever is cancelled, replaced, struck or submitted again, however slow Redis is and whichever worker died.""",
  ["histories", "schedules", "crash_points"],
  "every moment to cancel, replace, strike or submit again, every moment of death, every operation slow, every order of strikes and restorations",
  "tests patch one instrument and run one task to its end",
  [S+"worker.py", S+"docket.py", S+"strikelist.py", S+"instrumentation.py", S+"dependencies/_retry.py", S+"dependencies/_perpetual.py"],
  [("run", S+"worker.py:_execute"), ("depth", S+"worker.py:_heartbeat"), ("schedule", S+"docket.py:add"), ("strikes", S+"strikelist.py:_apply")],
  ["the measurements handed to the instruments"])

p("C42", "Every run is one span, linked to what asked for it",
  """Each run of a task is exactly one consumer span naming the task, its key, attempt, docket and worker, as long as the run and current in its body; in error, with the exception, exactly if the run raised, never because a limit held it back. It has a trace of its own, linked to the trace of the call that asked for it, or of the run that retried or perpetuated it - whether it runs at once or later, is replaced, retried, postponed, parked or redelivered, and however callers, workers and tasks interleave.""",
  ["histories", "schedules", "crash_points"],
  "every moment to cancel or replace, every gap between callers, every moment of death, every operation slow",
  "tests trace one task run at once, one retry and one parked task",
  [S+"worker.py", S+"execution.py", S+"docket.py", S+"instrumentation.py", S+"dependencies/_concurrency.py"],
  [("run", S+"worker.py:_execute"), ("link", S+"execution.py:incoming_span_links"), ("carry", S+"execution.py:schedule"), ("move", S+"worker.py:_stream_due_tasks")],
  ["the spans handed to the tracer, their parents and links"])

p("C43", "What a run is told about itself is true",
  """Within a run, the current execution, key, arguments (also as TaskArgument), attempt, time due, redelivery, worker, docket and the logger's fields are those of that very run - in the body, in its dependencies, before and after it waits - for tasks run at once or later, by function or name, retried, perpetuated, postponed or parked by limits, replaced or redelivered, however many run at once on however many workers; and looking the key up shows the same.""",
  ["inputs", "histories", "schedules", "crash_points"],
  "every argument, every moment of death, replacement and look-up, every gap between tasks sharing a limit",
  "tests inject each value into one task on one worker",
  [S+"dependencies/_contextual.py", S+"dependencies/_resolution.py", S+"execution.py", S+"worker.py"],
  [("context", S+"dependencies/_contextual.py:_CurrentExecution"), ("resolve", S+"dependencies/_resolution.py:resolved_dependencies"), ("read", S+"execution.py:from_message")],
  ["values injected into the task and its dependencies"])

p("C44", "The metrics page shows what was measured",
  """Each scrape of the Prometheus endpoint shows every counter, up-down counter and histogram measured so far, once per set of labels, under its name and unit, as what it is: totals, cumulative buckets, sums and counts equal to what was measured, however many scrapes came before or are served at the same time, whatever the label values; gauges show the last value set since the scrape before.""",
  ["inputs", "histories", "schedules"],
  "every amount and label value, every moment of scraping, every interleaving of two scrapes on two threads",
  "tests scrape one page once after one task",
  [S+"_prometheus_exporter.py", S+"instrumentation.py"],
  [("translate", S+"_prometheus_exporter.py:_CustomCollector"), ("buckets", S+"_prometheus_exporter.py:_convert_buckets"), ("units", S+"_prometheus_exporter.py:map_unit"), ("instruments", S+"instrumentation.py")],
  ["the samples and text prometheus_client renders from the collector"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))
