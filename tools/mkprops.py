#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that the prose stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("P01","A command's unit of work is all-or-nothing",
 "When a transactional command runs, either everything it changed is committed exactly once and it reports success, or nothing it changed remains and it reports an error or a deliberate break. Once the transaction has started, any error, break or panic before the commit (loading, business logic, hooks, writing, event sending) ends it with exactly one rollback and never a commit; an earlier one means no transaction is started; a failed commit is reported as an error. A panic is passed on to the caller after the rollback, and no transaction is left open on any path. A successful command's result lists exactly the rows it wrote and carries the output the command set.",
 ["fault_sequences","programs"],"every command shape (function, main-style, build/act-style, create, delete, event-triggered), every position of an error/break/panic and every failing port call",
 "existing tests run the happy path and one or two errors with a no-op executor; they do not vary the point of failure nor look at what stayed in the store",
 ["engine.go"],[("runWithTransaction","engine.go:runWithTransaction"),("persist","engine.go:persist"),("do","engine.go:do"),("ResultErrOrBreak","engine.go:ResultErrOrBreak")],
 [("transaction","open transaction of the running command","context returned by the executor's begin")],["executor port: begin/exec/commit/rollback","returned result","rows after the command"])
p("P02","Saving makes the store equal to the aggregates in memory",
 "After a successful command the stored rows are exactly what the loaded, added, modified and removed entities describe: each entity newly attached anywhere below a root is inserted once with its current data and its parent, each attached entity marked as changed is updated once, each entity detached from its parent (or root removed) is deleted once. Entities that were loaded and neither changed, attached nor detached are not written at all. This holds for every nesting depth, for children held in slices, maps, single references or an explicit child listing, and for several roots in one command.",
 ["histories","inputs"],"every tree of entities and every sequence of load/add/modify/attach/detach/remove operations",
 "tests check a handful of hand-written trees; the guarantee is about every tree and every edit history, including edits below removed or newly added parents",
 ["engine.go","snapshot.go","domain.go"],[("entityDiff","snapshot.go:entityDiff"),("findChildren","snapshot.go:findChildren"),("makeActions","engine.go:makeActions"),("updateSnapshot","engine.go:updateSnapshot")],
 [("snapshot pool","entities and children known to be stored","Stage.snapshot")],["actions given to the executor","rows after the command"])
p("P03","Moving an entity between parents is an update, and ambiguity is refused",
 "An already stored entity that is detached from one parent and attached to another (or to another collection of the same parent) in the same save is updated once with its new parent, and is neither deleted nor inserted. An entity that appears newly attached under two parents at once makes the command fail with nothing written. Moves out of a parent that is itself removed, and moves into a parent that is itself new, behave the same way.",
 ["histories","inputs"],"every move of an entity between parents at any level, combined with other edits of both parents",
 "one unit test moves one entity between two fixed parents",
 ["snapshot.go"],[("handleEntityMove","snapshot.go:handleEntityMove"),("entityDiff","snapshot.go:entityDiff")],[],["actions given to the executor","rows after the command"])
p("P04","Recursive delete removes exactly the removed subtrees",
 "With recursive deletion on, removing an entity deletes it and every entity loaded below it, at every depth, each once, and nothing else; entities that were moved elsewhere before the save survive. With recursive deletion off, only the removed entity itself is deleted and rows of entities below it are left alone.",
 ["histories","configurations"],"every tree, every set of removed entities (roots and children at any level), both settings",
 "one test removes one root of one fixed tree",
 ["snapshot.go","engine.go"],[("recursiveDelete","snapshot.go:recursiveDelete"),("getEntityChanged","engine.go:getEntityChanged")],[],["delete actions given to the executor","rows after the command"])
p("P05","Every new entity gets one identity before it is stored",
 "Every entity created by a command that has no identity receives one fresh, non-empty identity from the configured generator before any row is written; entities that already carry an identity keep it, and existing entities never change theirs. Rows of children created together with their parent refer to the parent's final identity, at every depth. A failing generator makes the command fail without writing anything.",
 ["inputs","fault_sequences"],"every mixture of entities with and without identities, nesting depth and failing generator call",
 "tests create at most two levels and never fail the generator",
 ["engine.go"],[("putNewID","engine.go:putNewID"),("makeActions","engine.go:makeActions")],[],["inserted rows","entity identity after the command"])
p("P06","Lifecycle hooks run exactly once around the write they belong to",
 "For each save, every created, updated or deleted entity (including those deleted recursively) that declares the matching before-hook or after-hook has it called exactly once, all before-hooks ahead of the first write of that save and all after-hooks after its last write; no other hook is called. Data changed by a before-hook is what gets stored. An error from any hook fails the command and nothing is committed.",
 ["histories","fault_sequences"],"every edit history and every failing hook, including several saves in one command",
 "one test checks one entity per hook kind on the success path",
 ["engine.go"],[("execHook","engine.go:execHook"),("persist","engine.go:persist")],[],["hook calls on entities relative to executor calls"])
p("P07","Events of a command are sent completely, once, ordered, inside its transaction",
 "A successful command hands every event raised by its loaded, added, updated and removed entities (at any depth, also below removed ones) to the event bus exactly once, ordered by creation, after all its writes and before its commit. If event recording is configured, one row per event is stored in the same transaction. If the command fails, breaks or the bus refuses the events, nothing is committed, and an event of a command that failed before sending is never handed over.",
 ["histories","fault_sequences"],"every placement of events in the entity tree, every edit history, several saves per command, failing bus and failing recording",
 "tests send one or two events from fixed positions and do not check order relative to writes and commit, nor failure",
 ["engine.go","event.go"],[("collectEvents","engine.go:collectEvents"),("dispatchEvents","engine.go:dispatchEvents"),("recycle","engine.go:recycle"),("makeEventPersistAction","engine.go:makeEventPersistAction")],[],["event bus port","event rows"])
p("P08","Transactional events share the fate of the data",
 "On a bus that supports it, events marked transactional are prepared before the commit, and are confirmed exactly once only after the data commit succeeded and withdrawn exactly once if the command fails or breaks after preparing them. If the data commit itself fails they are neither confirmed nor withdrawn, leaving the outcome to check-back. Ordinary events of the same command are sent the ordinary way, and on a bus without transaction support or for a command without a transaction all events are sent the ordinary way.",
 ["fault_sequences","configurations"],"every mixture of ordinary and transactional events, bus kinds and every failing port call",
 "no test has a transactional bus behind a failing commit or a failing dispatch",
 ["engine.go"],[("dispatchEvents","engine.go:dispatchEvents"),("runWithTransaction","engine.go:runWithTransaction")],[("eventCtx","bus context of the prepared events","Stage.eventCtx")],["transactional event bus port"])
p("P09","Locks cover the whole command and are always given back",
 "A command that declares lock keys holds all of them from before its transaction starts until after it has committed or rolled back, and gives each acquired lock back exactly once on every path, including errors, breaks and panics. Keys are acquired in one global order so that commands with overlapping keys cannot deadlock, and repeated keys are refused without taking any lock. If a lock cannot be obtained the command fails without starting a transaction and without running its logic, and commands that share a key never overlap.",
 ["schedules","fault_sequences"],"every set of keys, every interleaving of concurrent commands and every failing lock/unlock call",
 "tests use at most one key and one command at a time",
 ["engine.go","command.go"],[("runOnLock","engine.go:runOnLock"),("Save","engine.go:Save")],[("held locks","locks acquired by the running command","runOnLock")],["lock port relative to transaction port"])
p("P10","Post-save callbacks run once, only after success, and only the command's own",
 "After a command succeeds, each post-save callback configured for the engine, for the call and by the command itself runs exactly once, in registration order, after the transaction has committed and all locks are released, and sees the command's result. After an error, a failed commit or a failed lock none runs. A command never runs a callback that belongs to another command, however many commands run nested or concurrently on one engine.",
 ["schedules","fault_sequences","configurations"],"every number of engine-wide callbacks, every nesting/interleaving of commands, every failure point",
 "tests run single commands with a single callback",
 ["engine.go","command.go"],[("PostSaveOption","engine.go:PostSaveOption.ApplyToOptions"),("Save","engine.go:Save"),("NewStage","engine.go:NewStage")],[("post-save callback list","options of the engine and of each run","Options.PostSaveHooks")],["callback invocations relative to commit and unlock"])
p("P11","A dry run leaves no trace",
 "A command run in dry-run mode performs its loading, logic and checks but writes no row, records no event and hands no event to the bus, whatever it does, including intermediate saves. It reports the same success, error or break that the real run would report for its logic.",
 ["programs","configurations"],"every command and every option combination",
 "one test checks one create",
 ["engine.go"],[("exec","engine.go:exec"),("dispatchEvents","engine.go:dispatchEvents")],[],["executor writes and bus calls during a dry run"])
p("P12","Intermediate saves and later loads never change the outcome",
 "Splitting the edits of a command over any number of intermediate saves leaves the same rows and sends the same events as one final save; each save writes only what changed since the previous one. Loading or removing another aggregate after some edits never causes earlier unsaved edits to be lost or written twice. A failed intermediate save makes nothing of the command permanent once the command returns that error.",
 ["histories"],"every split of an edit history into saves, every interleaving of loads and removals with unsaved edits",
 "tests call an intermediate save once with one entity and never mix loads with unsaved additions",
 ["engine.go"],[("commit","engine.go:commit"),("flush","engine.go:flush"),("updateSnapshot","engine.go:updateSnapshot"),("Repository.Get","engine.go:Repository.Get")],[("snapshot pool","what has been stored so far","Stage.snapshot")],["rows and events at the end"])
p("P13","Loading returns exactly the stored aggregate",
 "Loading a root by identity fills it and each requested child collection or single child with exactly the rows stored for that root, in the loading command's transaction; collections without rows stay empty and a requested single child without a row stays absent. Loading without an identity, a missing root, or an invalid child argument is an error and the root does not become part of the command. A saved aggregate that is loaded again describes the same data.",
 ["inputs","histories"],"every stored content and every combination of requested children",
 "tests use an executor that returns canned rows",
 ["engine.go"],[("BuildEntity","engine.go:BuildEntity"),("buildEntitySliceByParent","engine.go:buildEntitySliceByParent"),("Repository.Get","engine.go:Repository.Get")],[],["entities after loading compared with stored rows"])
p("P14","Events reach exactly the handlers registered for their type",
 "An event (or timer firing) is passed to all handlers registered for its type, in registration order, each receiving the event's data as sent, and to no other handler; the first handler error (or undecodable payload) stops the rest and is reported back to the caller. Command-producing handlers run the produced command and report its error. A check-back question is answered by the checker registered for the type with the checker's own answer, and with rollback when there is no checker or the data cannot be decoded.",
 ["inputs","histories","configurations"],"every set of registrations, event data and handler outcome, and handlers of every supported shape",
 "tests register one or two handlers with success outcomes",
 ["event.go","engine.go","timer.go"],[("onEvent","event.go:onEvent"),("onTXChecker","event.go:onTXChecker"),("onTimer","timer.go:onTimer"),("Engine.RegisterEventHandler","engine.go:RegisterEventHandler")],[("handler table","handlers by event type","event.go:eventRouter")],["handler invocations and their arguments","error returned to the bus"])
p("P16","An update writes exactly the changed columns",
 "Updating an entity in the SQL executor changes exactly those columns whose value differs between what was loaded and what is saved, including changes to zero values, cleared references and embedded structures, and leaves every other column as it is in the database at that moment. Two commands that load the same row and change different columns therefore both keep their changes. An update that changes nothing does not touch the row.",
 ["inputs","schedules"],"every pair of loaded and saved value of every supported column kind, and concurrent changes of other columns",
 "the diff tests cover some fixed pairs and the executor tests need a MySQL server and do not run here",
 ["executor/mysql/diff.go","executor/mysql/executor.go"],[("DiffModel","executor/mysql/diff.go:DiffModel"),("OpUpdate","executor/mysql/executor.go:opMap")],[],["row before and after"])
p("P17","SQL executor operations touch exactly their rows, in their own transaction",
 "Every insert, update, delete and query of a command with a transaction runs in that command's transaction: invisible to others until commit, gone after rollback, and never inside the transaction of another executor or command. Inserting stores exactly the given models, deleting removes exactly the rows identified by the given models (one or many, single or composite key), and querying returns exactly the rows matching the given non-zero fields. Any database error is reported and a commit or rollback without a transaction is refused.",
 ["histories","fault_sequences","configurations"],"every batch of models and keys, nesting of commands, several executors, and every failing statement",
 "executor tests need a MySQL server and do not run here; none nests executors or fails statements",
 ["executor/mysql/executor.go"],[("Begin/Commit/RollBack","executor/mysql/executor.go"),("opMap","executor/mysql/executor.go:opMap"),("txKey","executor/mysql/executor.go:NewExecutor")],[("transaction in context","executor's transaction travelling with the context","Executor.txKey")],["rows seen from outside before/after commit"])
p("P20","Persisted dispatch is atomic for all events and all services",
 "Sending events through the SQL event bus stores every event once and creates one pending delivery for every service registered at that time, or, if anything fails or the process dies on the way, stores nothing at all and reports the error. No event is ever stored without its deliveries and no delivery without its event. Deliveries are immediately due and carry the event's creation time.",
 ["crash_points","fault_sequences","configurations"],"every failing or last-executed statement, every number of events and services",
 "bus tests need a MySQL server and do not run here; none fails a statement in the middle",
 ["eventbus/mysql/eventbus.go"],[("Dispatch","eventbus/mysql/eventbus.go:Dispatch"),("initService","eventbus/mysql/eventbus.go:initService")],[("event and delivery tables","persisted queue","eventbus/mysql/po.go")],["event and delivery tables after each call"])
p("P21","Every stored event is delivered at least once to every service until it succeeds",
 "Each pending delivery whose time has come is handed, with the event exactly as sent, to a running consumer of its service within a bounded number of polling rounds, whatever else fails, and again after a crash, database error or handler failure that left no recorded success. A delivery recorded as successful or finally failed is never handed over again. Services progress independently: what one service's handler does neither delivers nor blocks another's deliveries.",
 ["crash_points","fault_sequences","histories"],"every crash point of consumers, every handler outcome, number of events relative to the per-round limit, number of services",
 "bus tests need a MySQL server and do not run here; crashes and statement failures are never injected",
 ["eventbus/mysql/eventbus.go"],[("handleEvents","eventbus/mysql/eventbus.go:handleEvents"),("getScanEvents","eventbus/mysql/eventbus.go:getScanEvents"),("handleEvent","eventbus/mysql/eventbus.go:handleEvent")],[("delivery status","pending, success, failed per service and event","ServiceEventPO.Status")],["handler invocations","delivery rows"])
p("P22","One delivery is never handled twice in parallel nor again after success",
 "However many consumer instances, worker goroutines and polling triggers of the same service run at once, a given delivery is being handled by at most one of them at any time, and once a handling has succeeded and been recorded no instance handles it again or overwrites its recorded result. Different deliveries may be handled in parallel.",
 ["schedules"],"every interleaving of consumer instances, workers and rounds, including an instance that read the queue long before acting",
 "needs particular interleavings of several instances; existing tests run one instance against MySQL and do not run here",
 ["eventbus/mysql/eventbus.go"],[("row lock and re-check","eventbus/mysql/eventbus.go:handleEvent"),("dispatchEvents","eventbus/mysql/eventbus.go:dispatchEvents")],[("delivery row lock","row-level lock held while handling","ServiceEventPO")],["handler start/end with instance","delivery rows"])
p("P23","Failed deliveries are retried as configured and then given up",
 "A delivery whose handler returns an error or panics stays pending and is tried again no earlier than the configured interval, and at most the configured number of times (fixed interval, custom list or custom strategy); after the last allowed attempt it is recorded as failed and never tried again. The recorded retry count, next time and failure message describe the last attempt. A failing or panicking handler never prevents other deliveries, which are not order-bound to it, from being handled.",
 ["histories","configurations"],"every retry configuration and sequence of handler outcomes",
 "needs long waits and MySQL; existing tests cover one configuration and do not run here",
 ["eventbus/mysql/eventbus.go"],[("doRetryStrategy","eventbus/mysql/eventbus.go:doRetryStrategy"),("IntervalRetry/CustomRetry/LimitRetry","eventbus/mysql/eventbus.go"),("handleEvent","eventbus/mysql/eventbus.go:handleEvent")],[("retry count, next time","per delivery","ServiceEventPO")],["handler invocations with time","delivery rows"])
p("P24","Ordered events of one sender are handled in sending order",
 "For each service, strictly ordered events of one sender are handled in sending order, and one is handled only after its predecessor of that sender has succeeded (or was explicitly expired), so a finally failed predecessor blocks its successors. Loosely ordered events wait only until their predecessor has either succeeded or finally failed. Events of other senders and other services are not held back.",
 ["schedules","histories"],"every sequence of events, handler outcomes, instances and workers",
 "ordering across retries, workers and instances depends on schedules that tests (which need MySQL) do not control",
 ["eventbus/mysql/eventbus.go"],[("checkPrecedingEvent","eventbus/mysql/eventbus.go:checkPrecedingEvent")],[("predecessor's delivery status","per sender and service","ServiceEventPO")],["handler invocations per sender and service"])
p("P25","Transactional messages are delivered if and only if their transaction commits",
 "A prepared transactional message is invisible to consumers until it is confirmed; confirming makes all its events deliverable exactly once, withdrawing makes them never deliverable, and either resolves it for good. A message left unresolved past its timeout is asked about by its own service: a commit answer delivers it, a rollback answer drops it, an unknown answer leaves it to be asked again, and it is never asked about before the timeout or after it is resolved. Concurrent askers, repeated confirmation, failures and crashes on the way never deliver it twice nor lose it.",
 ["schedules","crash_points","fault_sequences"],"every order of prepare/confirm/withdraw/check-back, answers, instances, failing statements and crash points",
 "needs crashes between prepare and confirm and concurrent check-backs; existing tests need MySQL and do not run here",
 ["eventbus/mysql/eventbus.go"],[("DispatchBegin/Commit/Rollback","eventbus/mysql/eventbus.go"),("handleTransactions/checkTX","eventbus/mysql/eventbus.go")],[("prepared messages","ddd_event_transaction rows","eventbus/mysql/po.go:Transaction")],["event, delivery and prepared-message tables","checker invocations","handler invocations"])
p("P26","Cleaning removes only finished, old enough work",
 "The periodic cleaning of a service removes a delivery only if it belongs to that service, succeeded, and its event is older than the retention time, and removes an event only when no service has a delivery of it left. Pending or failed deliveries and their events are never removed, whatever the number of events and the moment cleaning runs. Everything that is removable for all services is eventually removed.",
 ["histories","schedules","crash_points"],"every distribution of delivery states, ages and services, any number of rows, any cleaning moment, crash during cleaning",
 "needs long times and MySQL; one fixed case exists and does not run here",
 ["eventbus/mysql/eventbus.go"],[("cleanEvents","eventbus/mysql/eventbus.go:cleanEvents")],[("event and delivery tables","persisted queue","eventbus/mysql/po.go")],["event and delivery tables before/after cleaning"])
p("P30","The database lock is exclusive and only its owner can release it",
 "Between a successful acquisition of a key and its release, no other acquisition of that key succeeds unless the holder failed to renew it for the full time-to-live; of several contenders for a free or expired key at most one succeeds, and a lock that was renewed in time is never taken over, however stale a contender's view is. Releasing or renewing affects only the caller's own current holding: a former holder can neither release nor renew the lock of its successor and is told so. A free or expired key can be acquired again, and contenders that fail are told that the key is locked.",
 ["schedules","crash_points"],"every interleaving of contenders' statements, delays up to and beyond the time-to-live, holder crashes, different keys",
 "the tests take one lock at a time from one goroutine with real time",
 ["lock/db/sql.go","lock/db/po.go"],[("lock","lock/db/sql.go:lock"),("UnLock","lock/db/sql.go:UnLock"),("compare-and-set on the owner","lock/db/sql.go:lock")],[("lock row","resource, owner, last renewal","ResourceLock")],["results of lock/unlock calls against time"])
p("P31","Work run under the database lock stays covered, is stopped on loss, cleans up",
 "While work runs under the lock, the lock is renewed often enough that nobody else obtains the key, however long the work takes; if renewal fails or the lock is lost, the work's context is cancelled within one renewal interval. When the work returns, the lock is released, its context is cancelled and no background activity of that run remains or touches the lock again. If the lock cannot be obtained the work is not run and the error is returned.",
 ["schedules","fault_sequences"],"every duration of the work, every failing renewal, every theft of the row, many runs in one process",
 "tests check one short run on real time and cannot see leaked activity",
 ["lock/db/sql.go"],[("Run","lock/db/sql.go:Run"),("update","lock/db/sql.go:update")],[("renewal loop","background renewal of the running work","lock/db/sql.go:Run")],["lock row over time","context of the work","statements after the work returned"])
p("P32","The Redis lock is exclusive and only its owner can release it",
 "Of several contenders for a key at most one holds it at a time until it is released or its time-to-live has passed; the others keep trying for a bounded time and then are told that the key is locked. Releasing affects only the caller's own holding: a lock that has expired and been taken over is not released by its former holder, who gets an error. Server errors are reported and never counted as holding the lock.",
 ["schedules","fault_sequences"],"every interleaving of contenders' server calls, delays beyond the time-to-live and failing calls",
 "there is no test for it (needs a Redis server)",
 ["lock/redis/redis.go"],[("Lock","lock/redis/redis.go:Lock"),("UnLock","lock/redis/redis.go:UnLock")],[("key with token and expiry","in the Redis server","lock/redis/redis.go")],["results of lock/unlock calls against time"])
p("P33","A due timer job fires once per due time, never early, and is rescheduled",
 "A registered job is fired by a running instance of its own service at or after its due time and within one polling round of it, with the key, schedule and data it was registered with, and never before; for one due time it is fired by exactly one instance however many poll at once. After firing, a one-time job is finished for good and a recurring job is due at the next matching time in the future, also when the callback returned an error. One job's failure, database error or crash neither fires another job wrongly nor keeps other jobs from firing, and a job whose firing was not recorded because of a crash is fired again.",
 ["schedules","crash_points","fault_sequences"],"every set of jobs, interleaving of instances, callback outcome, failing statement and crash point",
 "timer tests need a MySQL server and real waiting and do not run here",
 ["d_timer/sql/timer.go","d_timer/sql/model.go"],[("handleJobs","d_timer/sql/timer.go:handleJobs"),("Next/Reset/Close","d_timer/sql/model.go")],[("job row","key, schedule, next time, status","TimerJob")],["callback invocations with time and instance","job rows"])
p("P34","Registering a timer is idempotent, validated and cancellable",
 "Registering a key that already exists for the service leaves the existing schedule, data and progress untouched, also across restarts and concurrent instances; a new key becomes exactly one job due at the requested time (the first whole second not before it) or the next time matching the schedule. A one-time registration in the past and an invalid schedule are refused and leave nothing behind. After cancelling a key it is not fired any more until it is registered again, and other keys and other services' jobs are unaffected.",
 ["histories","schedules"],"every sequence of registrations, cancellations and firings from several instances",
 "timer tests need a MySQL server and do not run here",
 ["d_timer/sql/timer.go","d_timer/sql/model.go"],[("run","d_timer/sql/timer.go:run"),("RunOnce","d_timer/sql/timer.go:RunOnce"),("RunCron","d_timer/sql/timer.go:RunCron"),("Cancel","d_timer/sql/timer.go:Cancel")],[("job row","key, schedule, next time, status","TimerJob")],["job rows","callback invocations"])
p("P35","The in-memory bus delivers every event once, in order, until stopped",
 "Every event sent to the in-memory bus is handed exactly once, as sent, to the registered handler in sending order by one consumer, also when the handler fails, when sending outpaces handling (the sender then waits) and when the bus is started several times. After its context ends the bus hands over no further event and its consumer ends.",
 ["schedules","histories"],"every interleaving of senders, handler durations, buffer sizes and the moment of stopping",
 "the test sends one event",
 ["eventbus/mem/eventbus.go"],[("Start","eventbus/mem/eventbus.go:Start"),("Dispatch","eventbus/mem/eventbus.go:Dispatch")],[("queue","buffered events","MemoryEventBus.ch")],["handler invocations"])
p("P36","On the bundled stack, what commands store and what is announced agree",
 "With the engine, the bundled SQL executor, SQL event bus and database lock together, in any number of processes: a command is stored as a whole by exactly one commit or not at all, with its recorded events and only those; a command that refuses or breaks stores nothing, one that succeeds is stored. Commands under common lock keys run one after the other, so that no update is lost, and no command fails because of another unless they contend. Every event of a stored command, ordinary or transactional, is in the end handled by every service registered at the time, even if statements, commits or handlers fail or processes die at any point; a transactional event never arrives before its work is stored or for work that is not, and an ordinary event of a command that failed by itself never arrives. No message stays in preparation and, without trouble, no lock stays behind.",
 ["schedules","crash_points","fault_sequences"],"every interleaving of commands of several processes, failing statement and crash point across four components that each look fine alone",
 "there is no test with the components together (it needs a MySQL server)",
 ["engine.go","executor/mysql/executor.go","eventbus/mysql/eventbus.go","lock/db/sql.go"],[("runWithTransaction","engine.go:runWithTransaction"),("dispatchEvents","engine.go:dispatchEvents"),("runOnLock","engine.go:runOnLock"),("DispatchBegin/Commit/Rollback","eventbus/mysql/eventbus.go"),("Begin/Commit","executor/mysql/executor.go")],[("rows and recorded events","of commands","executor/mysql/executor.go"),("messages and events","prepared, sent and handled","eventbus/mysql/model.go")],["results of commands","committed rows","handler invocations"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
