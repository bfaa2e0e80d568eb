import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":m,"where":w} for m,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
L="common/limiter/"
p("C01","Fixed-window limiter admits exactly its limit per window",
 "With limit L and window W, a window opens at construction and then at the first call made more than W after the current window opened; within one window exactly the first L calls are admitted and every later one is refused, whatever the number of concurrent callers. Steps of the wall clock, forward or backward, change nothing. The limiter is free of data races.",
 ["schedules","histories","configurations","fault_sequences"],"every limit and window, every set of concurrent callers and their interleaving, every timing of calls against the window edge, every wall-clock step",
 "The one test makes sequential calls around one window edge; it never runs two callers, never lands on the edge, never steps the clock.",
 [L+"fixed_window/fixed_window.go"],[("mutex around the check-reset-count sequence",L+"fixed_window/fixed_window.go:TryAcquire"),("monotonic time difference",L+"fixed_window/fixed_window.go:TryAcquire")],["return value of TryAcquire"])
p("C02","Leaky-bucket limiter never overflows and drains at its configured rate",
 "The level starts at zero, each admitted call raises it by one, a call is refused exactly when the level is at its peak, and the level falls by the configured velocity for every whole second elapsed since construction, never below zero, no matter when or how often callers poll. This holds for any number of concurrent callers, is unaffected by wall-clock steps, and involves no data race.",
 ["schedules","histories","configurations","fault_sequences"],"every peak, velocity, polling pattern, interleaving of callers, stall and wall-clock step",
 "The test polls one limiter every 100 ms from one goroutine; drift at other polling intervals and concurrent over-admission are out of its reach.",
 [L+"leaky_bucket/leaky_bucket_limiter.go"],[("mutex around drain-check-fill",L+"leaky_bucket/leaky_bucket_limiter.go:TryAcquire")],["return value of TryAcquire"])
p("C03","Token-bucket limiter issues tokens at its rate and never beyond capacity",
 "The bucket starts empty, gains exactly its rate in tokens for every whole second elapsed since construction, saturating at capacity, and a call is admitted exactly when a token is there to be consumed, no matter when or how often callers poll. This holds for any number of concurrent callers, is unaffected by wall-clock steps, and involves no data race.",
 ["schedules","histories","configurations","fault_sequences"],"every capacity, rate, polling pattern, interleaving of callers, stall and wall-clock step",
 "There is no test of this limiter at all.",
 [L+"token_bucket/token_bucket.go"],[("mutex around refill-check-take",L+"token_bucket/token_bucket.go:TryAcquire")],["return value of TryAcquire"])
p("C04","Sliding-window limiter bounds admissions in every window span",
 "With limit L, window W and small window S, no time span of length W-S or less ever contains more than L admissions, none shorter than W more than 2L, and a call is refused only if at least L calls were admitted during the W before it (so a limiter idle for W admits again). This holds for any concurrent callers and across wall-clock steps, with no data race; a window that is not a multiple of the small window is rejected at construction.",
 ["schedules","histories","configurations","fault_sequences"],"every limit, window, small window, call timing, interleaving, stall and wall-clock step",
 "There is no test; the bound quantifies over every span of time and every interleaving.",
 [L+"sliding_window/sliding_window.go"],[("per-small-window counters under a mutex",L+"sliding_window/sliding_window.go:TryAcquire")],["return value of TryAcquire"])
p("C05","Sliding-log limiter enforces every strategy, independently per limiter",
 "For each configured strategy (limit L, window W) over small window S, no span of length W-S or less contains more than L admissions, none shorter than W more than 2L, and a call is refused only with an error naming one of the configured strategies whose L admissions all fall in the W before the call. This holds for concurrent callers and across wall-clock steps with no data race, and limiters built from the same strategy values never influence each other. Invalid strategy sets (none, indivisible window, larger-or-equal limit on a smaller window) are rejected at construction.",
 ["schedules","histories","configurations","fault_sequences"],"every strategy set, sharing of strategies between limiters, call timing, interleaving, stall and wall-clock step",
 "There is no test.",
 [L+"sliding_log/sliding_log.go"],[("per-small-window counters under a mutex",L+"sliding_log/sliding_log.go:TryAcquire"),("copying of the strategy list",L+"sliding_log/sliding_log.go:NewSlidingLogLimiter")],["error returned by TryAcquire"])
D="common/timer/delayqueue/delayqueue.go"
HP="common/container/heap/heap.go"
p("C06","Delay queue delivers each element exactly once, in due order, never early",
 "Every element pushed is handed out exactly once in total over all blocking takes, non-blocking pops and output channels, never before its delay has elapsed, and each removal hands out an element whose due time is the earliest among those in the queue. Peeking shows the earliest-due element and emptiness is reported truthfully. This holds for any number of concurrent pushers and takers, with cancellations at any point, and involves no data race.",
 ["schedules","histories","inputs","fault_sequences"],"every set of delays (negative, zero and equal ones included), every interleaving of pushers, takers, pops, channels and cancellations",
 "No test exists; loss, duplication and misordering depend on interleavings of push, timer expiry and cancellation.",
 [D,HP],[("heap ordered by expiration under a mutex",D+":Push, Take, Pop"),("channel goroutine forwards what it takes",D+":Channel")],["values returned by Take, Pop, Peek, Channel"])
p("C07","Delay-queue waiters wake as soon as an element is due",
 "Whenever an element is due and a taker is waiting, some taker returns it within a bounded number of steps, for any number of concurrent takers, and in particular when the element was pushed, ahead of the current earliest one or into an empty queue, while takers were already waiting. No push, pop, peek or take blocks forever while the queue holds a due element.",
 ["schedules","histories","fault_sequences"],"every interleaving of pushes with the takers' decision to sleep, every number of takers, stalls at any point",
 "Lost wake-ups need a push to land between a taker's decision to sleep and its sleep, or several takers sharing one wake-up; no test does either.",
 [D],[("sleep/wake-up handshake",D+":Push, Take")],["completion of Take, Push"])
p("C08","Cancelling a delay-queue waiter is prompt and harms nobody else",
 "A take whose context is cancelled returns promptly, with failure unless it hands out a due element, and an output channel whose context is cancelled is closed once its consumer has drained it. Afterwards every other operation (push, pop, peek, a new take, another waiter) still completes and still meets the queue's guarantees.",
 ["schedules","histories","fault_sequences"],"every instant of cancellation relative to pushes, timer expiry and other waiters",
 "No test cancels a take, and the harm shows only in operations made afterwards.",
 [D],[("context case in the waiting selects",D+":Take"),("closing of the output channel",D+":Channel")],["completion of Take, Push, Pop, Channel close"])
T="common/timer/timingwheel/"
p("C09","Timing-wheel tasks run exactly once, on time, at every delay",
 "While a wheel is running, every one-shot task that is not stopped runs exactly once, whatever its delay (zero, negative, below one tick, or so long that it needs overflow wheels): never more than one tick before its due time, and no later than the due time plus one tick and scheduling latency. This holds for tasks added concurrently from any goroutine, before or after the wheel starts, after idle periods and when any goroutine stalls, with no data race.",
 ["schedules","histories","configurations","fault_sequences"],"every tick and wheel size, delay, insertion time, interleaving of insertions with bucket expiry, stall of any goroutine",
 "No test exists; drops and double runs hide at level boundaries and in the interleaving of insertion with bucket expiry.",
 [T+"timing_wheel.go",T+"bucket.go",T+"delayqueue.go","common/container/list/list.go",HP],[("bucket selection by level",T+"timing_wheel.go:add"),("bucket expiry and cascade",T+"bucket.go:flush, "+T+"timing_wheel.go:advance"),("bucket delay queue",T+"delayqueue.go")],["task invocations and their times"])
p("C10","Stopping a pending timing-wheel timer always works and tells the truth",
 "For a one-shot timer on a running wheel, at most one Stop call ever returns true, and exactly one of two things happens: its task runs, or a Stop call returned true. In particular a Stop made before the timer's tick is reached succeeds, even while the timer is being moved between levels, and after a successful Stop the task never starts.",
 ["schedules","histories"],"every interleaving of Stop calls with insertion, cascade between wheels and expiry",
 "The windows are a few instructions wide, inside cascade and expiry; no test stops a timer.",
 [T+"bucket.go",T+"timing_wheel.go"],[("owner-bucket pointer and bucket mutex",T+"bucket.go:Stop, remove, flush")],["return value of Stop, task invocations"])
p("C11","Recurring timing-wheel schedules run once per scheduled time",
 "A task scheduled with a recurrence runs once for each time its scheduler yields, each next time being asked with the previous scheduled time, never more than one tick early nor later than one tick plus scheduling latency, until the scheduler yields the zero time. A scheduler whose first answer is the zero time schedules nothing. A Stop made while the next time is certainly still awaited returns true. After a Stop of the recurring timer returned true, at most the execution already in flight still runs.",
 ["schedules","histories","inputs"],"every scheduler sequence (gaps below a tick, across levels, into the past, finite), every interleaving with Stop",
 "No test exists; each re-arm races with bucket expiry and Stop.",
 [T+"timing_wheel.go",T+"bucket.go"],[("task re-arming itself before running",T+"timing_wheel.go:ScheduleFunc")],["calls of the scheduler and of the task"])
p("C12","Cancelling a timing wheel is clean at every instant",
 "When the context given to a running wheel is cancelled, the run call returns promptly without panicking, whatever the wheel was doing. Adding, scheduling and stopping timers still complete without blocking before, during and after the cancellation, and running the same wheel again with a fresh context delivers every timer that is still pending.",
 ["schedules","histories","fault_sequences"],"every instant of cancellation relative to bucket expiry, cascade and insertion; restart after cancellation",
 "Cancellation races with the hand-over of an expired bucket; no test cancels a wheel.",
 [T+"timing_wheel.go",T+"delayqueue.go"],[("context case in the run loop",T+"timing_wheel.go:Run"),("closing of the bucket channel",T+"delayqueue.go:channel, take")],["return of Run, completion of AfterFunc"])
p("C13","Waiting for time to pass costs no work",
 "While nothing is due and nothing is pushed, a waiting delay queue or running timing wheel sleeps: the work it does while waiting is bounded by a constant per element or bucket, independent of how long the wait is.",
 ["schedules","inputs","configurations"],"every delay length, tick and wheel size",
 "A test that only looks at outcomes cannot see a busy wait.",
 [D,T+"delayqueue.go"],[("timer armed for the head's remaining time",T+"delayqueue.go:take, "+D+":Take")],["number of clock reads and timer arms while idle"])
p("C14","The concurrent map is linearizable and its iteration is a snapshot",
 "Get, Set, TestAndSet, Del, Len and the two locked iterations behave, under any concurrent use, as if each took effect at one instant between its call and its return; in particular TestAndSet on an absent key succeeds for exactly one caller and returns the present value to the others, and a locked iteration visits exactly the entries of one instant. The zero value is ready to use, no operation races on data, and a panic in an iteration callback leaves the map usable.",
 ["schedules","histories","fault_sequences"],"every concurrent history of operations on the map, panics in callbacks included",
 "No test exists; linearizability quantifies over concurrent histories.",
 ["help/utils/maps.go"],[("read-write lock around each operation","help/utils/maps.go:Map")],["return values and iteration callbacks"])
R="common/container/ringbuffer/"
for i,(nm,f,extra) in enumerate([("fixed-size",R+"fix/fix.go","any capacity of at least 1"),("power-of-two",R+"round/roud.go","the requested capacity rounded up to a power of two")]):
  p("C%d"%(15+i),"The %s ring is a lossless FIFO for one producer, one consumer"%nm,
  "With one producer goroutine and one consumer goroutine, the consumer receives exactly the elements pushed, in order, none lost, duplicated, stale or invented, through single, bulk and copying operations alike. A producer that saw free space and a consumer that saw data can rely on it: no operation then panics, while a push that finds no space and a pop or peek that finds no element panic and change nothing; a bulk push stores a prefix at least as long as the space seen, a bulk read returns no more than asked for and at least what was seen, and the length is always between 0 and the capacity (%s). What a bulk read returned and what a bulk push was given stay the caller's. A reset while neither side is at work leaves an empty ring that works as a new one. There is no data race between the two."%extra,
  ["schedules","histories","configurations"],"every capacity, operation mix and interleaving of the one producer with the one consumer",
  "No test exists; the failures need the two sides to overlap inside one operation.",
  [f],[("indexes advanced by one side each",f+":Push, Pop, MPush, MPop, MPopCopy")],["values popped, Len, Avail"])
U="help/utils/"
B=U+"breakpoint_continue.go"
p("C17","Resumable upload: a merged file is exactly its chunks, or an error",
 "If chunks 0..n-1 of a file were each acknowledged, in any order, with repeats, from concurrent requests, across failed attempts and process crashes and restarts, then a merge that reports success leaves at the reported path exactly their concatenation in numeric order, whatever was at that path before, also when merged more than once. If a chunk is missing or any read or write fails the merge reports an error, and a chunk upload acknowledges only content that was stored completely. The path of the merged file never holds a part of one: whatever fails or crashes, it keeps what it held until a complete merge takes its place. Once faults have stopped, merging an upload whose every chunk is acknowledged succeeds. Removing one upload's chunks removes all of those and nothing else.",
 ["schedules","crash_points","histories","fault_sequences","inputs"],"every chunking, arrival order, concurrency, retry, crash point and I/O error; several uploads side by side",
 "No test exists; corruption appears only with failed reads or writes, a repeated merge, or a crash between steps.",
 [B],[("chunk files per upload directory",B+":BreakPointContinue, makeFileContent"),("numbered merge",B+":MakeFile")],["file contents, returned path and error"])
F=U+"files.go"
p("C18","Copying a file reports success only for an exact copy",
 "When a file copy reports success the destination's content equals the source's content exactly, whatever the destination held before, and the reported count is the number of bytes copied; any failing open, read, write or close on the way is reported as an error. The source is never modified.",
 ["fault_sequences","inputs","crash_points"],"every file size, prior destination content, short read or write, I/O error and full disk at any point",
 "No test exists; needs injected I/O faults and pre-existing destinations.",
 [F],[("stream copy",F+":CopyFile")],["destination content, count, error"])
p("C19","Moving a file never loses it",
 "At every instant, including after a crash at any point and after any I/O error, the moved content is complete at its source path or complete at its destination path, never partial or absent at both. Success means it is at the (named, non-empty) destination only, with missing parent directories created; failure means it is still at the source. Of several concurrent moves of one file at most one succeeds. Once faults have stopped, a move within one device to a fresh path succeeds.",
 ["crash_points","fault_sequences","schedules","inputs"],"every crash point and I/O error inside the move, concurrent observers, missing parent directories",
 "No test exists; needs crashes and faults inside the operation.",
 [F],[("atomic rename after creating parents",F+":FileMove")],["both paths' content, error"])
Z=U+"zip.go"
p("C20","Zip and unzip report success only for complete, faithful results",
 "An archive whose creation reported success opens, and holds exactly the listed files with their exact contents under the rewritten names; an extraction that reported success has created every directory and every file of the archive with exactly its archived content, and reports their paths. A failing open, read, write, close or directory creation, a full disk, or a corrupted archive byte that makes the archive unreadable is reported as an error instead, and so is an archive with a file and a directory of the same name. Whether it succeeds or fails, an extraction leaves the content of every file that no entry names as it was. When nothing fails, packing readable files and extracting a sound archive succeed.",
 ["fault_sequences","inputs","crash_points"],"every file set, I/O error or full disk at any operation, every flipped or truncated archive byte",
 "No test exists; write-back errors surface only at close, which needs fault injection.",
 [Z],[("zip writer and its closing",Z+":ZipFiles"),("entry extraction",Z+":Unzip")],["archive and extracted contents, error"])
p("C21","Extraction never writes outside its destination directory",
 "Whatever names and types of entries an archive contains (parent references, absolute names, directory entries, duplicates), and whatever faults happen meanwhile, extraction creates or modifies nothing outside the destination directory; an archive holding an entry that would escape is answered with an error.",
 ["inputs","fault_sequences"],"every archive a hostile peer can send, every destination form (relative, absolute, with dots or trailing slash)",
 "No test exists; hostile archives are not sampled.",
 [Z],[("join of destination and entry name",Z+":Unzip")],["set of paths created or modified"])
C=U+"csv.go"
p("C22","CSV append adds exactly its row and never damages earlier rows",
 "A CSV write that reports success appends exactly the given row after all rows already in the file (each ended by a newline), creating the file if needed, also when several goroutines append to the same file at once; reading the file back gives all the rows, in order, with their exact fields (for rows of one width, not a single empty field, without carriage returns). A failed write is reported as an error, leaves the rows written before intact and, unless cleaning up fails as well, leaves nothing of its own row. When nothing fails, writing and reading back succeed.",
 ["schedules","fault_sequences","inputs","histories"],"every row of fields, every interleaving of appenders, every I/O error and full disk",
 "No test exists; lost rows need interleaved appends or failing writes.",
 [C],[("seek to end and buffered write",C+":WriteCsv"),("whole-file read",C+":ReadCsv")],["rows read back, error"])
p("C23","Whole-file readers give the whole content's answer or a failure",
 "Digests of a file or of a stream, reading a CSV file and encoding an image file are computed over the complete content, however the reads are split and whatever size the file system states; if opening or reading fails at any point the answer is the documented failure (error, empty string or nil), never the answer for a part of the content. When nothing fails there is an answer.",
 ["fault_sequences","inputs"],"every content, split into short reads, every read error at any offset",
 "No test exists; needs readers that fail midway.",
 [F,U+"md5.go",C],[("error of the copy checked",F+":FileMd5, "+U+"md5.go:ComputeFileMD5"),("whole-file read",C+":ReadCsv, "+F+":ImageFileToBase64")],["returned digest, rows, string, error"])
p("C24","Directory helpers: success means complete, and only the target is touched",
 "Directory creation that reports success leaves every named directory in place, also when several goroutines create overlapping trees at once, and fails rather than replace a file. Directory scanning that reports success lists exactly every non-directory below the root once, and reports an error when any directory below could not be read. Deletion that reports success removes the whole target and nothing else, never what a link inside leads to. When nothing fails they succeed.",
 ["schedules","fault_sequences","inputs"],"every directory tree, concurrent creators, I/O error at any operation",
 "No test exists; partial listings and half-created trees need faults or races.",
 [F],[("recursive scan",F+":ScanDir"),("check then create",F+":CreateDir, MkDir"),("recursive delete",F+":DeLFile")],["tree contents, listing, error"])
p("C25","An existing path is never reported missing because of an I/O fault",
 "The existence checks report a path as absent only when it does not exist: if the status of an existing path cannot be read, the checks that return an error return it and the ones that return only a boolean answer that the path exists. Without a fault a path that exists, or is missing from an existing directory or below missing ones, for the whole call is reported as such, directories and files told apart, and a path that changes meanwhile as it was at some moment of the call.",
 ["fault_sequences","schedules","inputs"],"every failing status call, concurrent creation and removal of unrelated paths",
 "No test exists; needs failing status calls.",
 [F],[("not-exist test on the stat error",F+":PathExists, FileExist, FileIsExisted")],["returned booleans and errors"])
G="gorm_tools/gorm.go"; GU="gorm_tools/update.go"
p("C26","Batch insert stores every record exactly once with all its fields, or errs",
 "When a split or batch insert reports success every given record is in the table exactly once, in order, with every one of its fields (an explicit null stays null, whatever the column's default), for any number of records, within the driver's 65535-placeholder limit per statement. When a statement fails, the failure is returned, nothing after it is attempted and no statement is sent twice; run inside a transaction that the caller rolls back on error, the table is left unchanged.",
 ["fault_sequences","inputs","histories","configurations"],"every record shape (omitted fields included) and number of records, a failure of any statement before or after it took effect, transaction or none",
 "No test exists; needs a database that fails at a chosen statement.",
 [G],[("splitting by placeholder count",G+":SplitInsertTableRecords"),("column list and value tuples",G+":BatchInsertTableRecords")],["statements received by the database, rows stored, error"])
p("C27","Batch update gives each id its own values and touches nothing else",
 "When a split or batch update reports success, each named row has exactly the values given for it, every other row and column is unchanged, for any number of ids and whatever the order in which the update set is visited. Update sets whose rows name different fields are refused with an error, every time, without changing anything in their batch; a failing statement is reported and no later statement is attempted.",
 ["schedules","fault_sequences","inputs","configurations"],"every update set, every visiting order of the maps, a failure of any statement",
 "No test exists; the outcome can depend on random map order, which tests do not control.",
 [GU],[("CASE expression per field",GU+":BatchUpdateTableFieldWithoutVersionByID"),("splitting",GU+":SplitUpdateTableFieldWithoutVersionByID")],["statements received by the database, rows, error"])
p("C28","Single-statement table helpers change only the addressed rows",
 "Insert, update and delete helpers addressed by id, by list of ids or by condition change exactly the addressed rows and no others, an empty id list or empty condition never changes any row, and a soft delete marks exactly the addressed row with the current time. The caller's conditions, updates and id lists come out unchanged. A statement failure is always returned, and success is reported only for a statement that the database accepted.",
 ["fault_sequences","inputs","histories"],"every table content, id list, condition and update set, a failure of any statement",
 "No test exists; needs a database that fails on demand and whose full content is compared.",
 [G],[("where clause on every statement",G+":DelByTableNameAndId, UpdateByTableNameAndId, UpdateByTableNameAndIds, UpdateByTableNameAndWhere, SoftDelByTableNameAndId, InsertToTable")],["rows after the call, error"])
p("C29","Random strings do not repeat, whatever the clock or the concurrency",
 "Random strings have exactly the requested length and only characters of the requested kind, and strings drawn by different calls differ (up to chance), also when the clock returns the same reading to several calls, steps back to an earlier reading, many goroutines draw at once, or the program is started again at another clock reading; a long enough string contains every character of its kind.",
 ["schedules","fault_sequences","inputs"],"every interleaving of callers, every clock reading repeated or stepped back",
 "No test exists; repeats need equal clock readings or overlapping calls.",
 [U+"rand.go"],[("seeding of the generator",U+"rand.go:RandStr")],["strings returned"])
p("C30","Encryption leaves the caller's memory alone, also under concurrency",
 "Encrypting or decrypting reads only its input and writes only to freshly returned memory: bytes of the caller's buffers, including spare capacity beyond the given slice, never change. Goroutines working on neighbouring parts of one shared buffer, or on the same input, at the same time each get the result they would have got alone, with no data race.",
 ["schedules","inputs"],"every slice capacity and length, every interleaving of callers sharing a buffer",
 "No test exists; the interference needs a shared backing array and overlapping calls.",
 [U+"md5.go"],[("padding into a separate buffer",U+"md5.go:AesEncrypt, pkcs7Padding")],["results, caller's buffers"])
p("C31","Shell execution reports success only for a command that succeeded",
 "Running a shell command returns exactly what the command wrote to standard output and no error if the shell could be started and ended with success, and otherwise no output and an error, carrying what it wrote to standard error; the shell is given exactly the command followed by an exit, on its standard input. Concurrent executions do not mix their outputs. Reloading sends a hangup to exactly the parent process and reports a failure to do so.",
 ["fault_sequences","schedules","inputs"],"every failure to start, exit status or death by signal, split output, interleaving of executions",
 "No test exists; needs child processes that fail on demand.",
 [U+"cmd.go"],[("error of the run checked",U+"cmd.go:ShellExec")],["returned buffer and error, child's input"])
p("C32","The date directory names a moment within the call",
 "The date path returned is the local date (year/month/day) of some single instant between the call and its return, also when the call straddles midnight, a month or a year boundary, or the clock steps.",
 ["schedules","fault_sequences","inputs"],"every instant of call, stall inside the call and clock step",
 "No test exists; needs a clock that crosses midnight inside the call.",
 [U+"times.go"],[("one clock reading formatted",U+"times.go:GetTimeDir")],["returned string"])
p("C33","File helpers give back every descriptor they open, whatever fails",
 "When a file helper (copy, move, digest, read, CSV, zip, unzip, chunk upload and merge, scan, create, delete) has returned, every file it opened is closed again, whether it reports success or an error and whichever file system call failed on the way, so that a long-running process never runs out of descriptors.",
 ["fault_sequences","schedules","inputs"],"every helper, every failing file system call, concurrent callers",
 "No test makes a file system call fail or counts descriptors.",
 [F,Z,C,B],[("deferred closes",F+":CopyFile, FileMd5; "+Z+":Unzip, ZipFiles; "+C+":ReadCsv, WriteCsv; "+B+":makeFileContent, MakeFile")],["open descriptors of the process"])
p("C34","Stateless helpers can be called from any goroutine",
 "The encoding, digest, string, integer, map, mathematics, hash, URL and file-name helpers keep nothing between calls: whatever calls overlap or went before, each returns exactly what the same call returns alone in a fresh process, leaves its arguments (also the spare capacity behind a slice and maps shared with other callers) as they were, and what it returned never changes afterwards or depends on what the caller does with its own copy.",
 ["schedules","histories","inputs"],"every set of overlapping and earlier calls, shared arguments, schedules",
 "The few existing tests make one call each in one goroutine.",
 [U+"base64.go",U+"md5.go",U+"strings.go",U+"ints.go",U+"maps.go",U+"math.go",U+"url.go",F,"common/math/math.go","common/hash/hash.go"],
 [("no package state",U+"md5.go:MD5V; "+U+"strings.go"),("own buffers",U+"base64.go")],["returned values, arguments and earlier results"])
p("C35","Containers keep to themselves and to their models, also side by side",
 "Lists (also the zero list), deques, stacks, sets, heaps (binary, n-ary, priority queue, keyed and removable) and growing rings give in every operation the result of the corresponding sequential model, while other goroutines use other instances without any lock, and while a shared instance is read by several goroutines under a read lock and changed under a write lock: instances share nothing, and reading operations change nothing.",
 ["schedules","histories","inputs"],"every operation sequence over several instances, every interleaving of owners, readers and locked writers",
 "The containers have no tests; needs overlapping use of instances and readers.",
 ["common/container/list/list.go","common/container/deque/deque.go","common/container/stack/stack.go","common/container/set/set.go",HP,"common/container/heap/heapn.go","common/container/pqueue/pqueue.go","common/container/meap/maep.go","common/container/reap/reap.go",R+"unbounded/unbounded.go"],
 [("no state outside the instance","common/container/list/list.go; "+HP),("reads without writes","common/container/heap/heapn.go:Peek; "+R+"unbounded/unbounded.go:Peek")],["results of the operations"])
p("C44","The Bloom filter never denies an added element and keeps its rate",
 "Whatever instant the hash seeds came from and however the clock steps, an element added to a Bloom filter since the last clear is always reported as contained, also to readers running side by side; a filter that is new or cleared contains nothing; and a filter filled with as many elements as it was made for reports no notably larger share of absent elements than the requested one.",
 ["schedules","histories","inputs"],"every element set, capacity, rate, seeding instant, interleaving of locked writers and concurrent readers",
 "The filter has no test; its hash functions depend on the clock.",
 ["common/filter/bloom/bloom.go"],[("seeds from the clock, bits set for every seed","common/filter/bloom/bloom.go:New, Add, Contains, pos")],["answers of Contains"])
p("C45","Encrypted data survives, or its damage is answered without a panic",
 "Data encrypted with AES decrypts under the same key to exactly the plaintext, for every plaintext and valid key; what lost, torn, truncated, extended, reordered or flipped storage or transport made of it, or another key, decrypts to an error or to what AES-CBC makes of it: an error for every length that is not a positive multiple of the block and every padding length outside 1 to 16, and never a panic.",
 ["fault_sequences","inputs","schedules"],"every message, key, damage in storage or transit, interleaving of peers",
 "The package has no test of damaged ciphertext; the damage is at arbitrary places.",
 [U+"md5.go"],[("padding and unpadding",U+"md5.go:pkcs7Padding, pkcs7UnPadding"),("length check",U+"md5.go:AesDecrypt")],["returned bytes and errors"])
p("C48","Damage on the way is noticed by the digests",
 "A content that was sent with its digest, as it is or as base64 text, and arrives undamaged is accepted by the chunk check, at every length; whatever lost, torn, truncated, extended, reordered, mixed-up or flipped transport or storage made of content or digest, the check accepts it exactly when the digest is still that of the content. The digest helpers for strings, bytes and streams all give the MD5 of everything they were given, however a stream is split, and base64 text decodes to exactly what was encoded, also when many peers send and check at the same time.",
 ["fault_sequences","inputs","schedules"],"every content and length, damage in storage or transit, splitting of the stream, interleaving of peers",
 "No test checks a digest or damages anything; the damage is at arbitrary places, the lengths are arbitrary.",
 [U+"md5.go",U+"breakpoint_continue.go",U+"base64.go"],[("comparison of digests",U+"breakpoint_continue.go:CheckMd5"),("digests",U+"md5.go:Md5Crypt, ComputeFileMD5, Md5; "+U+"breakpoint_continue.go:MD5V")],["returned digests, verdicts and bytes"])
p("C36","Nothing is left running",
 "No goroutine, timer or process outlives its use: once every take has returned and every output channel's context was cancelled and its consumer has drained it, once a wheel's run has returned and its tasks have ended, and once a shell or file helper has returned, no goroutine the library started is alive, no timer it armed is pending, every process it started has been waited for, and no file is left that the helper was not asked to make (unless removing it failed). While waiting, a delay queue or wheel keeps no more than a few timers per waiter armed, however many elements or timers were added.",
 ["schedules","fault_sequences","histories"],"every instant of push, expiry, cancellation, restart and failure",
 "No test counts goroutines, timers, processes or files, or cancels anything.",
 ["common/timer/delayqueue/delayqueue.go","common/timer/timingwheel/delayqueue.go","common/timer/timingwheel/timing_wheel.go",U+"cmd.go",F,Z],
 [("timers stopped on every way out","common/timer/delayqueue/delayqueue.go:Take; common/timer/timingwheel/delayqueue.go:take"),("goroutine ends with its context","common/timer/delayqueue/delayqueue.go:Channel"),("process waited for",U+"cmd.go:ShellExec")],["live goroutines, pending timers, unwaited processes"])
p("C37","Database helpers act through the handle they are given and nothing else",
 "A database helper called with a handle runs every statement in that handle's transaction when it is in one (a rollback undoes all of it, the helper never ends the transaction), under that handle's context, narrowed by the conditions and session settings already on it, and does nothing but report the error through a handle that has failed. A context cancelled or expired before or during the call stops the helper with an error: no statement follows a failed one, and a single-statement helper leaves nothing half done. When a helper returns, no transaction it opened is still open, its arguments are unchanged, and the handle can be used again, or by other clients at the same time, with the results of a fresh one.",
 ["schedules","fault_sequences","histories"],"every helper, kind of handle, instant of cancellation, statement failure and order of calls by concurrent clients",
 "The tests call no database helper.",
 [G,GU],
 [("every statement through the given *gorm.DB",G+":InsertToTable; UpdateByTableNameAndId; BatchInsertTableRecords"),("chunks through the same handle",G+":SplitInsertTableRecords; "+GU+":SplitUpdateTableFieldWithoutVersionByID")],["transaction and context of each statement, open transactions, rows"])
# not simulation targets
def na(id,title,st,files,mech,q):
    p(id,title,st,["inputs"],q,"The package has no test; the claim is over all inputs or operation sequences.",files,mech)
na("C40","List, deque, stack and set behave as their sequence and set models","Every sequence of operations on the linked list, deque, stack and set gives the results of the corresponding mathematical sequence or set, foreign or removed elements leaving a list unmodified.",["common/container/list/list.go","common/container/deque/deque.go","common/container/stack/stack.go","common/container/set/set.go"],[("ring with sentinel","common/container/list/list.go")],"every operation sequence of one goroutine")
na("C41","Heaps and the priority queue always yield a least element","After any sequence of operations the binary heap, n-ary heap and priority queue hold exactly the multiset pushed minus the popped, and peek and pop give a least element under the ordering.",[HP,"common/container/heap/heapn.go","common/container/pqueue/pqueue.go"],[("sift up and down",HP)],"every operation sequence of one goroutine, every ordering and arity")
na("C42","The keyed and removable heaps stay consistent with their index","After any sequence of pushes, updates, removals and pops, lookups by key or handle agree with the heap's content, and the least element comes first.",["common/container/meap/maep.go","common/container/reap/reap.go"],[("index kept on swap","common/container/meap/maep.go:swap")],"every operation sequence of one goroutine")
na("C43","The growing ring buffer is an unbounded FIFO","Every sequence of single and bulk pushes, pops and growths behaves as an unbounded FIFO queue of the pushed elements.",[R+"unbounded/unbounded.go"],[("migration on growth",R+"unbounded/unbounded.go:Grow")],"every operation sequence of one goroutine (documented as not thread-safe)")
na("C46","Masking functions hide what they must","The masked form of a phone number, name, card or e-mail never shows the characters in the masked positions and keeps the others.",[U+"strings.go"],[("rune replacement",U+"strings.go")],"every string")
na("C47","Integer helpers agree with arithmetic","Splitting, rounding to powers of two and bit-search helpers agree with their mathematical definitions on their whole domain.",["common/math/math.go"],[("bit length","common/math/math.go:FindLastBitSet")],"every integer in the domain")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
