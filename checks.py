"""The table of checks: which monitors decide which property, how much they run, what they count."""

T_CORO = "runtime monitor over random coroutine programs on a virtual-time dispatcher, ASan+UBSan"
TRUST = "Holds for the generated histories only; trusts Qt 6.4.2, gcc 13.3 and the sanitizers. "

CHECKS = {}
NOT_APPLICABLE = []
NOTES = "See DESIGN.md. Every check rebuilds instrumented static libraries from /repo's working tree."


def check(prop, technique, note, rule, runs, **kw):
    for r in runs:
        r.setdefault("variant", "asan")
    CHECKS[prop] = dict(technique=technique, note=TRUST + note, rule=rule, runs=runs, **kw)


RULE_TASK = ("Random programs of up to 18 coroutines (Task and LazyTask of void, int, QString, move-only and converted results) that spawn, keep, move, swap, drop and "
             "await each other, gates, timers and posted events; non-trivial: at least two coroutines and one await; distinct by the hash of the event trace.")
for p, what in (("C01", "outcome delivery"), ("C02", "frame, argument and result lifetime"), ("C03", "start, finish and isReady()")):
    check(p, T_CORO, "Monitors %s of every coroutine in every generated program." % what, RULE_TASK,
          [dict(target="task_core", quick=100000, thorough=2000000, scenarios=["shared-result"] if p == "C01" else [])], min_distinct=1000)

check("C04", T_CORO, "Every callback call, argument, order, error routing, end of chain and released capture is checked against a model of the chain.",
      "Chains of 1-6 then() links (plus branches) on eager and lazy tasks with random callback shapes, outcomes, waits and attachment times; non-trivial: at least two links; distinct by event-trace hash.",
      [dict(target="task_then", quick=160000, thorough=2000000)], min_distinct=1000)
check("C05", T_CORO, "A stuck event loop is detected exactly (virtual time), so a lost wake-up is a violation and not a timeout.",
      "Up to 9 waitFor() calls nested up to 4 deep from coroutine bodies and timer handlers, over tasks, lazy tasks and plain awaitables of void/int/move-only results; non-trivial: at least two operations waited for; distinct by event-trace hash.",
      [dict(target="task_wait", quick=120000, thorough=1000000)], min_distinct=1000)
check("C06", T_CORO, "Checks number, time, argument and context of every callback call, and that captures are released.",
      "Up to 16 connections of all callback forms on up to 3 contexts that die at random times (also inside callbacks); non-trivial: at least two connections; distinct by event-trace hash.",
      [dict(target="task_wait", quick=150000, thorough=1000000)], min_distinct=1000)
check("C07", "runtime monitor over random generator programs and iteration histories, ASan+UBSan", "Counts every run of the coroutine against what was asked for, every value, exception and destruction.",
      "Generators of int, references and a move-only type with random values, nested generators and ways to end, iterated by range-for or step by step while being moved, move-assigned and dropped; non-trivial: at least two values; distinct by event-trace hash.",
      [dict(target="generators", quick=60000, thorough=3000000)], min_distinct=1000)
check("C08", T_CORO, "Producer and consumer suspensions interleave on the virtual clock; every run of the producer is checked against demand.",
      "1-3 concurrent consumers (QCORO_FOREACH or by hand) of async generators that await sleeps, gates, tasks and nested generators; moves, swaps, move-assignments and abandonment at yields; non-trivial: at least two values; distinct by event-trace hash.",
      [dict(target="generators", quick=160000, thorough=2000000)], min_distinct=1000,
      assumptions=["An async generator that is suspended in an await of its own is not destroyed (its consumer is suspended on it and cannot go away)."])
check("C09", T_CORO, "Every end of a wait is compared with the log of emissions and the virtual clock; quiet points detect lost wake-ups exactly.",
      "Up to 14 waits (9 signal shapes, with and without timeout, eager and late awaits) on 1-2 emitters against bursts, timer-driven emissions, re-entrant emissions and destruction of the emitter; non-trivial: at least two waits; distinct by event-trace hash.",
      [dict(target="signals", quick=160000, thorough=2000000)], min_distinct=1000,
      assumptions=["A wait without a timeout whose object is destroyed first is never resumed, as documented."])
check("C10", T_CORO, "Every yielded value is compared with the log of emissions; quiet points detect undelivered emissions exactly.",
      "Up to 3 listeners whose consumers wait, sleep, wait for gates or emit themselves between steps, with timeouts that race emissions; non-trivial: at least two emissions and one listener; distinct by event-trace hash.",
      [dict(target="signals", quick=32000, thorough=1500000)], min_distinct=1000,
      assumptions=["What a listener does after its object was destroyed is specified only as far as its timeout goes."])
check("C11", T_CORO, "Compares each resumption with the virtual clock and with the timeouts that the timer itself emitted.",
      "Sleeps in 9 forms (durations from microseconds to seconds, negative ones, four clocks) and waits on 1-3 timers that are started, stopped, re-armed and changed by the harness and by the awaiting coroutines; non-trivial: at least two waits; distinct by event-trace hash.",
      [dict(target="signals", quick=24000, thorough=1500000)], min_distinct=1000,
      assumptions=["Time is the event loop's: the accuracy of Qt's own timers against the wall clock is not decided.", "Durations fit a QTimer (about 24 days)."])
check("C12", T_CORO, "Futures fulfilled by promises, continuations, thread pools and threads; every resumption is compared with the state and outcome of the future, quiet points detect lost wake-ups.",
      "1-5 futures of void, int, QString, a copyable and a move-only type, fulfilled in 6 ways (results out of order, exceptions, cancellation, abandoned promises, other threads), with up to 20 waits of 6 forms; non-trivial: at least two waits; distinct by event-trace hash.",
      [dict(target="future", quick=80000, thorough=1000000)], min_distinct=1000,
      assumptions=["result() of a future that was cancelled without any result, and taking a result twice, are undefined by Qt and not exercised."])
check("C13", "runtime monitor over random programs with real threads, ASan+UBSan", "Every resumption is compared with what is known of the threads; lost wake-ups are detected after the thread is known to have started or ended.",
      "1-3 threads with and without an event loop that start, work and end while up to 20 waits with and without timeouts begin and up to 4 coroutines hop between them, sleep and await timers there; non-trivial: at least two waits or hops; distinct by event-trace hash.",
      [dict(target="thread", quick=16000, thorough=1000000)], min_distinct=1000,
      assumptions=["Coroutines are moved only to threads that run an event loop or will be started."])
T_IO = "runtime monitor over scripted devices on a virtual-time dispatcher, ASan+UBSan"
check("C14", T_IO, "Every result is compared byte for byte with what arrived at the device; quiet points detect lost wake-ups exactly.",
      "One reader with 9 forms of read and up to 8 observers per device, on 1-2 devices (buffered, unbuffered, not readable) whose bytes arrive in pieces of 1 to 40000 bytes, which are closed or destroyed at any point; non-trivial: at least two operations; distinct by event-trace hash.",
      [dict(target="iodevice", quick=24000, thorough=1000000)], min_distinct=1000,
      assumptions=["One coroutine at a time consumes the data of a device (QIODevice itself splits the bytes arbitrarily between two readers).", "QIODevice::readLine(max) itself may return one byte less than max."])
check("C15", T_IO, "The bytes accepted and passed on by the device are compared with those written, their emissions with each result; quiet points detect lost wake-ups exactly.",
      "Up to 40 writes (0 to 30000 bytes) by concurrent writers and bytesWritten waits on 1-2 devices (buffered, unbuffered, synchronous, accepting only a part, not writable) that pass bytes on in random pieces and are closed or destroyed at any point; non-trivial: at least two operations; distinct by event-trace hash.",
      [dict(target="iodevice", quick=24000, thorough=1000000)], min_distinct=1000,
      assumptions=["The wrapper returned by qCoro(device) outlives a write that suspends (write() is a member coroutine of it; awaiting it in the expression that made it satisfies this)."])
T_REAL = "runtime monitor over real %s polled by a virtual-time dispatcher, ASan+UBSan"
check("C16", T_REAL % "child processes", "Every result is compared with the signals of the process, every byte read with what the child wrote; lost wake-ups are detected once the process is known to have started, ended or failed.",
      "1-2 processes started (and restarted) with random scripts of output, input, waiting, exits, crashes and four ways of failing to start, advanced step by step, with up to 30 waits with and without timeouts, one reader and one writer each, killed and terminated at random; non-trivial: at least two operations; distinct by event-trace hash.",
      [dict(target="process", quick=6000, thorough=200000)], min_distinct=1000,
      assumptions=["Awaiting the QProcess itself (co_await process) is awaiting a plain QIODevice (C14) and does not see the end of the process.", "One coroutine at a time reads from a process."])
check("C17", T_REAL % "TCP and local sockets", "Every result is compared with the state changes of the socket, every byte read with what the other side wrote; lost wake-ups are detected once the socket is known to have connected, ended or received data.",
      "A client that connects (by address, by name, by path) to a server, to a closed port or path, to a host that does not answer or does not exist; up to 40 waits with and without timeouts, a reader and up to two writers per side, disconnect/close/abort on either side at random; non-trivial: at least three operations; distinct by event-trace hash.",
      [dict(target="sockets", quick=12000, thorough=400000)], min_distinct=1000,
      assumptions=["Awaiting the socket itself (co_await socket) is awaiting a plain QIODevice (C14) and does not see the end of the connection.", "Completeness of a stream is required when the sender closes gracefully and the reader neither closes nor sends (TCP itself drops data otherwise).", "waitForConnected() on a socket that is not connecting waits for someone to connect it."])
check("C18", T_REAL % "TCP servers", "Every connection handed out is compared with the order of connecting; lost wake-ups are detected while a connection is pending; each connection must deliver what its client sent.",
      "Up to 30 waits by concurrent acceptors, with and without timeouts, against single and batched connects (up to 12, with limits on pending connections); non-trivial: at least two connections and two waits; distinct by event-trace hash.",
      [dict(target="sockets", quick=16000, thorough=400000)], min_distinct=1000,
      assumptions=["A server that is closed while a coroutine waits without a timeout never resumes it: QTcpServer does not report being closed."])
check("C19", "runtime monitor over scripted replies on a virtual-time dispatcher and real HTTP replies, ASan+UBSan", "Every result is compared with what the reply reported, every byte read with the body; lost wake-ups are detected once the reply has finished or data are available.",
      "1-3 replies whose body arrives in pieces of 1 to 30000 bytes, with errors, aborts and ends at any point (one case in 8: a real HTTP reply with four kinds of framing, cut short or refused), with waits of 4 forms, with and without timeouts, and a reader each; non-trivial: at least two operations; distinct by event-trace hash.",
      [dict(target="reply", quick=24000, thorough=800000)], min_distinct=1000,
      assumptions=["Awaiting the reply itself is awaiting its end, reading it through qCoro(QIODevice*) is C14.", "A reply that is destroyed unfinished resumes nobody.", "A reported error ends a pending read without data; the rest can still be read."])
check("C20", T_REAL % "web sockets", "Every value, answer and end is compared with what the socket itself reported; lost wake-ups are detected whenever nothing more is to be delivered.",
      "A socket that is opened (and reopened) to a scripted peer with five kinds of handshake, a closed port or an invalid URL, receives fragmented text and binary messages of up to 70000 bytes, pings, pongs, close frames, garbage and drops in random segments, with up to 4 streams that pause, time out or are abandoned and any number of pings; non-trivial: at least three operations and two events; distinct by event-trace hash.",
      [dict(target="websocket", quick=8000, thorough=200000)], min_distinct=1000,
      assumptions=["A ping is answered by any pong that arrives after it was sent (QWebSocket does not match them; RFC 6455 lets a peer answer only the latest ping).", "The socket outlives the waits for it."])
check("C21", T_REAL % "web socket servers", "Every connection handed out is compared with the order in which the handshakes were completed; lost wake-ups are detected while a connection is pending.",
      "Up to 30 waits by concurrent acceptors, with and without timeouts, against single and batched connects (with limits on pending connections, clients that hang up or do no handshake), other code that takes connections, closing and listening again; non-trivial: at least two connections and two waits; distinct by event-trace hash.",
      [dict(target="websocket", quick=16000, thorough=300000)], min_distinct=1000,
      assumptions=["A server that is destroyed while a coroutine waits without a timeout never resumes it.", "A server that is closed and listens again resumes, with nothing, those who waited when its closed() signal was delivered."])
check("C22", "runtime monitor over scripted D-Bus replies on a private connection, ASan+UBSan", "Every reply is compared with the one scripted for its call; lost wake-ups are detected once the call has finished; the real D-Bus thread races the waits.",
      "Up to 60 calls answered out of order with values, pairs, nothing, errors or wrong types, or not in time, awaited in 11 forms by any number of coroutines before, while and after the answer arrives, now and then with the connection cut; non-trivial: at least two calls and two waits; distinct by event-trace hash.",
      [dict(target="dbus", quick=24000, thorough=600000)], min_distinct=1000,
      assumptions=["All awaiters of one call agree on the types that they expect (Qt keeps them with the call)."])
check("C23", T_CORO, "Every call of a JavaScript function and every change of a listener is compared with the outcome of the task; at every quiet point nothing may be missing.",
      "Up to 8 QmlTasks made from tasks of five types, a future and a timer (some fail), copied and dropped, with functions and await() listeners attached from C++ and JavaScript in up to two engines before, while and after they finish and from each other's callbacks, engines and listeners destroyed, garbage collected; non-trivial: at least two functions or listeners; distinct by event-trace hash.",
      [dict(target="qml", quick=16000, thorough=500000)], min_distinct=1000,
      assumptions=["A function is never called, and a listener keeps its value, if the task fails (QML has no way to receive the error)."])
check("C24", T_CORO, "Every finished() signal (also one emitted while the response is being made) and every texture is compared with what the coroutine of that request returned.",
      "Up to 40 requests whose coroutines finish at once, later, on demand, with an image, without one or with an exception, cancelled, destroyed and made again at random times and inside finished(); one case in 40 runs Qt Quick's own reader thread with pixmaps; non-trivial: at least two requests; distinct by event-trace hash.",
      [dict(target="image", quick=12000, thorough=300000)], min_distinct=1000,
      assumptions=["Failing coroutines throw classes derived from std::exception."])
check("C25", "differential runtime monitor: generated test functions with QtTest's macros and with the QCORO_* macros, ASan+UBSan", "Control flow after each macro, number of evaluations, and type, line, file, message and compared values of every recorded incident must agree.",
      "Test functions of up to 6 macros out of 37 uses of the 16 macros (operands with and without co_await, conditions that hold at once, later, after the timeout or never, exceptions of the right, another or an unknown type, expected failures, data rows), run by QTest::qExec once with QtTest's and once with QCoro's macros, resumed from the event loop or not; non-trivial: at least two macros or rows; distinct by event-trace hash.",
      [dict(target="testmacros", quick=4000, thorough=60000, scenarios=["try-after-failure", "try-undefined"])], min_distinct=500,
      assumptions=["Unknown exceptions: QtTest's macro rethrows them; only the recorded failure and the end of the function are compared."])
check("C26", "ThreadSanitizer (with the hand-over of Qt's posted events described to it) and ASan+UBSan over random programs on several threads, with an outcome monitor",
      "The threads' own queues synchronise nothing but the job handed over, so that a data race means that the library does not synchronise; every coroutine must start once, end once, resume each awaiter once with the outcome and free everything, decided when every thread is idle.",
      "2-4 threads (std::thread with lock-free queues; QThread with event loops), up to 120 tasks, lazy tasks and generators per case that hop between threads, are awaited, dropped, polled and given callbacks in other threads than those that run them, share up to 3 tasks between all, wait for signals and futures of other threads; waitFor() on tasks that finish elsewhere; non-trivial: more than two coroutines and one hop; distinct by event-trace hash.",
      [dict(target="threads", variant="tsan", hang=30, quick=3000, thorough=120000), dict(target="threads_qt", variant="tsan", env={"QT_NO_GLIB": "1"}, hang=30, quick=3000, thorough=100000),
       dict(target="threads", hang=30, quick=4000, thorough=100000), dict(target="threads_qt", hang=30, quick=4000, thorough=100000)], min_distinct=1000,
      assumptions=["One Task, LazyTask, generator or wrapper object is not used by two threads at the same time, except that a Task may be awaited, polled and given callbacks by several while it runs.", "Interleavings are those that the scheduler, random delays and 8 cores produce."])

