#!/usr/bin/env python3
"""The properties, in a form that is easy to edit; writes properties.jsonl."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))


prop("C01", "Awaiting delivers the outcome exactly once, when it exists",
     "A coroutine that awaits a Task, a LazyTask, or any supported custom awaitable is resumed exactly once, not before the awaited operation has finished and without giving up control when it already had; it receives exactly the value returned or the exception thrown; returning an object that outlives the coroutine copies it and leaves it as it was. This holds for any number of coroutines awaiting the same task, in whatever order coroutines are started, awaited, moved, dropped and finished. A finished operation never leaves a coroutine that awaits it suspended.",
     ["programs", "schedules", "histories"], "every program of coroutines awaiting each other (values, exceptions, move-only results), every order of external events, timers, drops and moves",
     "The tests await a handful of fixed two- or three-coroutine chains; the property quantifies over every graph of awaiting coroutines and every order of their completion, including several awaiters of one task and completions during another coroutine's resumption.",
     ["qcoro/impl/taskbase.h", "qcoro/impl/taskfinalsuspend.h", "qcoro/impl/taskawaiterbase.h", "qcoro/impl/taskpromise.h", "qcoro/impl/lazytask.h", "qcoro/qcorotask.h"],
     [("final suspend resumes every registered awaiter", "qcoro/impl/taskfinalsuspend.h"), ("promise stores value or exception", "qcoro/impl/taskpromise.h"), ("awaiter registers itself or passes through when done", "qcoro/impl/taskawaiterbase.h")])
prop("C02", "Coroutine frames, arguments and results are freed exactly once, in time",
     "The state of a Task or LazyTask coroutine (its arguments, local variables, and its stored result or exception) stays alive while the coroutine has not finished or a task object refers to it, and is destroyed exactly once, as soon as it has finished (or can never start) and no task object refers to it. Dropping the task object of a running coroutine neither cancels nor frees it. No sequence of moves, self-moves, swaps, drops and awaits leaks memory or touches freed memory.",
     ["programs", "schedules", "histories"], "every program of coroutines and every sequence of moves, drops and awaits of their task objects, at every stage of each coroutine",
     "No test observes when a frame is destroyed; leaks, early frees and double frees depend on the order in which the task object dies, the coroutine finishes and awaiters consume the result.",
     ["qcoro/impl/taskbase.h", "qcoro/impl/taskpromisebase.h", "qcoro/impl/taskfinalsuspend.h", "qcoro/impl/lazytask.h"],
     [("reference count of the promise", "qcoro/impl/taskpromisebase.h"), ("task object holds one reference", "qcoro/impl/taskbase.h"), ("final suspend drops the coroutine's own reference", "qcoro/impl/taskfinalsuspend.h")])
prop("C03", "Tasks start eagerly, lazy tasks on first await; each body runs once",
     "A Task coroutine has run up to its first suspension by the time the call returns; a LazyTask coroutine runs nothing until it is first awaited and then starts at once. The body of either runs from beginning to end exactly once, no matter how many coroutines await it or how often. isReady() is true exactly when the task has finished (or refers to no coroutine).",
     ["programs", "schedules", "histories"], "every program of eager and lazy coroutines and every order of awaits",
     "The lazy-task tests await each lazy task once, from one coroutine; a second awaiter while the body is suspended, a drop before the start, or a lazy task awaiting a lazy task are not covered.",
     ["qcoro/impl/lazytask.h", "qcoro/impl/taskpromisebase.h", "qcoro/impl/taskbase.h", "qcoro/qcorolazytask.h"],
     [("initial suspend", "qcoro/impl/taskpromisebase.h, qcoro/impl/lazytask.h"), ("first awaiter starts the lazy coroutine", "qcoro/impl/lazytask.h"), ("isReady", "qcoro/impl/taskbase.h")])
prop("C04", "then() chains run each callback once and carry values and errors through",
     "A callback attached with then() is called exactly once after the task has finished with a value, with that value (or without arguments), and the returned task yields what the callback returns, or what the task it returns yields. If the task or the callback throws, the callbacks that follow are skipped and the exception reaches the next error callback or whoever awaits the chain; an error callback is called exactly once with a std::exception thrown by its own task, and the chain goes on with a default-constructed value. It makes no difference whether the task had already finished, was kept or was a temporary, is eager or lazy (lazy chains start only when awaited), nor how long the chain is; everything captured by callbacks is released.",
     ["programs", "schedules", "inputs"], "every chain of continuations (arity, value/void/move-only, plain/Task/LazyTask callbacks, error callbacks), every point at which the source task finishes or throws",
     "The tests sample short chains with one shape each; the property quantifies over compositions: long chains, exceptions entering at each link, tasks returned by callbacks that finish later, and chains whose task objects are dropped.",
     ["qcoro/impl/taskbase.h", "qcoro/qcorotask.h"],
     [("thenImpl / thenImplRef coroutines", "qcoro/impl/taskbase.h"), ("invokeCb, handleException", "qcoro/impl/taskbase.h"), ("overload constraints", "qcoro/qcorotask.h")])
prop("C05", "waitFor() returns exactly when the awaited finishes, with its outcome",
     "QCoro::waitFor() on a task, lazy task or other awaitable returns only after it has finished, with exactly its value or by throwing exactly its exception, and returns at once when it already had. While it waits, the event loop keeps processing: other coroutines, timers and nested waitFor() calls make progress, and inner waits finishing before or after outer ones do not disturb either. Nothing it allocates outlives it.",
     ["programs", "schedules", "histories"], "every nesting of waitFor calls and every order in which the awaited operations finish",
     "The tests call waitFor on one task at a time; nesting (with inner and outer operations finishing in either order), immediate completion, exceptions and move-only results in combination are not sampled.",
     ["qcoro/impl/waitfor.h", "qcoro/qcorotask.h"], [("runCoroutine + nested QEventLoop", "qcoro/impl/waitfor.h"), ("coroutineFinished flag", "qcoro/impl/waitfor.h")])
prop("C06", "QCoro::connect() calls back once, and only while the context lives",
     "After QCoro::connect(task, context, function), the function (callable or member function, taking the result or nothing) is called exactly once with the task's result after the task has finished successfully, if the context object still exists then. If the context has been destroyed before, or the task throws, it is never called; nothing crashes and everything captured is released.",
     ["schedules", "histories", "configurations"], "every order of task completion and context destruction, every supported callback form and awaitable",
     "The tests let the task finish in one order with one live context; destruction of the context before, during and after completion and all callback forms in combination are not sampled.",
     ["qcoro/impl/connect.h"], [("QPointer watch on the context", "qcoro/impl/connect.h"), ("then() continuation", "qcoro/impl/connect.h")])
prop("C07", "Generator yields every value once, in order, lazily, and cleans up",
     "Iterating a Generator visits exactly the values the coroutine yields, each once and in order; the coroutine runs only as far as needed for the value asked for, and iteration ends exactly when it returns. An exception thrown by the coroutine surfaces once, from the step that ran into it, after the values yielded before. Abandoning, moving or move-assigning a generator at any point destroys the state of the generators given up exactly once.",
     ["programs", "inputs", "histories"], "every generator program (yields of lvalues, rvalues, references, nested generators, throws), every prefix of iteration, every move",
     "The tests iterate a few fixed generators to the end; laziness at each step, exceptions at each position, abandonment and move-assignment at each position are not observed.",
     ["qcoro/qcorogenerator.h"], [("yield_value / final_suspend", "qcoro/qcorogenerator.h"), ("iterator begin/++", "qcoro/qcorogenerator.h"), ("move operations and destructor", "qcoro/qcorogenerator.h")])
prop("C08", "AsyncGenerator delivers every yielded value once, in order, to its consumer",
     "A coroutine that iterates an AsyncGenerator (by hand or with QCORO_FOREACH) sees exactly the values yielded, each once and in order, whatever the generator awaits in between and whatever the consumer awaits between steps; the generator runs only when the consumer asks for the next value and iteration ends exactly when it returns. An exception surfaces once, at the step that ran into it. Abandoning a generator suspended at a yield, and moving, swapping or move-assigning generators, destroys the state given up exactly once.",
     ["programs", "schedules", "histories"], "every interleaving of producer suspension and consumer suspension, every exception position, every abandonment at a yield",
     "The tests run a few generators to completion with the consumer awaiting nothing else; interleavings of the two coroutines' own waits, exceptions at each position and move-assignment are not sampled.",
     ["qcoro/qcoroasyncgenerator.h"], [("symmetric transfer between producer and consumer", "qcoro/qcoroasyncgenerator.h"), ("QCORO_FOREACH", "qcoro/qcoroasyncgenerator.h")])
prop("C09", "Awaiting a signal yields its first emission, or nothing after the timeout",
     "co_await qCoro(object, signal[, timeout]) resumes exactly once: with the arguments of the first emission after the await began (one value, a tuple, or an empty tuple; private-signal arguments removed), or, if a timeout was given and expires first, with an empty result and not before the timeout (which has the accuracy of a QTimer). Every coroutine awaiting the same signal gets its own copy of the emission; emissions before the await began or after it ended have no effect on it.",
     ["schedules", "histories", "inputs"], "every order of emissions, timeouts, several awaiters, direct and queued emissions and handler re-entry",
     "The tests emit once after a fixed delay with one awaiter, and time out once without an emission; races between emission and timeout, repeated emissions, and several awaiters are not sampled.",
     ["qcoro/core/qcorosignal.h", "qcoro/core/impl/isqprivatesignal.h"], [("QCoroSignal connection and timer", "qcoro/core/qcorosignal.h"), ("storeResult / QPrivateSignal filtering", "qcoro/core/qcorosignal.h")])
prop("C10", "A signal listener delivers every emission once and in order",
     "A generator made by qCoroSignalListener() yields every emission of the signal that happens after it was made, each exactly once, in order and with its own arguments, no matter whether the consumer is waiting for it or suspended on something else when it happens. The consumer is resumed by it only when it is waiting for the generator. With a timeout, iteration ends when, and only when, the consumer has waited for that long without an emission.",
     ["schedules", "histories"], "every interleaving of emissions with the consumer's own waits and processing, every timeout race",
     "The tests emit all signals while the consumer waits for the generator or all before it starts; emissions while the consumer is suspended elsewhere are never tried.",
     ["qcoro/core/qcorosignal.h"], [("QCoroSignalQueue", "qcoro/core/qcorosignal.h"), ("qCoroSignalListener", "qcoro/core/qcorosignal.h")])
prop("C11", "Timers and sleeps resume at the right time, once",
     "Awaiting a QTimer resumes at the timer's next timeout (at once if the timer is not active), and exactly once, for any number of coroutines awaiting the same timer, restarted, stopped or with its interval changed in between. sleepFor() and sleepUntil() resume exactly once, not before the requested time, and at the first opportunity after it. Waiting for a timer leaves its settings and state alone.",
     ["schedules", "inputs", "histories"], "all timer operations in every order, all durations and clocks, any number of concurrent sleepers",
     "The tests sleep once and compare wall-clock times with loose bounds; virtual time makes exact due times observable over every interleaving of timers.",
     ["qcoro/core/qcorotimer.cpp", "qcoro/core/qcorotimer.h"], [("WaitForTimeoutOperation", "qcoro/core/qcorotimer.cpp"), ("sleepFor/sleepUntil", "qcoro/core/qcorotimer.h")])
prop("C12", "Awaiting a QFuture delivers its result or exception exactly once",
     "A coroutine awaiting a QFuture, its result() or its takeResult() is resumed exactly once, after the future has finished (at once if it had), with exactly the first result reported, or with the exception reported, or, for a cancelled future of void, without either. Several coroutines can await the same future, and results computed in other threads arrive in the awaiting coroutine's thread.",
     ["schedules", "fault_sequences", "histories"], "every order of results, exceptions, cancellation and finishing, before and after the await, from the same and from other threads",
     "The tests use QtConcurrent::run with fixed delays; cancellation with and without results, exceptions, several awaiters and completions racing the await are not sampled.",
     ["qcoro/core/qcorofuture.h"], [("QFutureWatcher connection", "qcoro/core/qcorofuture.h")])
prop("C13", "Thread waits see the right state, and moveToThread() really moves",
     "waitForStarted() and waitForFinished() on a QThread resume exactly once, with true after the thread has started or finished and false only if that did not happen within the timeout; they return at once when it already had, and ask the thread for nothing. After co_await QCoro::moveToThread(thread) the coroutine runs in that thread, exactly once, with all its state intact, and operations awaited there resume there.",
     ["schedules", "histories"], "every interleaving of thread start, end and hops of coroutines between threads",
     "The tests hop once to one thread; concurrent hops of many coroutines between several threads under load are not sampled.",
     ["qcoro/core/qcorothread.cpp", "qcoro/core/qcorothread.h"], [("WaitForStarted/FinishedOperation", "qcoro/core/qcorothread.cpp"), ("moveToThread via context object", "qcoro/core/qcorothread.h")])
prop("C14", "Reading from a QIODevice delivers every byte once, in order",
     "A coroutine reading from a QIODevice with co_await, readAll(), read(n), readLine([n]) or waitForReadyRead() resumes exactly once: with bytes that are available (at once if there are any), or with an empty or false result only when the timeout expired or the device is closed, not readable or destroyed. Concatenated, the results of one coroutine's reads are exactly the bytes that arrived, in order, each once; read(n) and readLine(n) never exceed n and readLine() ends at a newline if one is available.",
     ["inputs", "schedules", "fault_sequences"], "every segmentation and timing of the incoming bytes, every mix of read calls and timeouts, closing at any point",
     "The tests read a fixed text in fixed pieces; the segmentations, the delays between them and the point of closing are not varied.",
     ["qcoro/core/qcoroiodevice.cpp", "qcoro/core/qcoroiodevice.h", "qcoro/core/qcoroiodevice_p.h", "qcoro/core/qcoroiodevice_p.cpp"],
     [("ReadOperation and waitForReadyReadImpl", "qcoro/core/qcoroiodevice.cpp"), ("WaitSignalHelper", "qcoro/core/qcoroiodevice_p.h")])
prop("C15", "Writing to a QIODevice completes after every byte was passed on",
     "co_await write(data) on a QIODevice resumes exactly once, after the device has passed on all the bytes of it that it accepted (or has been closed), and reports their number; the bytes arrive unchanged, in order and once, for any number of successive or concurrent writers and any way in which the device splits them up. waitForBytesWritten() reports the bytes written, and resumes without a result only when the timeout expired or the device closed.",
     ["inputs", "schedules", "fault_sequences"], "every segmentation of bytesWritten, every size of data including none, every order of concurrent writes, devices with and without write buffer",
     "The tests write one short message to one kind of device; partial writes, devices that write at once and concurrent writers are not sampled.",
     ["qcoro/core/qcoroiodevice.cpp", "qcoro/core/qcoroiodevice.h"], [("WriteOperation / write loop", "qcoro/core/qcoroiodevice.cpp"), ("waitForBytesWrittenImpl", "qcoro/core/qcoroiodevice.cpp")])
prop("C16", "QProcess waits report start and end truthfully",
     "waitForStarted(), start() and waitForFinished() on a QProcess resume exactly once: true only if the process was started or has finished, false only if it failed to start, was not running, or the timeout expired first. Output read and input written through the wrapper arrive completely and in order, and a read or write that is waiting ends when the process does.",
     ["schedules", "fault_sequences", "configurations"], "every duration and way of ending of the child (exit, crash, kill, failing to start), every timeout, with and without output",
     "The tests run one well-behaved child with a fixed delay; children that end during the start, crash or cannot be started are not sampled.",
     ["qcoro/core/qcoroprocess.cpp", "qcoro/core/qcoroprocess.h"], [("waitForStarted/waitForFinished", "qcoro/core/qcoroprocess.cpp")])
prop("C17", "Socket connects, disconnects and transfers complete with the truth",
     "On TCP and local sockets, connectToHost()/connectToServer(), waitForConnected() and waitForDisconnected() resume exactly once, with true exactly if the connection was made or ended, and false if it failed or the timeout expired first. Everything one side writes through the wrapper is read by the other side completely, in order and unchanged, up to the end of the connection. A wait that times out leaves the connection alone.",
     ["schedules", "inputs", "fault_sequences"], "every order of connecting, refusing, writing in arbitrary pieces, half-way closing and aborting",
     "The tests connect to one well-behaved test server; refused connections, connections closed during the wait and arbitrary transfer sizes are not sampled.",
     ["qcoro/network/qcoroabstractsocket.cpp", "qcoro/network/qcorolocalsocket.cpp"], [("WaitForConnected/Disconnected", "qcoro/network/qcoroabstractsocket.cpp, qcoro/network/qcorolocalsocket.cpp")])
prop("C18", "TCP server waits hand out every pending connection once",
     "waitForNewConnection() on a QTcpServer resumes exactly once: with the next pending connection, at once if one is pending, or with a null pointer only if none arrived within the timeout. Over any sequence of waits every accepted connection is handed out exactly once, in order, and stays usable; the server goes on listening.",
     ["schedules", "histories"], "every order of incoming connections, waits and timeouts",
     "The tests make one connection; bursts of connections, pending connections and timeouts in sequence are not sampled.",
     ["qcoro/network/qcorotcpserver.cpp"], [("WaitForNewConnectionOperation", "qcoro/network/qcorotcpserver.cpp")])
prop("C19", "Awaiting a network reply resumes once, finished, with all of its data",
     "co_await on a QNetworkReply (directly or through its wrapper's waitForFinished()) resumes exactly once, after the reply has finished, successfully or not, and at once if it had; a timeout gives a false/empty result and leaves the reply running. Reading the reply asynchronously yields exactly the bytes of the body in order and ends when the reply has finished and everything was read. Waiting for a reply to write ends when it has, fails or finishes.",
     ["schedules", "inputs", "fault_sequences"], "every segmentation and timing of the reply, every point of failure or abort, every mix of reads",
     "The tests fetch short fixed replies from one test server; segmentations, failures half way and reads that race the end are not sampled.",
     ["qcoro/network/qcoronetworkreply.cpp", "qcoro/network/qcoronetworkreply.h"], [("ReadOperation and waitForReadyReadImpl", "qcoro/network/qcoronetworkreply.cpp"), ("WaitForFinishedOperation", "qcoro/network/qcoronetworkreply.cpp")])
prop("C20", "WebSocket waits and message streams deliver what arrived, once and in order",
     "Opening a QWebSocket, pinging, and iterating its text or binary messages or frames through the wrapper resume exactly once per event, with the truth about success; every message received while the stream exists is yielded once, in order and unchanged, and the stream ends when the socket closes or its timeout expires without a message. No wait closes the socket.",
     ["schedules", "inputs", "fault_sequences"], "every order and size of messages, consumer pauses, closes and timeouts",
     "The tests exchange one or two messages with an echo server; bursts, consumers that pause and closes during delivery are not sampled.",
     ["qcoro/websockets/qcorowebsocket.cpp"], [("watcher generators", "qcoro/websockets/qcorowebsocket.cpp")])
prop("C21", "WebSocket server hands out every incoming connection once",
     "nextPendingConnection() on a QWebSocketServer resumes exactly once: with the next connection, at once if one is pending, or with a null pointer only if the server was closed or the timeout expired. No connection is lost, handed out twice, or taken by a wait that already ended; waits that have ended leave nothing behind and the server listening.",
     ["schedules", "histories"], "every order of incoming connections, waits, timeouts and closing",
     "The tests accept one connection, or time out once, or close once; connections after a timed-out wait are never made.",
     ["qcoro/websockets/qcorowebsocketserver.cpp"], [("listener with timeout", "qcoro/websockets/qcorowebsocketserver.cpp")])
prop("C22", "Awaiting a D-Bus call delivers its own reply, exactly once",
     "A coroutine awaiting a pending D-Bus call or reply (directly or with waitForFinished()) is resumed exactly once, after that call's own reply or error has arrived, at once if it already had, and sees exactly that reply; calls that finish in a different order than they were made are not mixed up.",
     ["schedules", "histories"], "every order of replies and errors of concurrent calls",
     "The tests await one call at a time against one service; concurrent calls with reordered and failing replies are not sampled.",
     ["qcoro/dbus/qcorodbuspendingcall.cpp", "qcoro/dbus/qcorodbuspendingcall.h", "qcoro/dbus/qcorodbuspendingreply.h"], [("WaitForFinishedOperation", "qcoro/dbus/qcorodbuspendingcall.cpp"), ("reply awaiter", "qcoro/dbus/qcorodbuspendingreply.h")])
prop("C23", "QmlTask reports the task's outcome to QML once",
     "A QmlTask made from any task or awaitable invokes the function passed to then() from QML exactly once with the result after the task finished, before or after then() was called, and its await() object exposes the given intermediate value until then and the result afterwards. A destroyed engine, context or task object never leads to a call or crash.",
     ["schedules", "inputs", "histories"], "every order of completion, then(), await() and destruction, all result types convertible to QML",
     "The tests run one QML document with one task; completion before then(), several consumers and destruction are not sampled.",
     ["qcoro/qml/qcoroqmltask.cpp", "qcoro/qml/qcoroqmltask.h"], [("QmlTask::then / await", "qcoro/qml/qcoroqmltask.cpp")])
prop("C24", "Image provider responses finish once with the coroutine's image",
     "For every request to an ImageProvider the response emits finished exactly once, after the asyncRequestImage() coroutine has finished, and its texture then is the image that coroutine produced for that id and size; concurrent requests are not mixed up and responses can be cancelled or destroyed at any time.",
     ["schedules", "histories"], "every order of completion, destruction and concurrent requests",
     "The test loads one image through one QML item; concurrent requests, failures and destroyed responses are not sampled.",
     ["qcoro/quick/qcoroimageprovider.cpp", "qcoro/quick/qcoroimageprovider.h"], [("QCoroImageResponse", "qcoro/quick/qcoroimageprovider.cpp")])
prop("C25", "QCoroTest macros pass and fail exactly as their QtTest counterparts",
     "Inside coroutine tests, every QCORO_* macro lets the coroutine continue exactly when the corresponding QtTest macro would, and otherwise records exactly one failure (or skip) at that line and ends the coroutine; the TRY variants keep the event loop running until the condition holds or the timeout expires.",
     ["inputs", "schedules"], "all macros, all outcomes, conditions that become true at any time",
     "The repository's tests use the macros only with conditions that hold, so a macro that never fails would pass them all.",
     ["qcoro/test/qcorotest.h"], [("QCORO_COMPARE, QCORO_VERIFY, ...", "qcoro/test/qcorotest.h")])
prop("C26", "Coroutines on several threads share no unsynchronised state",
     "Independent coroutines running on different threads, and coroutines that hop between threads with moveToThread() or await futures, signals and tasks whose work finishes in another thread, never race on library state: the outcome of each await arrives once and complete, and task objects dropped in one thread while the coroutine finishes in another free its frame exactly once.",
     ["schedules"], "every interleaving of threads that run, finish and drop coroutines",
     "The tests hop once in one thread at a time; races need many concurrent hops and drops under a race detector.",
     ["qcoro/impl/taskpromisebase.h", "qcoro/impl/taskfinalsuspend.h", "qcoro/core/qcorothread.h", "qcoro/core/qcorofuture.h"], [("atomic reference count", "qcoro/impl/taskpromisebase.h"), ("queued hand-over between threads", "qcoro/core/qcorothread.h, qcoro/core/qcorosignal.h")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
