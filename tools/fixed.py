#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from the fix: commits in /repo (development tool)."""
import json, subprocess
PROPS = "C01 C02 C04 C07 C08 C09 C10 C10 C09 C11 C11 C12 C13 C26 C14 C14 C15 C15 C14 C16 C16 C16 C17 C17 C17 C18 C21 C20 C20 C22 C22 C23 C23 C23 C23 C01 C24 C24 C26 C17 C24 C05 C01 C11 C09 C18 C17 C11".split()
WHAT = {
 "2e42963": "a LazyTask awaited by a second coroutine while suspended on something else was resumed in the middle",
 "292b61b": "the frame of a LazyTask that was never awaited leaked",
 "93b6d99": "then() callbacks passed as temporaries were used after they were destroyed",
 "73d3ce4": "the coroutine of a Generator that was move-assigned to leaked",
 "ced1f85": "the coroutine of an AsyncGenerator that was move-assigned to leaked",
 "4bad0b7": "signal arguments of types that are convertible to anything were dropped as if they were QPrivateSignal",
 "5eb8acf": "an emission resumed the consumer of a signal listener while it was suspended on something else",
 "2243caa": "a signal listener's consumer was resumed again by the timeout of an earlier wait",
 "30d7b48": "a wait for a signal with a timeout was never resumed if its object was destroyed",
 "04fcad3": "sleepUntil() on a clock other than the steady clock slept for the wrong time, and sleeps were rounded down",
 "722da74": "sleeping until a time in the past never ended",
 "e32a666": "a cancelled future whose work was still running resumed the awaiter early",
 "b4cd81a": "waitForStarted()/waitForFinished() missed a start or end that happened while they were about to wait",
 "142468d": "awaiting a task raced with its finishing in another thread (lost wake-up, data race)",
 "bfab13c": "a read waiting for a device reported data when the device was closed",
 "07dd969": "an awaited device that was destroyed was read from",
 "19edfe7": "write() returned before all its bytes were passed on, or waited for bytes of other writers",
 "94007c0": "waitForBytesWritten() reported 0 bytes instead of nothing when the device was closed",
 "2b0d86d": "a device destroyed between becoming ready and the resumption was read from",
 "0fc641c": "waitForStarted() never ended for a process that failed to start",
 "35e2ffd": "waitForFinished() never ended for a process that failed to start",
 "02ec62c": "reads and writes that waited when the process ended were never resumed",
 "e9bf1aa": "waitForConnected()/connectToHost() never ended for a TCP connection that failed",
 "408a630": "waitForConnected()/connectToServer() never ended for a local connection that failed at once",
 "616ed74": "waitForDisconnected() never ended for a connection that failed",
 "84f0f82": "waitForNewConnection() gave up with a null pointer when another waiter took the connection",
 "c59e386": "connections that arrived for an abandoned or timed-out wait for a web socket server were lost",
 "e2f0090": "open() never ended for a web socket with an invalid URL",
 "bb1f931": "messages that arrived between making a stream and its first step were lost",
 "5f55ceb": "awaiting a temporary D-Bus call read freed memory",
 "745bb8b": "a D-Bus call that finished while the wait began never resumed it",
 "8ad32a4": "copies of a QmlTask shared no task: then() on one broke the other",
 "8dc6bea": "a QmlTask finishing after its engine was destroyed crashed",
 "7acdbcf": "awaiting a QmlTask without a coroutine crashed",
 "2181793": "only the first function or listener of a QmlTask received the result",
 "a5bbb39": "co_return of an object that outlives the coroutine moved from it",
 "bb32b04": "an image response destroyed before its coroutine finished was used afterwards",
 "a1db09c": "an image request whose coroutine throws never finished",
 "f35f56a": "waitFor() a task that finishes in another thread: lost wake-up, data race on the context, use after return",
 "759094a": "reads and writes of a socket that is connecting (or bound) ended at once, reporting 0 bytes that were sent later",
 "51d9043": "an image request whose coroutine throws something other than a std::exception never finished",
 "f3e914f": "waitFor() returned without a result, and was used by the coroutine afterwards, when the application was told to quit",
 "2733a0e": "an exception thrown while co_return copies or converts the result terminated the program",
 "229d6b3": "sleepFor() and sleepUntil() for 2^31 ms or more ended early or never",
 "6cf0516": "timeouts of 2^31 ms or more of awaited signals, listeners (C10) and everything built on them expired early or never",
 "b70f7c5": "timeouts of 2^31 ms or more for connections of TCP and web socket servers (C21) expired early or never",
 "d7b5ac0": "write() reported bytes as written that a socket dropped when its connection ended",
 "a8a94fb": "sleepFor() and sleepUntil() ended up to 5 % (500 ms for long sleeps) early, as coarse timers may",
}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "bb25210..HEAD"], text=True).splitlines()
log = [l.split(" ", 1) for l in log if " fix:" in l]
k = json.load(open("/verif/known_findings.json"))
k["fixed"] = ["fixed: property=%s %s %s" % (p, h[:7], WHAT[h[:7]]) for p, (h, _) in zip(PROPS, log)]
assert len(k["fixed"]) == len(log) == len(PROPS)
json.dump(k, open("/verif/known_findings.json", "w"), indent=1)
