#!/usr/bin/env python3
"""Runs the check of one property: run.py ID [--tier quick|thorough] | --setup | --manifest | --list

Builds the monitors from /repo's working tree, runs them in parallel shards, turns what they
report (and sanitizer reports, crashes and hangs) into VIOLATION / KNOWN-FINDING lines, and
rewrites evidence/<ID>.json.  Exit 0: held. 1: violated. 2: the check itself failed.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_APPLICABLE, NOTES  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
NCPU = os.cpu_count() or 8


def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)


def build(variant, targets):
    bdir = os.path.join(BUILD, variant)
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(bdir, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        t0 = time.time()
        r = subprocess.run(["cmake", "-S", HERE, "-B", bdir, "-G", "Ninja", "-DVARIANT=" + variant, "-DREPO_DIR=" + REPO],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-4000:])
            die("configuring the %s build failed" % variant)
        r = subprocess.run(["ninja", "-C", bdir] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-6000:])
            die("the %s build of %s failed" % (variant, " ".join(targets)))
        return bdir, time.time() - t0


def env_for(extra=None):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=1:detect_stack_use_after_return=0:"
                         "allocator_may_return_null=1:quarantine_size_mb=64:malloc_context_size=12:symbolize=1")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    e["TSAN_OPTIONS"] = "exitcode=99:halt_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0:ignore_noninstrumented_modules=1:suppressions=" + os.path.join(HERE, "harness", "tsan.supp")
    e["QT_QPA_PLATFORM"] = "offscreen"
    e["QT_LOGGING_RULES"] = "*.debug=false"
    e["LC_ALL"] = "C.UTF-8"
    e["HOME"] = "/tmp"
    for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "DBUS_SESSION_BUS_ADDRESS"):
        e.pop(k, None)
    e.update(extra or {})
    return e


class Outcome:
    def __init__(self):
        self.violations = []   # dicts: key, msg, case, trace, target, variant, log
        self.stats = []
        self.inconclusive = []


def crash_key(log):
    m = re.search(r"SUMMARY: (\w+): ([\w-]+)", log)
    kind = None
    if m:
        kind = m.group(2)
    elif "runtime error:" in log:
        kind = "undefined-behaviour"
    elif "Tracked: use of" in log:
        kind = "use-after-destruction"
    m2 = re.search(r"runtime error: ([^\n]{0,160})", log)
    if m2 and (not m or "undefined" in (kind or "")):
        kind = "undefined-behaviour"
    if re.search(r"==\d+== .*uninitialised", log):
        kind = "uninitialised"
    if "ASSERT" in log:
        kind = "assertion"
    if "terminate called" in log:
        kind = "terminate"
    return "crash-" + (kind or "unknown")


def crash_msg(log):
    for pat in (r"(WARNING|ERROR): \w+Sanitizer: ([^\n]{0,200})", r"(runtime error): ([^\n]{0,200})", r"(ASSERT)[^\n]{0,200}", r"==\d+== ([^\n]*uninitialised)[^\n]{0,200}", r"(terminate called)[^\n]{0,200}"):
        m = re.search(pat, log)
        if m:
            frames = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+(?: \S+)?)", log) if "QCoro" in f or "/qcoro/" in f]
            return (m.group(0) + (" in " + frames[0] if frames else ""))[:300]
    return log.strip().splitlines()[-1][:300] if log.strip() else "no output"


def run_one(bdir, prop, r, shard, seed, cases, tier, tmp, case=None, scenario=None, attempt=0):
    state = os.path.join(tmp, "state-%s-%s-%d-%s" % (r["target"], r["variant"], shard, scenario or case or "x"))
    hang = r.get("hang", 60) * (1 + attempt)
    cmd = [os.path.join(bdir, r["target"]), "--prop", prop, "--state", state, "--hang", str(hang)]
    if case:
        cmd += ["--case", case]
    else:
        cmd += ["--seed", str(seed), "--shard", str(shard), "--cases", str(cases)]
    if tier == "thorough":
        cmd.append("--thorough")
    aside = shard % 2 == 1 and r["target"] in ASIDE and not scenario
    if aside:
        cmd.append("--aside")
    if r.get("budget") and not case and not scenario:
        cmd += ["--budget", str(r["budget"])]
    extra = dict(r.get("env") or {})
    if scenario:
        extra["VH_SCENARIO"] = scenario
    work = tempfile.mkdtemp(prefix="w", dir=tmp)
    extra["TMPDIR"] = work
    extra["VH_WORKDIR"] = work
    extra["VH_HELPERS"] = bdir
    errf = os.path.join(work, "stderr")
    if r.get("wrap"):
        cmd = r["wrap"] + cmd
    timeout = r.get("timeout", 420 if tier == "quick" else 5400)
    timedout = False
    with open(errf, "wb") as ef:
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=ef, env=env_for(extra), timeout=timeout, cwd=work)
            rc, out = p.returncode, p.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired as e:
            timedout, rc, out = True, None, (e.stdout or b"").decode("utf-8", "replace")
    with open(errf, "rb") as ef:
        err = ef.read()[-60000:].decode("utf-8", "replace")
    shutil.rmtree(work, ignore_errors=True)
    o = Outcome()
    base = dict(target=r["target"], variant=r["variant"], scenario=scenario, shard=shard, aside=aside)
    hang_line = fatal = False
    for line in out.splitlines():
        if not line.startswith("{"):
            continue
        try:
            j = json.loads(line)
        except ValueError:
            continue
        if j["t"] == "v":
            o.violations.append(dict(base, key=j["key"], msg=j["msg"], case=j["case"], trace=j["trace"]))
        elif j["t"] == "s":
            o.stats.append(j)
        elif j["t"] == "hang":
            hang_line = True
            o.inconclusive.append(dict(base, key="hang", msg="no progress for %d s" % hang, case=j["case"], trace=j["trace"]))
        elif j["t"] == "fatal":
            fatal = True
    if timedout:
        o.inconclusive.append(dict(base, key="timeout", msg="shard not finished after %d s" % timeout, case=read_state(state), trace=[]))
    elif rc == 14 and hang_line:
        pass
    elif rc == 10 and fatal:
        pass
    elif rc == 2 or rc in (126, 127):
        print(err[-2000:])
        die("%s failed with exit code %s" % (r["target"], rc))
    elif rc != 0:
        o.violations.append(dict(base, key=crash_key(err), msg=crash_msg(err), case=case or read_state(state), trace=[], log=err[-12000:]))
    elif not o.stats:
        die("%s printed no statistics" % r["target"])
    return o


def read_state(path):
    try:
        return open(path).read().strip().lstrip("0") or "0"
    except OSError:
        return "0"


# Monitors whose odd shards run in a thread other than the main one (see monitorMain() in vh.h).
ASIDE = set("task_core task_then task_wait generators signals future thread iodevice process sockets reply websocket dbus qml".split())
VALGRIND = ["valgrind", "-q", "--error-exitcode=98", "--exit-on-first-error=yes", "--num-callers=30", "--suppressions=" + os.path.join(HERE, "harness", "valgrind.supp")]


def plan(c, tier):
    """The runs of a check. A thorough one is limited by time, and looks at optimised code and, with valgrind, for uninitialised memory, too."""
    if tier != "thorough":
        return c["runs"]
    main = [dict(r, budget=420 // len(c["runs"])) for r in c["runs"]]
    extra = []
    for r in c["runs"]:
        if r["variant"] == "asan" and not r.get("helpers"):
            extra.append(dict(r, variant="release", budget=120 // len(c["runs"]), scenarios=[]))
            if not r["target"].startswith("threads"):
                extra.append(dict(r, variant="plain", budget=90 // len(c["runs"]), wrap=VALGRIND, hang=10 * r.get("hang", 60), scenarios=[]))
    return main + extra


def main():
    if len(sys.argv) < 2:
        die("usage: run.py ID")
    if sys.argv[1] == "--list":
        print("\n".join(sorted(CHECKS)))
        return 0
    if sys.argv[1] == "--manifest":
        return write_manifest()
    if sys.argv[1] == "--setup":
        # Nothing needs to be kept between runs: every check builds what it needs from /repo.
        for v in sorted({r["variant"] for c in CHECKS.values() for r in c["runs"]}):
            ts = sorted({r["target"] for c in CHECKS.values() for r in c["runs"] if r["variant"] == v})
            ts += sorted({h for c in CHECKS.values() for r in c["runs"] if r["variant"] == v for h in r.get("helpers", [])})
            _, secs = build(v, ts)
            print("built %s: %s (%.0f s)" % (v, " ".join(ts), secs), flush=True)
        return 0
    prop = sys.argv[1]
    if prop not in CHECKS:
        die("no check for %s" % prop)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = seed0 = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[prop]
    t0 = time.time()
    kf = json.load(open(os.path.join(HERE, "known_findings.json")))
    known = [k for k in kf["known"] if k["property"] == prop]

    def match(v):
        for k in known:
            if k["key"] == v["key"] and k.get("scenario") == v.get("scenario") and (not k.get("contains") or k["contains"] in v["msg"] + v.get("log", "")):
                return k
        return None

    tmp = tempfile.mkdtemp(prefix="vh")
    runs = plan(c, tier)
    build_s = 0.0
    violations, incon, stats = [], [], []
    known_seen = {}
    try:
        bdirs = {}
        for v in sorted({r["variant"] for r in runs}):
            ts = sorted({r["target"] for r in runs if r["variant"] == v} | {h for r in runs if r["variant"] == v for h in r.get("helpers", [])})
            bdirs[v], s = build(v, ts)
            build_s += s
        jobs = []
        for r in runs:
            shards = r.get("shards", NCPU)
            total = r["thorough" if tier == "thorough" else "quick"]
            for sh in range(shards):
                jobs.append((r, sh, max(1, total // shards), None))
            for sc in r.get("scenarios", []):
                jobs.append((r, 0, 1, sc))
        par = c.get("parallel", NCPU)

        def work(j):
            r, sh, n, sc = j
            # Runs of one check explore different cases.
            seed = seed0 + 1000003 * next(i for i, x in enumerate(runs) if x is r)
            o = run_one(bdirs[r["variant"]], prop, r, sh, seed, n, tier, tmp, scenario=sc)
            if o.inconclusive:
                # A hang or timeout is inconclusive; it counts only when it comes back.
                h = o.inconclusive[0]
                case = h["case"]
                if sc or case in ("", "0"):
                    o2 = run_one(bdirs[r["variant"]], prop, r, sh, seed, n, tier, tmp, scenario=sc, attempt=1)
                else:
                    o2 = run_one(bdirs[r["variant"]], prop, r, sh, seed, n, tier, tmp, case=case, attempt=1)
                if o2.inconclusive:
                    v = dict(o2.inconclusive[0])
                    if not v.get("trace"):
                        v["trace"] = h.get("trace", [])
                    o.violations.append(v)
                    o.inconclusive = []
                elif o2.violations:
                    o.violations += o2.violations
                    o.inconclusive = []
                else:
                    # not reproducible: run the shard again, and let that count
                    if not sc:
                        o3 = run_one(bdirs[r["variant"]], prop, r, sh, seed + 7919, n, tier, tmp, attempt=1)
                        o.violations += o3.violations + o3.inconclusive
                        o.stats += o3.stats
            return o

        with ThreadPoolExecutor(max_workers=par) as ex:
            for o in ex.map(work, jobs):
                violations += o.violations
                incon += o.inconclusive
                stats += o.stats
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    fresh = []
    for v in violations:
        k = match(v)
        if k:
            known_seen[k["id"]] = k
        else:
            fresh.append(v)
    counters, hashes, ev, samples = {}, set(), 0, []
    for s in stats:
        ev += s["evaluations"]
        hashes.update(s["hashes"])
        for k, n in s["counters"].items():
            counters[k] = counters.get(k, 0) + n
        samples += s["samples"]
    samples = sorted(samples, key=lambda s: s["case"])[:3]
    for s in samples:
        s["trace"] = s["trace"][:40]
    replays = []
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    seen = set()
    for v in fresh:
        kk = (v["key"], v["target"], v.get("scenario"))
        if kk in seen:
            continue
        seen.add(kk)
        name = "%s-%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_", v["key"]), v.get("scenario") or v["case"])
        path = os.path.join(rdir, name)
        json.dump(dict(property=prop, key=v["key"], message=v["msg"], target=v["target"], variant=v["variant"], case=v["case"], scenario=v.get("scenario"),
                       tier=tier, seed=seed, trace=v.get("trace", []), log=v.get("log", ""),
                       replay_cmd=("VH_SCENARIO=%s " % v["scenario"] if v.get("scenario") else "") + "build/%s/%s --prop %s" % (v["variant"], v["target"], prop)
                       + ("" if v.get("scenario") else " --case %s" % v["case"]) + (" --aside" if v.get("aside") else "")), open(path, "w"), indent=1)
        replays.append(os.path.relpath(path, HERE))
        print("%s: %s [case %s%s]" % (v["key"], v["msg"], v["case"], " scenario " + v["scenario"] if v.get("scenario") else ""))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    for k in known_seen.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)

    evidence = dict(property=prop, tier=tier, seed=seed, level="exploration",
                    coverage=dict(evaluations=ev, distinct_nontrivial=len(hashes), rule=c["rule"], samples=samples,
                                  observed=dict(sorted(counters.items())),
                                  variants=sorted({r["variant"] for r in runs}), monitors=sorted({r["target"] for r in runs}),
                                  directed_histories=sum(len(r.get("scenarios", [])) for r in runs),
                                  inconclusive_reruns=len(incon), build_s=round(build_s, 1)),
                    wall_s=round(time.time() - t0, 1), assumptions=c.get("assumptions", []),
                    violations=[dict(key=v["key"], message=v["msg"], replay=p) for v, p in zip([x for i, x in enumerate(fresh) if (x["key"], x["target"], x.get("scenario")) not in {(y["key"], y["target"], y.get("scenario")) for y in fresh[:i]}], replays)])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(evidence, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    if fresh:
        return 1
    if len(hashes) < c.get("min_distinct", 2):
        die("only %d distinct non-trivial cases were observed" % len(hashes))
    print("%s held: %d cases, %d distinct non-trivial, %d events (%.0f s, build %.0f s)" % (prop, ev, len(hashes), counters.get("events", 0), time.time() - t0, build_s))
    return 0


def write_manifest():
    m = dict(version=1, setup_cmd="python3 run.py --setup",
             checks=[dict(property=p, quick_cmd="python3 run.py %s --tier quick" % p, thorough_cmd="python3 run.py %s --tier thorough" % p,
                          technique=c["technique"], level="exploration", level_note=c["note"]) for p, c in sorted(CHECKS.items())],
             not_applicable=[dict(property=p, reason=r) for p, r in NOT_APPLICABLE], notes=NOTES)
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
    return 0


if __name__ == "__main__":
    sys.exit(main())
