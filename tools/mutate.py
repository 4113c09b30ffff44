#!/usr/bin/env python3
"""Mutation campaign: changes one line of /repo's library at a time, in a scratch copy, and reports the
changes that compile and that no monitor notices.

  mutate.py WORKDIR OUT [--slots N] [--every K] [--only REGEX] [--seed S]

WORKDIR gets one copy of /repo and of /verif, and a build directory per slot. OUT gets one JSON line
per mutant. What survives is looked at by hand: it is equivalent, outside the properties, caught by the stable
tests (stage two: tools/mutants_tests.sh), or a gap in the monitors.
"""
import argparse, json, os, random, re, shutil, subprocess, sys, threading, queue
REPO = "/repo"
MAP = [ # file -> what is run: (target, variant, properties)
    (r"qcoro/qcorotask\.h|impl/(taskbase|taskpromise|taskpromisebase|taskfinalsuspend|taskawaiterbase)\.h", [("task_core", "asan", "C01,C02,C03"), ("task_then", "asan", "C04"), ("task_wait", "asan", "C05,C06"), ("threads", "tsan", "C26")]),
    (r"lazytask\.h", [("task_core", "asan", "C01,C02,C03"), ("task_then", "asan", "C04")]),
    (r"impl/waitfor\.h", [("task_wait", "asan", "C05"), ("threads", "tsan", "C26")]),
    (r"impl/connect\.h", [("task_wait", "asan", "C06")]),
    (r"qcorogenerator\.h", [("generators", "asan", "C07")]),
    (r"qcoroasyncgenerator\.h", [("generators", "asan", "C08"), ("signals", "asan", "C10")]),
    (r"qcorosignal\.h|isqprivatesignal\.h|concepts_p\.h|macros_p\.h|waitoperationbase_p\.h", [("signals", "asan", "C09,C10"), ("iodevice", "asan", "C14,C15"), ("sockets", "asan", "C17,C18"), ("threads_qt", "tsan", "C26")]),
    (r"qcorotimer", [("signals", "asan", "C11")]),
    (r"qcorofuture", [("future", "asan", "C12"), ("threads_qt", "tsan", "C26")]),
    (r"qcorothread", [("thread", "asan", "C13"), ("threads_qt", "tsan", "C26")]),
    (r"qcoroiodevice", [("iodevice", "asan", "C14,C15"), ("sockets", "asan", "C17"), ("process", "asan", "C16"), ("reply", "asan", "C19")]),
    (r"qcoroprocess", [("process", "asan", "C16")]),
    (r"qcoro(abstract|local)socket", [("sockets", "asan", "C17")]),
    (r"qcorotcpserver", [("sockets", "asan", "C18")]),
    (r"qcoronetworkreply", [("reply", "asan", "C19")]),
    (r"qcorowebsocket\.", [("websocket", "asan", "C20")]),
    (r"qcorowebsocketserver\.", [("websocket", "asan", "C21")]),
    (r"qcorodbus", [("dbus", "asan", "C22")]),
    (r"qcoroqmltask", [("qml", "asan", "C23")]),
    (r"qcoroimageprovider", [("image", "asan", "C24")]),
]
def mutants(path):
    text = open(path).read().split("\n")
    out = []
    comment = False
    for i, line in enumerate(text):
        s = line.strip()
        if comment:
            comment = "*/" not in s
            continue
        if s.startswith("/*"):
            comment = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "*", "template", "namespace", "using", "Q_OBJECT", "public", "private", "protected", "class ", "struct ", "friend", "requires", "concept")):
            continue
        code = line.split("//")[0]
        def add(kind, new):
            if new != line:
                out.append((i, kind, new))
        if re.match(r"\s*(?!return|co_return|auto|const|static|inline|explicit|virtual|constexpr|typedef|throw|~|\w+(<[^;]*>)?[&*]* +[&*]?\w+( *[={;(]))[\w:\->.*()]+.*;\s*$", code) and code.count("(") == code.count(")") and code.count("{") == code.count("}"):
            add("delete", re.sub(r"\S.*", ";", code))
        m = re.match(r"(\s*(?:\} else )?if (?:constexpr )?\()(.*)(\) \{\s*)$", code)
        if m and "constexpr" not in m[1]:
            add("if-not", m[1] + "!(" + m[2].replace("; ", "; !(", 1) if ";" in m[2] else m[1] + "!(" + m[2] + ")" + m[3])
            if ";" not in m[2]:
                add("if-false", m[1] + "false && (" + m[2] + ")" + m[3])
                add("if-true", m[1] + "true || (" + m[2] + ")" + m[3])
        for a, b in (("true", "false"), ("false", "true")):
            for m in re.finditer(r"\b%s\b" % a, code):
                add(a, code[:m.start()] + b + code[m.end():])
        for a, b in ((" == ", " != "), (" != ", " == "), (" <= ", " < "), (" >= ", " > "), (" && ", " || "), (" || ", " && "), (" - ", " + "), (" + ", " - "), (" < ", " <= "), (" > ", " >= ")):
            start = 0
            if "template" in code or ("&&" in a and re.search(r"\w && \w+[,)]", code) and "if" not in code and "return" not in code):
                continue
            while (k := code.find(a, start)) >= 0:
                add(a.strip(), code[:k] + b + code[k + len(a):])
                start = k + 1
        for m in re.finditer(r"(?<![\w.])(-?\d+)(?![\w.])", code):
            n = int(m[1])
            add("number", code[:m.start()] + str(n + 1) + code[m.end():])
        for m in re.finditer(r"!(?=[\w(])", code):
            add("not", code[:m.start()] + code[m.end():])
        for m in re.finditer(r"std::move\((\w+)\)|std::exchange\(([\w.]+), [^)]*\)", code):
            add("move", code[:m.start()] + (m[1] or m[2]) + code[m.end():])
        for m in re.finditer(r"return (nullptr|\{\}|std::nullopt);", code):
            pass
    return ["\n".join(text[:i] + [new] + text[i + 1:]) and (i, k, new) for i, k, new in out]
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("work"); ap.add_argument("out")
    ap.add_argument("--slots", type=int, default=4); ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--only", default="."); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--scale", type=float, default=0.15)
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    sys.path.insert(0, "/verif")
    import checks
    quick = {}
    for p, c in checks.CHECKS.items():
        for r in c["runs"]:
            quick[(r["target"], p)] = r["quick"]
    todo = []
    files = subprocess.run(["git", "-C", REPO, "ls-files", "qcoro"], stdout=subprocess.PIPE, text=True).stdout.split()
    for f in files:
        if not re.search(r"\.(h|cpp)$", f) or not re.search(a.only, f) or "/test/" in f: continue
        runs = next((r for p, r in MAP if re.search(p, f)), None)
        if runs:
            todo += [(f, *m, runs) for m in mutants(os.path.join(REPO, f))]
    random.Random(a.seed).shuffle(todo)
    todo = todo[::a.every]
    print(len(todo), "mutants", flush=True)
    if a.list:
        for t in todo: print(t[0], t[1] + 1, t[2], t[3].strip())
        return
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            o = json.loads(l); done.add((o["file"], o["line"], o["new"]))
    q = queue.Queue()
    for t in todo:
        if (t[0], t[1] + 1, t[3].strip()) not in done: q.put(t)
    os.makedirs(a.work, exist_ok=True)
    verif = os.path.join(a.work, "verif")
    if not os.path.exists(verif):
        shutil.copytree("/verif", verif, ignore=shutil.ignore_patterns("build", ".git", "evidence", "seeded"))
    lock = threading.Lock()
    def sh(cmd, timeout):
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            return 124, ""
    def slot(n):
        repo, build = os.path.join(a.work, "repo%d" % n), os.path.join(a.work, "b%d" % n)
        if not os.path.exists(repo):
            subprocess.run(["git", "clone", "-q", REPO, repo])
        for v in ("asan", "tsan"):
            if not os.path.exists(os.path.join(build, v, "build.ninja")):
                subprocess.run(["cmake", "-S", verif, "-B", os.path.join(build, v), "-G", "Ninja", "-DVARIANT=" + v, "-DREPO_DIR=" + repo], stdout=subprocess.DEVNULL)
        while True:
            try: f, i, kind, new, runs = q.get_nowait()
            except queue.Empty: return
            path = os.path.join(repo, f)
            orig = open(path).read()
            lines = orig.split("\n")
            old = lines[i]
            lines[i] = new
            open(path, "w").write("\n".join(lines))
            res, by = "survived", ""
            try:
                for target, variant, props in runs:
                    rc, out = sh(["ninja", "-C", os.path.join(build, variant), "-j2", target], 600)
                    if rc:
                        res, by = "nocompile", target
                        break
                    for p in props.split(","):
                        cases = int(quick[(target, p)] * a.scale / 2)
                        env = ["env", "QT_QPA_PLATFORM=offscreen"] + (["QT_NO_GLIB=1"] if target == "threads_qt" else [])
                        procs = [subprocess.Popen(env + ["timeout", "300", os.path.join(build, variant, target), "--prop", p, "--seed", str(s), "--cases", str(cases)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace") for s in (11, 12)]
                        for pr in procs:
                            o = pr.communicate()[0]
                            m = re.search(r'\{"t":"v".*?"key":"([^"]*)"|WARNING: ThreadSanitizer[^\n]*|ERROR: \w+Sanitizer[^\n]*|runtime error:[^\n]*|ASSERT[^\n]*', o)
                            if pr.returncode or m:
                                res, by = "killed", p + " " + ((m[1] or m[0]) if m else "exit %d" % pr.returncode)[:80]
                        if res == "killed": break
                    if res != "survived": break
            finally:
                open(path, "w").write(orig)
            with lock:
                with open(a.out, "a") as fo:
                    fo.write(json.dumps(dict(file=f, line=i + 1, kind=kind, old=old.strip(), new=new.strip(), result=res, by=by)) + "\n")
    ts = [threading.Thread(target=slot, args=(n,)) for n in range(a.slots)]
    for t in ts: t.start()
    for t in ts: t.join()
main()
