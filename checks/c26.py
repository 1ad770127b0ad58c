"""C26: background mode detaches and leaves no trace after exit."""
import os, signal, stat, time
from hypothesis import strategies as st
from lib import gen, net
from lib.engine import Violation
from lib.h import Case, b, blob, catches, childrenOf, diff, listening, openFds, procState, sq, wholeConfig

ID = "C26"
LEVEL = "exploration"
ARTIFACTS = ["k8psh", "k8psh_shim", "agent"]
EXAMPLES = {"quick": 100, "thorough": 1500}
TECHNIQUE = "stateful property-based testing of the real background server: generated options, paths, prior files, exchanges and ways to stop against a model of the files and processes; shrinking"
RULE = ("Each case starts a background server with generated options (command line and/or section), executable directory and PID file (absolute, relative to a generated working directory, in parent directories, with odd names, none), prior contents of the PID file (none, file, empty, link, dangling link, directory, unwritable or missing directory) and standard streams (or with relative paths in a working directory that was removed), serves generated exchanges, sends it SIGHUP, and ends it by SIGTERM (sometimes as soon as its PID file is there), SIGINT, its connection limit or its timeout with or without commands running; sometimes it is started again. "
        "Oracle: a model of the files and processes: the starting process exits with status 0; one server remains, leader of its own session, streams on the null device, descriptors and directory of the starter released, PID file exactly its id; it serves exactly as in the foreground; an existing PID file stays as it was and no server remains; afterwards its PID file and client executables (and nothing else) are gone. Non-trivial: relative paths, a prior PID file, or exchanges were involved.")


def strategy(env):
    path = st.sampled_from(["abs", "rel", "dot", "parent", "deep"])
    return st.fixed_dictionaries({
        "exec": path, "pid": st.sampled_from(["abs", "rel", "rel", "dot", "parent", "deep", "none", "bare"]), "where": st.sampled_from(["cli", "cli", "section", "both"]), "form": st.sampled_from(["short", "long", "eq"]),
        "prior": st.sampled_from([None] * 8 + ["file", "empty", "stale", "link", "dangling", "directory", "missingDir", "unwritableDir", "readonly"]),
        "pidName": st.sampled_from(["pid", "a b", "\xe9.pid", "k8pshd.pid", "x\xff", "-p"]), "execDefault": st.booleans(),
        "keep": st.booleans(), "stop": st.sampled_from(["term", "term", "int", "max", "timeout"]), "nowait": st.booleans(), "hup": st.integers(0, 2), "running": st.integers(0, 2), "again": st.booleans(),
        "exchanges": st.lists(st.fixed_dictionaries({"in": gen.data(env, 70000), "out": gen.data(env, 140000), "err": gen.data(env, 9000), "exit": gen.exitCodes}), max_size=3),
        "fail": st.sampled_from([None, None, "missing", "unknown", "garbage"]), "streams": st.sampled_from(["pipe", "pipe", "null", "file"]), "umask": st.sampled_from([0o022, 0o022, 0o077, 0]), "shim": gen.shimPlan(env, 5), "timeout": st.integers(300, 1200),
        "server": st.sampled_from(["k8pshd", "-s"]), "early": st.sampled_from([None] * 7 + [15, 2, 1]), "lost": st.sampled_from([None] * 15 + ["exec", "pid", "both"]),
    })


def exists(p):
    return os.path.lexists(p)


def run(case, env):
    labels = ["pid-" + case["pid"], "exec-" + case["exec"], case["stop"]]
    with Case(env) as c:
        c.termsExpected = False
        port = env.port()
        cwd = c.path("w", "x")
        os.makedirs(cwd)
        for d in ("stubs", "run", "w/stubs", "w/x/stubs", "w/x/run", "w/run", "w/x/d"):
            os.makedirs(c.path(d))
        places = {"abs": (c.path("stubs"), c.path("stubs")), "rel": ("stubs", c.path("w/x/stubs")), "dot": ("./d/.././stubs/", c.path("w/x/stubs")), "parent": ("../stubs", c.path("w/stubs")), "deep": ("../../stubs//", c.path("stubs"))}
        execArg, place = places[case["exec"]]
        if case["execDefault"] and case["exec"] == "rel":
            execArg, place = None, cwd
        name = b(case["pidName"])
        pids = {"abs": (b(c.path("run")) + b"/" + name, b(c.path("run"))), "rel": (b"run/" + name, b(c.path("w/x/run"))), "dot": (b"./d/../run/./" + name, b(c.path("w/x/run"))), "parent": (b"../run/" + name, b(c.path("w/run"))), "deep": (b"../../run//" + name, b(c.path("run"))),
                "none": (b"", None), "bare": (name, b(cwd))}
        pidArg, pidPlace = pids[case["pid"]]
        if pidArg[:1] == b"-" and case["form"] != "eq":
            pidArg = b"./" + pidArg
        pidFile = pidPlace + b"/" + name if pidPlace else None
        prior = case["prior"] if pidFile else None
        if prior:
            labels.append("prior-" + prior)
        if case["pid"] in ("rel", "dot", "parent", "deep", "bare") or case["exec"] != "abs":
            labels.append("relative")

        def opt(short, long, value):
            if case["form"] == "short":
                return [short.encode(), value]
            if case["form"] == "long":
                return [long.encode(), value]
            return [long.encode() + b"=" + value]
        options = [b"-b" if case["form"] == "short" else b"--background"]
        if execArg is not None:
            options += opt("-e", "--executable-directory", b(execArg))
        options += opt("-p", "--pidfile", pidArg) if pidFile else [b"--pidfile="]
        if case["keep"]:
            options.append(b"-k")
        if case["nowait"]:
            options.append(b"-w")
        exchanges = case["exchanges"] if case["stop"] != "timeout" else case["exchanges"][:1]
        running = case["running"] if case["stop"] != "timeout" else min(case["running"], 1)
        connections = len(exchanges) + running + (case["fail"] is not None)
        if case["stop"] == "max":
            if not connections:
                connections = running = 1
            options += opt("-m", "--max-connections", b"%d" % connections)
        elif case["stop"] == "timeout":
            options += opt("-t", "--timeout", b"%d" % case["timeout"])
        section = ""
        line = options
        if case["where"] == "section":
            section, line = " ".join(sq(o.decode("latin-1")) for o in options), []
        elif case["where"] == "both":
            section, line = "--background -e " + sq(c.path("nowhere")) + " --pidfile=" + sq(c.path("nowhere/pid")), options
            if execArg is None:
                section = "-b --pidfile=" + sq(c.path("nowhere/pid"))
        conf = c.file("conf", wholeConfig(port, ["kv-cmd " + sq(c.agent), "kv-missing /nonexistent/x", "[far]", "kv-far x", "kv-away x"], options=section))
        stubs = {"kv-far", "kv-away"}
        if prior in ("file", "stale", "readonly"):
            open(pidFile, "wb").write(b"1\n" if prior == "stale" else b"some text")
            if prior == "readonly":
                os.chmod(pidFile, 0o444)
        elif prior == "empty":
            open(pidFile, "wb").close()
        elif prior == "link":
            c.file("target", "target\n")
            os.symlink(c.path("target"), pidFile)
        elif prior == "dangling":
            os.symlink(c.path("no-target"), pidFile)
        elif prior == "directory":
            os.mkdir(pidFile)
        elif prior == "missingDir":
            if pidPlace == b(cwd):
                prior = None
            else:
                os.rmdir(pidPlace)
        elif prior == "unwritableDir":
            if pidPlace == b(cwd) or b(place) == pidPlace:
                prior = None
            else:
                os.chmod(pidPlace, 0o555)

        def tree():
            out = {}
            for root, dirs, files in os.walk(b(c.root)):
                if root == b(c.bin):
                    continue
                for n in dirs + files:
                    p = root + b"/" + n
                    s = os.lstat(p)
                    if n.startswith(b"starter"):
                        continue
                    out[p] = (stat.S_IFMT(s.st_mode), stat.S_IMODE(s.st_mode), os.readlink(p) if stat.S_ISLNK(s.st_mode) else open(p, "rb").read() if stat.S_ISREG(s.st_mode) else None)
            return out

        if case.get("lost"):
            # Relative paths mean nothing once the working directory is gone: in particular not paths relative to the root directory
            labels.append("lost")
            lost = c.path("w", "lost")
            os.mkdir(lost)
            before = tree()
            del before[b(lost)]
            relative = [b(c.path(x)) for x in ("stubs", "run")]
            if case["lost"] != "pid":
                relative[0] = relative[0][1:]
            if case["lost"] != "exec":
                relative[1] = relative[1][1:]
            p = c.proc([b"k8pshd", b"-b", b"-c", b(conf), b"-n", b"srv"] + [b"-o"] * case["keep"] + opt("-e", "--executable-directory", relative[0]) + opt("-p", "--pidfile", relative[1] + b"/pid"), exe=env.bins["k8psh"], cwd=lost, lostCwd=True)
            c.wait(lambda: p.rc is not None, "the starting process exits")
            c.waitQuiet(lambda: p.rc != 0, 0.2)
            changed = {k: v for k, v in list(tree().items()) + list(before.items()) if before.get(k) != v or k not in tree()}
            if p.rc == 0 or changed or listening(port):
                raise Violation("a background server with relative paths was started in a directory that no longer exists: status %s, files left or changed %r" % (p.rc, sorted(changed)))
            return labels

        def serve(e):
            p = c.client("kv-cmd", config=conf, stdin="pipe", env={})
            a = c.waitAgent(p)
            d, out, err = blob(*e["in"]), blob(*e["out"]), blob(*e["err"])
            p.send(d)
            p.closeStdin()
            diff(d, c.op(a.readAll(), "the command reads its input", a)[1], "the client's input and what the command read")
            w = [a.write(1, out), a.write(2, err)]
            c.wait(lambda: len(p.out) >= len(out) and len(p.err) >= len(err) or p.rc is not None, "the command's output arrives")
            a.exit(e["exit"])
            c.finish(p)
            diff(out, bytes(p.out), "the command's stdout and the client's")
            diff(err, bytes(p.err), "the command's stderr and the client's")
            if p.rc != e["exit"]:
                raise Violation("a client of the background server exited with %s instead of %d" % (p.rc, e["exit"]))
        exe = env.bins["k8psh_shim" if case["shim"] or case["early"] else "k8psh"]
        environment = {"K8V_SHIM": case["shim"] or ""}
        if case["early"]:
            environment["K8V_SIGNAL"] = "setsid:0:%d" % case["early"]
        for again in range(2 if case["again"] and not prior else 1):
            before = tree()
            argv = ([b"k8pshd"] if case["server"] == "k8pshd" else [b"k8psh", b"-s"]) + [b"--config", b(conf), b"--name", b"srv"] + line
            spec = {"pipe": "pipe", "null": "null", "file": ("file", c.path("starter.log"))}[case["streams"]]
            spawned = time.monotonic()
            if case["umask"] == 0o022:
                p = c.proc(argv, exe=exe, env=environment, cwd=cwd, stdin="pipe" if case["streams"] == "pipe" else "null", stdout=spec, stderr="pipe" if case["streams"] == "pipe" else "null")
            else:
                old = os.umask(case["umask"])
                try:
                    p = c.proc(argv, exe=exe, env=environment, cwd=cwd, stdin="pipe" if case["streams"] == "pipe" else "null", stdout=spec, stderr="pipe" if case["streams"] == "pipe" else "null")
                finally:
                    os.umask(old)
            c.wait(lambda: p.rc is not None, "the starting process exits")
            starter = p.pid

            def left():
                """The processes that were started for the server."""
                out = []
                for d in os.listdir("/proc"):
                    if d.isdigit() and int(d) != os.getpid():
                        try:
                            if os.stat("/proc/" + d).st_uid == os.getuid() and b"\0".join(argv) + b"\0" == open("/proc/%s/cmdline" % d, "rb").read() and procState(int(d)) not in ("Z", "X", None):
                                out.append(int(d))
                        except OSError:
                            pass
                return out
            if prior:
                # The server must not start, and everything stays as it is
                c.wait(lambda: not left() and not listening(port), "no server remains if its PID file exists already or cannot be created (%s)" % prior)
                after = tree()
                if prior == "dangling" and exists(c.path("no-target")):
                    raise Violation("the file a dangling PID file link refers to was created")
                changed = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
                if case["keep"]:
                    changed -= {b(place) + b"/" + n.encode() for n in stubs}
                if changed:
                    raise Violation("the start failed because of the PID file (%s), but these files changed: %r" % (prior, sorted(changed)))
                return labels
            if p.rc != 0:
                raise Violation("the starting process exited with status %s: %r" % (p.rc, bytes(p.err[-300:])))

            if case["early"] in (15, 2):
                # It is told to stop as soon as its PID file is there
                labels.append("stopped-early")
                c.wait(lambda: not left(), "the background server exits when it is told to while it starts")
                after = tree()
                changed = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
                if case["keep"]:
                    changed -= {b(place) + b"/" + n.encode() for n in stubs}
                    for n in stubs:
                        os.unlink(b(place) + b"/" + n.encode())
                if changed:
                    raise Violation("the background server was told to stop (signal %d) while it started, but these files were left or changed: %r" % (case["early"], sorted(changed)))
                continue

            def content():
                try:
                    return open(pidFile, "rb").read()
                except OSError:
                    return b""
            def tooLate():
                return case["stop"] == "timeout" and time.monotonic() - spawned > case["timeout"] / 1000 - 0.05
            if pidFile:
                c.wait(lambda: content().endswith(b"\n") or not left(), "the background server writes its PID file")
                got = content()
                if tooLate() and not got:
                    return labels + ["too late"]
                if not got[:-1].isdigit() or not got.endswith(b"\n"):
                    raise Violation("the PID file contains %r" % got[:100])
                pid = int(got)
                if got != b"%d\n" % pid:
                    raise Violation("the PID file contains %r" % got[:100])
            else:
                c.wait(lambda: len(left()) == 1 or tooLate(), "the background server remains")
                if tooLate() and not left():
                    return labels + ["too late"]
                pid = left()[0]
            gone = lambda: procState(pid) in (None, "Z", "X")
            c.wait(lambda: gone() or catches(pid, signal.SIGTERM), "the background server gets ready")
            early = case["stop"] == "timeout"
            if gone() and not early:
                raise Violation("the background server is gone")
            try:
                fds = openFds(pid) or {}
                f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
                session = int(f[3])
                argvSeen = open("/proc/%d/cmdline" % pid, "rb").read()
            except OSError:
                session = None
            if session is not None and not gone():
                if pid == starter:
                    raise Violation("the server goes on in the starting process")
                if session != pid:
                    raise Violation("the background server %d is in session %d" % (pid, session))
                if any(fds.get(n) != "/dev/null" for n in (0, 1, 2)):
                    raise Violation("the background server's standard streams are %r" % fds)
                if left() != [pid] and not gone():
                    raise Violation("the processes of the background server are %r, its PID file says %d" % (left(), pid))
            # The starter's streams are released: whoever waits for their end gets it
            if case["streams"] == "pipe":
                c.wait(lambda: p.outEof and p.errEof, "the background server releases the starting process's output")
                if p.out or p.err:
                    raise Violation("the start wrote %r %r" % (bytes(p.out), bytes(p.err)))
            here = {k: v for k, v in tree().items() if before.get(k) != v}
            mine = {b(place) + b"/" + n.encode() for n in stubs}
            allowed = mine | ({pidFile} if pidFile else set())
            if not early or not gone():
                if set(here) - allowed or (set(mine) - set(tree()) and not early):
                    raise Violation("the start created or changed %r instead of %r" % (sorted(here), sorted(allowed)))
            for i in range(case["hup"]):
                if not gone():
                    os.kill(pid, signal.SIGHUP)
            if case["hup"] and not early:
                labels.append("hup")
                c.idle(0.01)
                if gone() or not listening(port):
                    raise Violation("SIGHUP ended the background server")
            held = []
            if not early:
                for e in exchanges:
                    serve(e)
                    labels.append("exchange")
                if case["fail"]:
                    labels.append("fail")
                    if case["fail"] == "missing":
                        q = c.client("kv-missing", config=conf, stdin="null")
                        c.finish(q, "a client whose command cannot start fails")
                        if q.rc == 0:
                            raise Violation("a client whose command cannot start exited with 0")
                    else:
                        conn = net.rawStart(c, port, b"kv-none") if case["fail"] == "unknown" else net.Conn.connect(c, port)
                        if case["fail"] == "garbage":
                            conn.send(b"\xff" * 40)
                        c.wait(lambda: conn.eof, "a bad request's connection is closed")
                        conn.close()
                if gone() and case["stop"] != "max" or pidFile and exists(pidFile) == False and not (case["stop"] == "max" and not running):
                    raise Violation("the background server is gone after its exchanges")
                for i in range(running):
                    q = c.client("kv-cmd", config=conf, stdin="pipe")
                    held.append((q, c.waitAgent(q)))
                if held:
                    labels.append("stopped-while-running")
            # Stop
            if case["stop"] in ("term", "int"):
                if gone():
                    raise Violation("the background server is gone before it was told to stop")
                os.kill(pid, {"term": signal.SIGTERM, "int": signal.SIGINT}[case["stop"]])
            elif early and not gone():
                at = case["timeout"] / 1000
                if exchanges and time.monotonic() - spawned < at - 0.2:
                    # Only if there is time enough
                    serve({"in": ["text", 5, 0], "out": ["text", 9, 0], "err": ["text", 3, 0], "exit": 4})
                    labels.append("exchange")
            c.wait(lambda: not listening(port) or gone(), "the background server stops accepting (%s)" % case["stop"])
            if early and time.monotonic() - spawned < case["timeout"] / 1000 - 0.005:
                raise Violation("the background server stopped before its timeout")
            if held and not case["nowait"]:
                c.idle(0.01)
                if gone():
                    raise Violation("the background server did not wait for its running commands")
                if pidFile and not exists(pidFile):
                    raise Violation("the PID file was removed before the background server ended")
            if held and case["nowait"]:
                c.wait(gone, "the background server ends at once with no-wait")
            for q, a in held:
                q.closeStdin()
                c.op(a.write(1, b"end"), agent=a)
                a.exit(9)
                c.finish(q)
                if q.rc != 9 or q.out != b"end":
                    raise Violation("a command that ran while the background server stopped ended with %s %r" % (q.rc, bytes(q.out)))
            c.wait(gone, "the background server exits (%s)" % case["stop"])
            c.wait(lambda: not left(), "nothing remains of the background server")
            after = tree()
            changed = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
            if case["keep"]:
                if mine - set(after):
                    raise Violation("client executables that are to be kept are gone: %r" % sorted(mine - set(after)))
                changed -= mine
                for m in mine:
                    os.unlink(m)
            if changed:
                raise Violation("the background server has exited (%s), but these files were left or changed: %r" % (case["stop"], sorted(changed)))
            if again:
                labels.append("again")
    return labels


def nontrivial(case, labels):
    return "relative" in labels or "exchange" in labels or "stopped-early" in labels or any(l.startswith("prior-") for l in labels)
