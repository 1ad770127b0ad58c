"""C28: a remote command starts in the process context of its server."""
import os, resource, signal, socket
from hypothesis import strategies as st
from lib import gen, net
from lib.engine import Violation
from lib.h import Case, diff, listening, procState, sq, wholeConfig

ID = "C28"
LEVEL = "exploration"
ARTIFACTS = ["k8psh", "k8psh_shim", "agent"]
EXAMPLES = {"quick": 60, "thorough": 1500}
WORKERS = 16
TECHNIQUE = "differential property-based testing: the process attributes of every remote command against those of the same program started directly from the context the server was started from; generated contexts and histories; shrinking"
RULE = ("Each case starts a server in a generated context (blocked and ignored signals, file creation mask, priority, resource limits, out-of-memory score, timer slack), in the foreground or background with generated options, and then a generated history of commands, "
        "some at the same time and some already waiting when the server starts, in between connections that fail in several ways. The same program is also started directly from that context. "
        "Oracle: both report the same blocked, ignored and pending signals, mask (foreground), limits, priority, scheduling, timers, user and group ids and other attributes that survive execve, except those background mode sets (SIGHUP ignored, file creation mask); SIGCHLD is not ignored for the command unless it was in the context; the standard streams are in blocking mode at the start and at the end. "
        "Non-trivial: the context differs from the default one, or a command follows another connection.")
NAMES = ["SIGPIPE", "SIGUSR1", "SIGUSR2", "SIGALRM", "SIGQUIT", "SIGTSTP", "SIGTTIN", "SIGTTOU", "SIGWINCH", "SIGXFSZ", "SIGPROF", "SIGURG", "SIGIO"]
LIMITS = {"NOFILE": [950, 1024, 4096], "CORE": [0, 4096], "FSIZE": [1 << 30, 1 << 40], "STACK": [1 << 20, 4 << 20, 16 << 20], "CPU": [1000, 100000], "AS": [1 << 32, 1 << 36], "DATA": [1 << 31], "MEMLOCK": [0, 4096], "MSGQUEUE": [0, 1000], "SIGPENDING": [10, 1000]}


def strategy(env):
    return st.fixed_dictionaries({
        "blocked": st.lists(st.sampled_from(NAMES + ["SIGCHLD", "SIGTERM", "SIGINT", "SIGHUP", "SIGRTMIN"]), max_size=3, unique=True),
        "ignored": st.lists(st.sampled_from(NAMES + ["SIGPIPE", "SIGCHLD"]), max_size=3, unique=True),
        "umask": st.sampled_from([0o022, 0o022, 0o077, 0, 0o027, 0o777, 0o002]), "nice": st.sampled_from([0, 0, 1, 3]), "oom": st.sampled_from([None, None, 300]), "slack": st.sampled_from([None, None, 123456]),
        "limits": st.dictionaries(st.sampled_from(sorted(LIMITS)), st.integers(0, 9), max_size=3), "hard": st.booleans(),
        "background": st.booleans(), "nowait": st.booleans(), "timeout": st.booleans(), "max": st.booleans(), "early": st.integers(0, 2), "shim": st.one_of(st.none(), st.none(), st.just("iaccept:1,2,3,0 ipoll:1,0,1,0"), gen.shimPlan(env, 2)),
        "steps": st.lists(st.one_of(st.just("run"), st.just("run"), st.just("hold"), st.sampled_from(["missing", "unknown", "garbage", "abort", "reset", "kill", "silent", "big"])), min_size=1, max_size=6),
    })


def directed(env):
    base = {"blocked": [], "ignored": [], "umask": 0o022, "nice": 0, "oom": None, "slack": None, "limits": {}, "hard": False, "background": False, "nowait": False, "timeout": False, "max": False, "early": 1, "shim": None, "steps": ["run", "missing", "abort", "kill", "hold", "garbage", "run", "run"]}
    return [dict(base, background=bg, nowait=w, timeout=t, max=m) for bg in (False, True) for w in (False, True) for t in (False, True) for m in (False, True)] + [
        dict(base, ignored=["SIGPIPE"]), dict(base, blocked=["SIGTERM", "SIGINT", "SIGHUP", "SIGCHLD"], background=True), dict(base, blocked=["SIGTERM", "SIGINT", "SIGHUP", "SIGCHLD"]),
        dict(base, limits={"NOFILE": 0, "CORE": 0, "STACK": 0}, hard=True, umask=0o077, nice=3, oom=300, slack=123456)]


def parse(text, background, ignored):
    out = {}
    for line in text.decode("latin-1").splitlines():
        key, _, value = line.partition(":")
        if line.startswith("Max "):
            out[line[:26].strip()] = line[26:].split()
        elif key in ("SigBlk", "ShdPnd", "SigPnd"):
            out[key] = int(value, 16)
        elif key == "SigIgn":
            mask = int(value, 16)
            # Background mode ignores SIGHUP; whether SIGCHLD stays ignored if it was is not specified
            for sig in ([signal.SIGHUP] if background else []) + ([signal.SIGCHLD] if "SIGCHLD" in ignored else []):
                mask &= ~(1 << (sig - 1))
            out[key] = mask
        elif key == "Umask":
            if not background:
                out[key] = value.strip()
        elif key in ("Uid", "Gid", "Groups", "NoNewPrivs", "Seccomp", "CapInh", "CapPrm", "CapEff", "CapBnd", "CapAmb", "Cpus_allowed",
                     "OomAdj", "Personality", "Nice", "Scheduler", "DeathSignal", "Subreaper", "TimerSlack", "Dumpable"):
            out[key] = value.strip()
        elif key == "Timer":
            out.setdefault("Timers", []).append(value.strip())
        elif key == "Flags":
            out.setdefault("nonblocking", []).append(bool(int(value) & os.O_NONBLOCK))
    return out


def run(case, env):
    labels = []
    ignored, blocked = case["ignored"], [s for s in case["blocked"]]
    background = case["background"]
    with Case(env) as c:
        port = env.port()

        def pre():
            os.umask(case["umask"])
            for s in ignored:
                signal.signal(getattr(signal, s), signal.SIG_IGN)
            signal.pthread_sigmask(signal.SIG_SETMASK, [getattr(signal, s) for s in blocked])
            if case["nice"]:
                os.nice(case["nice"])
            if case["oom"]:
                with open("/proc/self/oom_score_adj", "w") as f:
                    f.write(str(case["oom"]))
            if case["slack"]:
                import ctypes
                ctypes.CDLL(None).prctl(29, case["slack"], 0, 0, 0)
            for k, i in sorted(case["limits"].items()):
                r = getattr(resource, "RLIMIT_" + k)
                soft, hard = resource.getrlimit(r)
                v = LIMITS[k][i % len(LIMITS[k])]
                if hard != resource.RLIM_INFINITY:
                    v = min(v, hard)
                resource.setrlimit(r, (v, v if case["hard"] else hard))
        if ignored or blocked or case["umask"] != 0o022 or case["nice"] or case["limits"] or case["oom"]:
            labels.append("context")
        reference = c.proc([b"agent"], exe=c.agent, env={}, stdin="pipe", pre=pre)
        a = c.waitAgent(reference)
        expected = parse(c.op(a.context(), agent=a), background, ignored)
        a.exit(0)
        c.finish(reference)
        if not {"SigBlk", "SigIgn", "SigPnd", "Uid", "Nice", "Timers", "Max open files", "nonblocking"} <= set(expected):
            raise AssertionError("incomplete reference %r" % expected)
        steps = list(case["steps"])
        early = case["early"]
        options = (["-b"] if background else []) + ["-p", c.path("pid")] + ["-w"] * case["nowait"] + (["-t", "100000"] if case["timeout"] else []) + (["-m", str(len(steps) + early)] if case["max"] else [])
        conf = c.file("conf", wholeConfig(port, ["kv-cmd " + sq(c.agent), "kv-missing /nonexistent/x"], timeout=20000))
        held = []

        def client(**kw):
            return c.client("kv-cmd", config=conf, stdin="pipe", **kw)

        def check(p, what):
            a = c.waitAgent(p)
            for attempt in range(2):
                got = parse(c.op(a.context(), agent=a), background, ignored)
                if got != expected:
                    names = sorted(k for k in set(got) | set(expected) if got.get(k) != expected.get(k))
                    raise Violation("%s was started with other process attributes than its server: %s" % (what, "; ".join("%s %r instead of %r" % (k, got.get(k), expected.get(k)) for k in names)))
                if attempt == 0:
                    p.send(b"some data")
                    diff(b"some data", c.op(a.read(9), agent=a)[1], "input")
                    w = a.write(1, b"x" * 70000)
                    c.op(w, agent=a)
            return a

        def end(p, a):
            a.exit(5)
            c.finish(p)
            if p.rc != 5 or p.out != b"x" * 70000:
                raise Violation("the client exited with status %s and %d bytes of output" % (p.rc, len(p.out)))
        waiting = [client() for _ in range(early)]
        if early:
            labels.append("early")
            c.idle(0.05)
        server = c.server(conf, port=port, args=options, exe=env.bins["k8psh_shim"] if case["shim"] else None, env={"K8V_SHIM": case["shim"] or ""}, pre=pre, ready=not background)
        if background:
            labels.append("background")
            c.wait(lambda: server.rc is not None, "the starting process exits")
            c.wait(lambda: listening(port) or early, "the background server listens")
        # Which of the waiting clients gets which agent does not matter
        taken = []
        for i in range(early):
            c.wait(lambda: len([x for x in c.agents if x.hello]) > c.taken or any(p.rc is not None for p in waiting), "a waiting client's command starts")
            taken.append(None)
            c.taken += 1
        if early:
            for x in c.agents[1:1 + early]:
                got = parse(c.op(x.context(), agent=x), background, ignored)
                if got != expected:
                    names = sorted(k for k in set(got) | set(expected) if got.get(k) != expected.get(k))
                    raise Violation("the command of a client that waited for the server was started with other process attributes than its server: %s" % "; ".join("%s %r instead of %r" % (k, got.get(k), expected.get(k)) for k in names))
                x.exit(5)
            for p in waiting:
                c.finish(p)
                if p.rc != 5:
                    raise Violation("a waiting client exited with status %s: %r" % (p.rc, bytes(p.err[-300:])))
        for n, step in enumerate(steps):
            what = "command %d" % (n + 1 + early)
            if n + early and step in ("run", "hold"):
                labels.append("later")
            if step == "run":
                p = client()
                end(p, check(p, what))
            elif step == "hold":
                p = client()
                held.append((p, check(p, what)))
            elif step == "missing":
                p = c.client("kv-missing", config=conf, stdin="null")
                c.finish(p)
            elif step == "kill":
                p = client()
                a = check(p, what)
                a.termExpected = True
                p.kill()
                if "SIGTERM" in blocked:  # it will not notice
                    c.idle(0.02)
                    a.exit(0)
                c.wait(lambda: a.gone, "the command ends after its client was killed")
            elif step == "big":
                p = client()
                a = check(p, what)
                c.op(a.close(0), agent=a)
                p.send(b"y" * 200000)
                a.exit(5)
                c.finish(p)
            else:
                s = socket.create_connection(("127.0.0.1", port))
                c.closers.append(s.close)
                if step == "unknown":
                    s.sendall(net.msg(0, b".") + net.msg(3, b"nothing"))
                elif step == "garbage":
                    s.sendall(b"\xff" * 100)
                elif step == "reset":
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
                    s.sendall(b"\0")
                if step != "silent":
                    s.close()
        for p, a in held:
            got = parse(c.op(a.context(), agent=a), background, ignored)
            if got != expected:
                raise Violation("the attributes of a running command changed: %r instead of %r" % (got, expected))
            end(p, a)
    return labels


def nontrivial(case, labels):
    return "context" in labels or "later" in labels
