"""C29: servers on one port: the next one starts at once, a second one changes nothing."""
import os, signal, socket, stat, time
from hypothesis import strategies as st
from lib import gen, net
from lib.engine import Violation
from lib.h import Case, diff, listening, procState, sq, wholeConfig

ID = "C29"
LEVEL = "exploration"
ARTIFACTS = ["k8psh", "k8psh_shim", "agent"]
EXAMPLES = {"quick": 30, "thorough": 1000}
WORKERS = 16
TECHNIQUE = "stateful property-based testing of generations of real servers on one port (starts, stops, kills, intruders, simultaneous starts) against a model of the port, the client executables and the PID file; shrinking"
RULE = ("Each case runs several generations of servers on the same port, executable directory and configuration, in the foreground or background, each ended in a generated way (SIGTERM, SIGINT, limit, timeout, SIGKILL), with a generated history of exchanges before (connections closed by either side, still open, or still running commands, with or without no-wait); the next server is started as soon as the port is free, sometimes while the previous one still waits for its commands, and sometimes a client is already waiting for it. "
        "While a server serves, others are started on its port with options that replace or remove client executables and with the same PID file; or several are started at the same moment. "
        "Oracle: every next server starts and serves; every other server fails at once with a status other than 0; the serving server's links and PID file stay exactly as they are (until it exits, and also when its predecessor exits later), and it serves on; a command of an earlier server goes on undisturbed. Non-trivial: an earlier connection, running command, intruder or simultaneous start was involved.")


def strategy(env):
    generation = st.fixed_dictionaries({
        "mode": st.sampled_from(["fg", "fg", "bg"]), "nowait": st.booleans(), "stop": st.sampled_from(["term", "term", "int", "max", "timeout", "kill"]), "runs": st.lists(st.sampled_from(["run", "run", "raw", "rawleft", "reset", "killed", "missing"]), max_size=4),
        "held": st.integers(0, 2), "waiting": st.booleans(), "drain": st.booleans(), "options": st.sampled_from([[], ["-l"], ["-d"]]),
        "intruders": st.lists(st.fixed_dictionaries({"options": st.lists(st.sampled_from(["-o", "-d", "-l", "-k", "-w", "-b", "-b"]), max_size=4, unique=True), "pid": st.booleans(), "name": st.sampled_from(["srv", "srv", "other"])}), max_size=2),
        "together": st.sampled_from([0, 0, 0, 2, 3]),
    })
    return st.fixed_dictionaries({"generations": st.lists(generation, min_size=2, max_size=4), "shim": st.one_of(st.none(), st.none(), gen.shimPlan(env, 2))})


def directed(env):
    base = {"mode": "fg", "nowait": False, "stop": "term", "runs": ["run"], "held": 0, "waiting": False, "drain": False, "options": [], "intruders": [], "together": 0}
    out = []
    for mode in ("fg", "bg"):
        for stop in ("term", "kill", "max", "timeout"):
            out.append([dict(base, mode=mode, stop=stop, held=1, nowait=True), dict(base, mode=mode, stop=stop)])
            out.append([dict(base, mode=mode, stop=stop, held=1, drain=True), dict(base, mode=mode, stop=stop)])
        out.append([dict(base, mode=mode, intruders=[{"options": o, "pid": True, "name": n}]) for o in (["-o"], ["-d"], ["-o", "-b"], []) for n in ("srv", "other")])
        out.append([dict(base, mode=mode, together=4), dict(base, mode=mode, waiting=True, together=3)])
    return [{"generations": g, "shim": None} for g in out]


def snapshot(c, stubs, pid):
    out = {}
    for d in (stubs, os.path.dirname(pid)):
        for n in sorted(os.listdir(d)):
            p = os.path.join(d, n)
            s = os.lstat(p)
            out[p] = (stat.S_IFMT(s.st_mode), s.st_ino, s.st_mtime_ns, os.readlink(p) if stat.S_ISLNK(s.st_mode) else open(p, "rb").read())
    return out


def run(case, env):
    labels = []
    with Case(env) as c:
        port = env.port()
        stubs, run_ = c.path("stubs"), c.path("run")
        os.mkdir(stubs)
        os.mkdir(run_)
        pidFile = run_ + "/pid"
        conf = c.file("conf", wholeConfig(port, ["kv-cmd " + sq(c.agent), "kv-missing /nonexistent/x", "[far]", "kv-far x", "kv-away x", "[other:%d]" % port, "kv-other " + sq(c.agent)], timeout=30000))
        exe = env.bins["k8psh_shim" if case["shim"] else "k8psh"]
        senv = {"K8V_SHIM": case["shim"] or ""}
        held = []      # (client, agent, server) of earlier generations
        draining = []  # servers that wait for their commands
        waiting = None
        tag = [0]

        def client(**kw):
            tag[0] += 1
            p = c.client("kv-cmd", ["t%d" % tag[0]], config=conf, stdin="pipe", **kw)
            p.tag = b"t%d" % tag[0]
            return p

        def agentOf(p, what):
            c.wait(lambda: p.rc is not None or any(a.hello and a.argv[-1] == p.tag for a in c.agents), what)
            for a in c.agents:
                if a.hello and a.argv[-1] == p.tag:
                    return a
            raise Violation("%s: the client ended with status %s: %r" % (what, p.rc, bytes(p.err[-200:])))

        def complete(p, a, code=7):
            p.send(b"in")
            diff(b"in", c.op(a.read(2), "a command gets its input", a)[1], "input")
            c.op(a.write(1, b"out" * 1000), agent=a)
            a.exit(code)
            c.finish(p)
            diff(b"out" * 1000, bytes(p.out), "output")
            if p.rc != code:
                raise Violation("a client exited with %s instead of %d" % (p.rc, code))

        def exchange(what="a client is served"):
            p = client()
            complete(p, agentOf(p, what))

        def start(args, name="srv", n=None):
            i = len(c.servers)
            return c.server(conf, name=name, port=port, args=args, exe=exe, env=senv, ready=False)

        def alive(pid):
            return procState(pid) not in (None, "Z", "X")
        if case["shim"]:
            labels.append("shim")
        generations = case["generations"]
        for number, g in enumerate(generations):
            last = number == len(generations) - 1
            what = "generation %d" % (number + 1)
            # What earlier servers left must not keep this one from starting; -d is not combined with links it would remove
            options = list(g["options"])
            leftover = os.listdir(stubs)
            if leftover:
                options.append("-o")
            if number and draining:
                options += ["-o"] if "-o" not in options else []
            if os.path.exists(pidFile) and not any(d["mode"] == "bg" for d in draining):
                os.unlink(pidFile)
            pidPath = pidFile
            if os.path.exists(pidFile):  # still that of a draining one
                pidPath = "%s/pid%d" % (run_, number)
            held0 = g["held"]
            early = 1 if waiting else 0
            if g["stop"] == "max" and not (g["runs"] or held0):
                held0 = 1  # it shall not end with the waiting client already
            # Every run but a failing connect is one connection
            planned = early + len(g["runs"]) + held0 + (1 if g["intruders"] else 0)
            args = ["-e", stubs, "-p", pidPath] + options + ["-b"] * (g["mode"] == "bg") + ["-w"] * g["nowait"]
            timed = g["stop"] == "timeout"
            span = 700 + 250 * planned
            if g["stop"] == "max":
                args += ["-m", str(planned)]
            elif timed:
                args += ["-t", str(span)]
            together = g["together"] if not timed else 0
            starts = [start(args)]
            began = time.monotonic()
            if together:
                labels.append("together")
                starts += [start(args[:3] + [run_ + "/x%d" % i] + args[4:]) for i in range(together - 1)]
                # Exactly one of them serves
                c.wait(lambda: sum(s.rc is not None for s in starts) >= (together - 1 if g["mode"] == "fg" else together), "%s: all but one of %d servers started at the same time exit" % (what, together))
                if g["mode"] == "fg":
                    c.idle(0.02)
                winners = [s for s in starts if (s.rc is None if g["mode"] == "fg" else s.rc == 0)]
                if len(winners) != 1:
                    raise Violation("%s: %d of %d servers started at the same time on one port serve (status %r)" % (what, len(winners), together, [s.rc for s in starts]))
                for s in starts:
                    if s is not winners[0] and s.rc == 0:
                        raise Violation("%s: a server exited with status 0 although its port was in use" % what)
                server = winners[0]
                if server is not starts[0]:
                    pidPath = run_ + "/x%d" % (starts.index(server) - 1)
            else:
                server = starts[0]
            if g["mode"] == "bg":
                c.wait(lambda: server.rc is not None, "%s: the starting process exits" % what)
                if server.rc != 0:
                    raise Violation("%s does not start (status %s): %r" % (what, server.rc, c.serverLog(server)))

                def pidOf():
                    try:
                        t = open(pidPath, "rb").read()
                        return int(t) if t.endswith(b"\n") else None
                    except OSError:
                        return None
                c.wait(lambda: pidOf() is not None or not listening(port), "%s writes its PID file" % what)
                if pidOf() is None:
                    if timed and time.monotonic() - began > span / 1000:
                        return labels + ["too late"]
                    raise Violation("%s: the background server ended instead of serving" % what)
                pid = pidOf()
            else:
                pid = server.pid
                c.wait(lambda: listening(port) or server.rc is not None, "%s listens" % what)
                if server.rc is not None and not timed:
                    raise Violation("%s does not start (status %s): %r" % (what, server.rc, c.serverLog(server)))

            def late():
                return timed and time.monotonic() > began + span / 1000 - 0.1
            links = {"kv-far", "kv-away", "kv-other"} | ({"kv-cmd", "kv-missing"} if "-l" in options else set()) if "-d" not in options else set()
            c.wait(lambda: set(os.listdir(stubs)) == links or late() or not alive(pid), "%s: the client executables are those of the new server (%r, not %r)" % (what, sorted(links), sorted(os.listdir(stubs))))
            if not late() and not alive(pid):
                raise Violation("%s ended instead of serving: %r" % (what, c.serverLog(server)))
            c.wait(lambda: (signalsReady(pid) or late() or not alive(pid)), "%s is ready" % what)
            if waiting:
                complete(waiting, agentOf(waiting, "a client that was waiting is served by the next server"), 3)
                waiting = None
                labels.append("waiting")
            before = snapshot(c, stubs, pidFile)

            def unchanged(when):
                after = snapshot(c, stubs, pidFile)
                changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
                if changed and not late() and alive(pid):
                    raise Violation("%s: %s changed or removed files of the serving server: %r" % (what, when, changed))
            # Its predecessors may exit only now
            if draining:
                labels.append("drained")
                for d in list(draining):
                    for p, a in d["held"]:
                        complete(p, a, 9)
                    c.wait(lambda: not alive(d["pid"]), "an earlier server exits after its last command")
                    if d["mode"] == "bg":
                        c.wait(lambda: not os.path.exists(d["pidPath"]), "an earlier server removes its PID file")
                        before.pop(d["pidPath"], None)
                draining.clear()
                unchanged("the exit of the previous server")
            for i, other in enumerate(g["intruders"]):
                labels.append("intruder")
                x = start(["-e", stubs, "-p", pidPath if other["pid"] else run_ + "/intruder"] + other["options"], name=other["name"])
                c.wait(lambda: x.rc is not None or late(), "%s: a second server on the same port exits at once" % what)
                if late() or not alive(pid):
                    break
                if x.rc == 0:
                    raise Violation("%s: a second server on the same port exited with status 0" % what)
                unchanged("a second server on the same port (%s, status %s)" % (" ".join(other["options"]), x.rc))
                if not alive(pid) and not late():
                    raise Violation("%s: the serving server ended when another was started" % what)
            if g["intruders"] and not late():
                exchange("%s still serves after others were started on its port" % what)
            mine = []
            for r in g["runs"]:
                if late():
                    break
                if r == "run":
                    exchange("%s serves" % what)
                elif r == "missing":
                    p = c.client("kv-missing", config=conf, stdin="null")
                    c.finish(p)
                    if p.rc == 0:
                        raise Violation("a missing executable gave status 0")
                elif r == "killed":
                    p = client()
                    a = agentOf(p, "%s serves" % what)
                    a.termExpected = True
                    p.kill()
                    c.wait(lambda: a.gone, "the command ends after its client was killed")
                else:
                    s = socket.create_connection(("127.0.0.1", port))
                    if r == "rawleft":
                        s.sendall(net.msg(0, b"."))
                        c.closers.append(s.close)
                    else:
                        if r == "reset":
                            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
                        s.close()
                labels.append("connection")
            for i in range(held0):
                if late():
                    break
                p = client()
                mine.append((p, agentOf(p, "%s serves" % what)))
                labels.append("held")
            if any(r == "rawleft" for r in g["runs"]) and g["stop"] != "kill" and not g["nowait"]:
                # It would wait for these connections
                for x in c.closers:
                    x()
                c.closers.clear()
            if g["stop"] in ("term", "int", "kill"):
                os.kill(pid, {"term": signal.SIGTERM, "int": signal.SIGINT, "kill": signal.SIGKILL}[g["stop"]])
            c.wait(lambda: not listening(port), "%s stops accepting (%s)" % (what, g["stop"]), timeout=env.hang + span / 1000)
            drains = mine and not g["nowait"] and g["stop"] != "kill"
            if drains and not (g["drain"] and not last):
                for p, a in mine:
                    complete(p, a, 9)
                mine = []
                drains = False
            if drains:
                draining.append({"pid": pid, "held": mine, "mode": g["mode"], "pidPath": pidPath})
            else:
                held += mine
                c.wait(lambda: not alive(pid), "%s exits" % what)
                if g["mode"] == "bg" and g["stop"] != "kill":
                    c.wait(lambda: not os.path.exists(pidPath), "%s removes its PID file" % what)
                if g["stop"] == "kill":
                    labels.append("killed")
            if g["waiting"] and not last:
                waiting = client()
                c.idle(0.02)
        for p, a in held:
            complete(p, a, 11)
        if waiting:
            waiting.kill()
    return labels


def signalsReady(pid):
    from lib.h import catches
    return catches(pid, signal.SIGTERM)


def nontrivial(case, labels):
    return bool({"connection", "held", "intruder", "together"} & set(labels))
