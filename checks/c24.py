"""C24: concurrent commands are independent of each other."""
import os, resource, stat, time
from hypothesis import strategies as st
from lib import gen, net
from lib.engine import Violation
from lib.h import Case, b, blob, diff, openFds, sq, wholeConfig

ID = "C24"
LEVEL = "exploration"
ARTIFACTS = ["k8psh", "k8psh_shim", "agent"]
EXAMPLES = {"quick": 130, "thorough": 2000}
TECHNIQUE = "stateful property-based testing of the real client and server: generated interleavings of several simultaneous exchanges against a per-client model, shrinking"
RULE = ("Each case is a generated interleaving of starts, input, output, closes, exits and failures over up to 8 simultaneous clients of one server (foreground, background, with system-call plans), (in some up to 270, thorough: 1100) started one by one or all at once, with one or several commands, each with its own arguments and variables; "
        "meanwhile others stall (their output is not read, their input is not read by the command), stay silent, connect without asking for anything, are killed, or have their command killed. "
        "Oracle: a model of every client: each step of a healthy one completes with exactly its own data whatever the others do, its command has its own argv and environment and exactly three descriptors, all different pipes from everyone else's, and it exits with its own code. Non-trivial: at least two clients are active at the same time and one step is done on each.")


def strategy(env):
    i = st.integers(0, 7)
    small = gen.data(env, 40000, 1)
    op = st.one_of(
        st.tuples(st.just("start"), i), st.tuples(st.just("start"), i),
        st.tuples(st.just("in"), i, small), st.tuples(st.just("in"), i, small), st.tuples(st.just("out"), i, small, st.sampled_from([1, 2])), st.tuples(st.just("out"), i, small, st.sampled_from([1, 2])),
        st.tuples(st.just("both"), i, i, small), st.tuples(st.just("eof"), i), st.tuples(st.just("close"), i, st.sampled_from([0, 1, 2])), st.tuples(st.just("exit"), i, gen.exitCodes),
        st.tuples(st.just("stallOut"), i, gen.data(env, 2000000, 200000)), st.tuples(st.just("stallIn"), i, gen.data(env, 2000000, 200000)), st.tuples(st.just("killClient"), i), st.tuples(st.just("killCommand"), i, st.sampled_from([9, 15, 6])),
        st.tuples(st.just("silent")), st.tuples(st.just("unknown")), st.tuples(st.just("missing")),
    ).map(list)
    return st.fixed_dictionaries({"debug": gen.rarely,
        "ops": st.lists(op, min_size=3, max_size=22), "first": st.one_of(*[st.integers(1, 8)] * 9, st.sampled_from([16, 30])), "together": st.booleans(), "how": st.sampled_from(["fg", "fg", "bg"]), "shim": gen.shimPlan(env, 4), "commands": st.integers(1, 3),
        "last": st.permutations(range(8)).map(list), "stubborn": st.booleans(), "limit": st.one_of(st.none(), st.none(), st.integers(0, 12)),
    })


def directed(env):
    # More at once than one would expect
    room = resource.getrlimit(resource.RLIMIT_NOFILE)[0] // 8  # (of the harness)
    some = ["rand", 1000, 1]
    base = {"together": False, "shim": None, "commands": 3, "last": list(range(8)), "stubborn": False, "limit": None, "ops": [["start", 0], ["both", 0, 1, some], ["exit", 2, 3], ["silent"], ["start", 2], ["in", 2, some], ["killClient", 3], ["start", 3], ["out", 3, some, 1]]}
    return [dict(base, first=min(140, room), how="fg"), dict(base, first=min(270 if env.tier == "quick" else 1100, room), how="bg", limit=12)]


class Client:
    pass


def run(case, env):
    labels = [case["how"]]
    with Case(env) as c:
        c.termsExpected = True  # checked per client
        port = env.port()
        # The server may have a connection limit, which is never exceeded: the last connections are as independent as the others
        limit = -1 if case["limit"] is None else case["first"] + case["limit"]
        options = ["-m", str(limit)] if limit >= 0 else []
        shim = " ".join(x for x in (case["shim"] or "").split(" ") if not x.startswith("d"))
        exe = env.bins["k8psh_shim" if shim else "k8psh"]
        conf = c.file("conf", wholeConfig(port, ["kv-c%d MINE= ?OTHER= %s conf%d" % (k, sq(c.agent), k) for k in range(case["commands"])] + ["kv-missing /nonexistent/x"]))
        os.mkdir(c.path("stubs"))
        if case["how"] == "bg":
            pidFile = c.path("pid")
            starter = c.proc(["k8pshd", "--config", conf, "--name", "srv", "-b", "-p", pidFile, "-e", c.path("stubs")] + options, exe=exe, env={"K8V_SHIM": shim, **gen.debug(case)}, stdin="null")
            c.finish(starter, "the starting process of the background server exits")

            def pid():
                try:
                    t = open(pidFile).read()
                    return int(t) if t.endswith("\n") else None
                except OSError:
                    return None
            c.wait(pid, "the background server writes its PID file")
            server = pid()
            c.wait(lambda: "/dev/null" == (openFds(server) or {}).get(0), "the background server detaches")
        else:
            server = c.server(conf, port=port, exe=exe, env={"K8V_SHIM": shim, **gen.debug(case)}, args=["-e", c.path("stubs")] + options).pid
        made = [0]

        def may():
            """Counts a connection, unless it would be one too many."""
            made[0] += 1
            return limit < 0 or made[0] <= limit
        clients = {}
        everUsed = [0]
        steps = set()
        concurrent = [0]
        latency = []

        def launch(i):
            k = Client()
            k.i, k.n = i, everUsed[0]
            everUsed[0] += 1
            k.tag = b"client%d" % k.n
            k.command = k.n % case["commands"]
            env_ = {"MINE": "value of %d" % k.n}
            if k.n % 2:
                env_["OTHER"] = "o%d" % k.n
            k.env = sorted(("%s=%s" % x).encode() for x in env_.items())
            if k.n % 2 == 0:
                k.env = [b"MINE=value of %d" % k.n]
            k.p = c.client("kv-c%d" % k.command, config=conf, args=[b"arg %d" % k.n, k.tag], env=env_, stdin="pipe")
            k.a = None
            k.inSent = k.inRead = 0
            k.inData, k.want = bytearray(), {1: bytearray(), 2: bytearray()}
            k.closed = set()
            k.state = "live"  # live, stalledOut, stalledIn, over
            k.pending = []
            clients[i] = k
            return k

        def joined(k):
            def mine():
                return [a for a in c.agents if a.hello and a.argv[-1:] == [k.tag]]
            c.wait(lambda: mine() or k.p.rc is not None, "a client's command starts, whatever the others do", late=None if case["together"] else 2.5)
            if not mine():
                raise Violation("a client failed (status %s) although only others misbehave: %r" % (k.p.rc, bytes(k.p.err[-300:])))
            k.a = mine()[0]
            want = [b(c.agent), b"conf%d" % k.command, b"arg %d" % k.n, k.tag]
            if k.a.argv != want:
                raise Violation("a command's arguments are %r instead of %r" % (k.a.argv, want))
            if sorted(k.a.environ) != k.env:
                raise Violation("a command's environment is %r instead of %r" % (k.a.environ, k.env))
            if [f[0] for f in k.a.fds] != [0, 1, 2] or any(f[1] != stat.S_IFIFO for f in k.a.fds):
                raise Violation("a command was started with the descriptors (number, type, flags) %r" % (k.a.fds,))
            targets = openFds(k.a.pid)
            if targets:
                k.pipes = {targets.get(f) for f in (0, 1, 2)}
                if len(k.pipes) != 3:
                    raise Violation("a command's standard streams are not separate: %r" % targets)
                for o in clients.values():
                    if o is not k and o.a and o.state != "over" and getattr(o, "pipes", set()) & k.pipes:
                        raise Violation("two commands share a standard stream: %r" % (o.pipes & k.pipes,))
            if case["stubborn"]:
                k.a.mode(1)

        def healthy():
            return [k for k in clients.values() if k.state == "live"]

        def check(k):
            if k.p.rc is not None:
                raise Violation("client %d ended (status %s) although its command goes on: %r" % (k.n, k.p.rc, bytes(k.p.err[-200:])))
            if k.a.terms:
                raise Violation("the command of client %d received signal %r although its client is there" % (k.n, k.a.terms))

        def doIn(k, data):
            if 0 in k.closed:
                return
            k.p.send(data)
            status, d = c.op(k.a.read(len(data)), "a command's input arrives, whatever the others do", k.a)
            diff(data, d, "a client's input and what its command read")

        def doOut(k, data, fd):
            if fd in k.closed:
                return
            k.want[fd] += data
            buf = k.p.out if fd == 1 else k.p.err
            o = k.a.write(fd, data)
            c.wait(lambda: len(buf) >= len(k.want[fd]) or k.p.rc is not None, "a command's output arrives, whatever the others do")
            diff(bytes(k.want[fd]), bytes(buf), "a command's output and what its client shows")
            c.op(o, agent=k.a)

        def doExit(k, code):
            k.p.closeStdin()
            if 0 not in k.closed:
                status, d = c.op(k.a.readAll(), "a command reads end-of-file", k.a)
                diff(bytes(k.inData), d, "a client's input and what its command read")
            k.a.exit(code)
            c.finish(k.p, "a client exits after its command, whatever the others do", late=2.5)
            diff(bytes(k.want[1]), bytes(k.p.out), "a command's stdout and the client's")
            diff(bytes(k.want[2]), bytes(k.p.err), "a command's stderr and the client's")
            if k.p.rc != code:
                raise Violation("a client exited with %s, its command with %d" % (k.p.rc, code))
            k.state = "over"

        def unstall(k):
            if k.state == "stalledOut":
                k.p.resume(1)
                for o in k.pending:
                    c.op(o, "a stalled command goes on once its output is consumed", k.a)
                k.pending = []
                c.wait(lambda: len(k.p.out) >= len(k.want[1]), "stalled output arrives once it is consumed")
            elif k.state == "stalledIn":
                status, d = c.op(k.a.read(len(k.inData)), "stalled input arrives once it is read", k.a)
                diff(bytes(k.inData), d, "a client's input and what its command read")
                k.inData.clear()
            k.state = "live"
        ks = []
        for i in range(case["first"]):
            may()
            k = launch(i)
            ks.append(k)
            if not case["together"]:
                joined(k)
        if case["together"]:
            for k in ks:
                joined(k)
            labels.append("together")
        for o in case["ops"]:
            kind = o[0]
            others = [k for k in clients.values() if k.state != "over"]
            if kind in ("silent", "unknown", "missing") and not may():
                continue
            if kind == "silent":
                net.Conn.connect(c, port)
                labels.append(kind)
                continue
            if kind in ("unknown", "missing"):
                p = c.client("kv-missing", config=conf, stdin="null") if kind == "missing" else None
                if p:
                    c.finish(p, "a client whose command cannot start fails")
                    if p.rc == 0:
                        raise Violation("a client whose command cannot start exited with 0")
                else:
                    conn = net.rawStart(c, port, b"kv-none")
                    c.wait(lambda: conn.eof, "a request for an unknown command is refused")
                labels.append(kind)
                continue
            k = clients.get(o[1])
            if kind == "start":
                if (k is None or k.state == "over") and may():
                    joined(launch(o[1]))
                continue
            if k is None or k.state != "live":
                live = healthy()
                if not live:
                    continue
                k = live[o[1] % len(live)]
            t0 = time.monotonic()
            check(k)
            if len(others) > 1:
                steps.add(k.n)
                labels.append(kind)
            if kind == "in":
                doIn(k, blob(*o[2]))
            elif kind == "out":
                doOut(k, blob(*o[2]), o[3])
            elif kind == "both":
                live = healthy()
                k2 = live[o[2] % len(live)]
                d = blob(*o[3])
                if k2 is not k and 1 not in k.closed and 1 not in k2.closed:
                    # Two commands write at the same time
                    for x, data in ((k, d), (k2, d[::-1])):
                        x.want[1] += data
                        x.pending.append(x.a.write(1, data))
                    for x in (k, k2):
                        c.wait(lambda: len(x.p.out) >= len(x.want[1]) or x.p.rc is not None, "simultaneous output arrives")
                        diff(bytes(x.want[1]), bytes(x.p.out), "a command's output and what its client shows")
                        for w in x.pending:
                            c.op(w, agent=x.a)
                        x.pending = []
            elif kind == "eof":
                if 0 not in k.closed:
                    k.p.closeStdin()
                    status, d = c.op(k.a.readAll(), "a command reads end-of-file, whatever the others do", k.a)
                    diff(b"", d, "a client's input and what its command read")
                    k.closed.add(0)
            elif kind == "close":
                if o[2] not in k.closed and (o[2] == 0 or not {1, 2} & k.closed):
                    c.op(k.a.close(o[2]), agent=k.a)
                    k.closed.add(o[2])
            elif kind == "exit":
                doExit(k, o[2])
            elif kind == "stallOut":
                if 1 not in k.closed:
                    d = blob(*o[2])
                    k.p.pause(1)
                    k.want[1] += d
                    k.pending.append(k.a.write(1, d))
                    k.state = "stalledOut"
            elif kind == "stallIn":
                if 0 not in k.closed:
                    d = blob(*o[2])
                    k.inData += d
                    k.p.send(d)
                    k.state = "stalledIn"
            elif kind == "killClient":
                k.p.kill(9)
                k.state = "over"
                k.killed = True
                c.wait(lambda: k.a.terms or k.a.gone, "the command of a killed client is told to terminate")
            elif kind == "killCommand":
                k.a.signal(o[2])
                k.state = "over"
                if case["stubborn"] and o[2] == 15:
                    k.p.kill(9)
                else:
                    c.finish(k.p, "a client whose command was killed ends")
                    if k.p.rc == 0:
                        raise Violation("a client whose command was killed exited with 0")
            if kind in ("in", "out", "eof", "exit"):
                latency.append(time.monotonic() - t0)
        # Everything still running completes, in a generated order
        rest = [k for k in clients.values() if k.state != "over"]
        rest.sort(key=lambda k: case["last"].index(k.i % 8))
        for k in rest:
            check(k)
            unstall(k)
            doOut(k, b"last words of %d" % k.n, 2)
            doExit(k, 10 + k.n % 200)
        # and the server still serves
        if may():
            k = launch(99)
            joined(k)
            doIn(k, b"x")
            doExit(k, 5)
        else:
            labels.append("limit")
        if len(latency) >= 5 and min(latency) > 0.4:
            raise Violation("every one of %d steps took at least %.2f s while other commands were running" % (len(latency), min(latency)))
        if len(steps) > 1:
            labels.append("several")
    return labels


def nontrivial(case, labels):
    return "several" in labels
