"""C10: one connection can never harm the server or any other connection."""
import os, resource, time
from hypothesis import strategies as st
from lib import gen, net
from lib.engine import Violation
from lib.h import KINDS, Case, b, blob, childrenOf, diff, openFds, sq, wholeConfig

ID = "C10"
LEVEL = "fault_enumeration"
ARTIFACTS = ["k8psh", "k8psh_shim", "k8psh_asan", "agent"]
EXAMPLES = {"quick": 110, "thorough": 1500}
RULE = ("Each case is a generated history on one server (foreground, background, or built with sanitizers): misbehaving peers (random bytes, mutated or truncated or oversized protocol messages, messages out of order, unknown or unstartable commands, unusable directories, connection storms, processes or descriptors that are not available for a moment, started commands that are then abandoned or never listened to; "
        "each ended by close, reset, half-close or left open) interleaved with well-behaved clients that are in progress or start anew. Oracle: every well-behaved exchange is exact and gets no signal; the server process, its stubs and PID file are still there; after all connections are over the server has no child left and the descriptors it started with; no sanitizer report. "
        "Non-trivial: at least two misbehaving peers and one well-behaved client after or around them.")

ENDS = ["fin", "rst", "half", "stay"]


def strategy(env):
    lengths = st.one_of(st.just(-1), st.just(-1), st.just(-1), st.sampled_from([0, 1, 4, 5, 8186, 8187, 8188, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe]), st.integers(0, 0xffffffff), st.integers(0, 300))
    payload = st.one_of(st.sampled_from(["", "kv-peer", "kv-missing", "kv-none", "kv-good", "x", "A=b", "=", "..", "/", "d", "d/e", "\0", "nonexistent", "K8PSH=1", "PATH=/", "kv-peer\0", "../../.."] + env.strs), gen.rawBytes(0, 30, True), gen.data(env, 100000).map(lambda d: "@%s:%d:%d" % tuple(d)))
    message = st.tuples(st.one_of(st.integers(0, 8), st.integers(0, 8), st.integers(0, 255)), lengths, payload).map(list)
    end = st.sampled_from(ENDS)
    op = st.one_of(
        st.tuples(st.just("garbage"), st.one_of(gen.rawBytes(0, 60, True), gen.data(env, 200000).map(lambda d: "@%s:%d:%d" % tuple(d))), end),
        st.tuples(st.just("msgs"), st.lists(message, min_size=1, max_size=6), end), st.tuples(st.just("msgs"), st.lists(message, min_size=1, max_size=6), end),
        st.tuples(st.just("storm"), st.integers(1, 25), end),
        st.tuples(st.just("start"), st.lists(message, max_size=4), gen.data(env, 3000000), end),
        st.tuples(st.just("bad"), st.sampled_from(["unknown", "missing", "dir", "silent", "noexec"]), end),
        st.tuples(st.just("realbad"), st.sampled_from(["unknown", "missing", "killed"])),
        st.tuples(st.just("nofork"), st.sampled_from(["K8V_FORK", "K8V_FORK", "K8V_FORKH"]), st.sampled_from(["client", "peer", "silent"])),
        st.tuples(st.just("nofile"), st.integers(1, 40)),
        st.tuples(st.just("good"), gen.data(env, 70000), gen.data(env, 70000), gen.exitCodes),
        st.tuples(st.just("open")), st.tuples(st.just("step"), st.integers(0, 3), gen.data(env, 50000, 1)), st.tuples(st.just("drop"), st.integers(0, 9), st.sampled_from(ENDS[:2])),
    ).map(list)
    return st.fixed_dictionaries({"ops": st.lists(op, min_size=2, max_size=10), "how": st.sampled_from(["fg", "shim", "bg", "asan", "shim"])})


def directed(env):
    s = 33 if env.tier == "quick" else 130
    some = ["rand", 1000, 1]
    return [{"how": how, "ops": ops} for how, ops in [
        ("fg", [["open"], ["storm", 3, "stay"], ["idle", s], ["step", 0, some], ["good", some, some, 3]]),
        ("bg", [["idle", s], ["open"], ["step", 1, some]]),
        ("fg", [["open"], ["slow", s], ["step", 0, some]]),
        ("fg", [["open"], ["storm", 300, "stay"], ["good", some, some, 3], ["step", 0, some]]),
        ("bg", [["storm", 300, "close"], ["open"], ["storm", 300, "rst"], ["step", 0, some], ["good", some, some, 3]]),
    ]]


def text(s):
    if s.startswith("@") and s.count(":") == 2 and s[1:].split(":")[0] in KINDS:
        k, n, seed = s[1:].split(":")
        return blob(k, int(n), int(seed))
    return b(s)


def run(case, env):
    labels = [case["how"]]
    bad = good = 0
    with Case(env) as c:
        c.termsExpected = True  # abandoned commands are terminated; the others are checked below
        port = env.port()
        os.mkdir(c.path("stubs"))
        c.file("notexec", "text")
        conf = c.file("conf", wholeConfig(port, ["kv-good " + sq(c.agent), "kv-peer " + sq(c.agent) + " peer", "kv-missing /nonexistent/x", "kv-noexec " + sq(c.path("notexec")), "[elsewhere]", "kv-far x", "kv-away x"]))
        asan = case["how"] == "asan"
        if case["how"] == "bg":
            pidFile = c.path("pid")
            starter = c.proc(["k8pshd", "--config", conf, "--name", "srv", "-b", "-p", pidFile, "-e", c.path("stubs")], exe=env.bins["k8psh"], env={}, stdin="null")
            c.finish(starter, "the starting process of the background server exits")
            if starter.rc != 0:
                raise Violation("the background server did not start (status %s): %r" % (starter.rc, bytes(starter.err)))

            def pidReady():
                try:
                    return open(pidFile).read().endswith("\n")
                except OSError:
                    return False
            c.wait(pidReady, "the background server writes its PID file")
            pid = int(open(pidFile).read())
            c.wait(lambda: "/dev/null" == (openFds(pid) or {}).get(0), "the background server detaches")
            c.idle(0.02)
        else:
            server = c.server(conf, port=port, args=["-e", c.path("stubs")], exe=env.bins["k8psh_asan"] if asan else env.bins["k8psh_shim"] if case["how"] == "shim" else None, env={"K8V_FORK": c.path("K8V_FORK"), "K8V_FORKH": c.path("K8V_FORKH")} if case["how"] == "shim" else {"ASAN_OPTIONS": "allocator_may_return_null=1:detect_leaks=0"} if asan else {})
            pid = server.pid
        fds0 = set(openFds(pid))
        peers, running, goodAgents = [], [], []

        def alive():
            if case["how"] == "bg":
                try:
                    ok = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()[0] not in "ZX"
                except OSError:
                    ok = False
            else:
                ok = server.rc is None
            if not ok:
                raise Violation("the server is gone: %r" % (c.serverLog(server) if case["how"] != "bg" else b""))

        def start(meanwhile=None):
            p = c.client("kv-good", config=conf, stdin="pipe", args=["good%d" % len(goodAgents)])
            tag = b"good%d" % len(goodAgents)
            if meanwhile:
                meanwhile()

            def mine():
                return [a for a in c.agents if a.hello and a.argv[-1:] == [tag]]
            c.wait(lambda: mine() or p.rc is not None, "a well-behaved client's command starts")
            if not mine():
                raise Violation("a well-behaved client failed (status %s): %r" % (p.rc, bytes(p.err[-300:])))
            a = mine()[0]
            goodAgents.append(a)
            return p, a

        def exchange(p, a, i, o, fd=1):
            p.send(i)
            got = c.op(a.read(len(i)), "a well-behaved client's input arrives", a)[1]
            diff(i, got, "a well-behaved client's input and what the command read")
            buf = p.out if fd == 1 else p.err
            n = len(buf)
            w = a.write(fd, o)
            c.wait(lambda: len(buf) >= n + len(o) or p.rc is not None, "a well-behaved client's output arrives")
            diff(o, bytes(buf[n:]), "a well-behaved command's output and the client's")
            c.op(w, agent=a)

        def complete(p, a, code):
            p.closeStdin()
            status, d = c.op(a.readAll(), "a well-behaved client's end-of-file arrives", a)
            diff(b"", d, "a well-behaved client's input and what the command read")
            a.exit(code)
            c.finish(p)
            if p.rc != code:
                raise Violation("a well-behaved client exited with %s instead of %d: %r" % (p.rc, code, bytes(p.err[-200:])))

        def finish(conn, end):
            if end == "stay":
                peers.append(conn)
            elif end == "half":
                conn.shutdown()
                peers.append(conn)
            else:
                conn.flush()
                conn.close(rst=end == "rst")

        def encode(messages):
            out = b""
            for kind, n, p in messages:
                p = text(p)
                n = len(p) if n < 0 else n
                if asan:
                    n = min(n, 1 << 24)
                out += bytes([kind]) + n.to_bytes(4, "little") + p
            return out
        late = 0
        for o in case["ops"]:
            kind = o[0]
            labels.append(kind)
            if kind == "garbage":
                conn = net.Conn.connect(c, port)
                conn.send(text(o[1]))
                finish(conn, o[2])
                bad += 1
            elif kind == "msgs":
                conn = net.Conn.connect(c, port)
                conn.send(encode(o[1]))
                finish(conn, o[2])
                bad += 1
            elif kind == "storm":
                for i in range(o[1]):
                    finish(net.Conn.connect(c, port), o[2])
                bad += 1
            elif kind == "start":
                n = len(c.agents)
                conn = net.rawStart(c, port, b"kv-peer", extra=encode(o[1]))
                bad += 1
                if not o[1]:
                    c.wait(lambda: any(a.hello and a.argv[-1:] == [b"peer"] for a in c.agents[n:]), "the peer's command starts")
                    a = [a for a in c.agents[n:] if a.hello and a.argv[-1:] == [b"peer"]][0]
                    if o[3] == "stay":
                        conn.pauseReading()
                        labels.append("not-listening")
                    a.write(1, blob(*o[2]))
                finish(conn, o[3])
            elif kind == "bad":
                bad += 1
                if o[1] == "silent":
                    conn = net.Conn.connect(c, port)
                else:
                    conn = net.rawStart(c, port, {"unknown": b"kv-far", "missing": b"kv-missing", "dir": b"kv-peer", "noexec": b"kv-noexec"}[o[1]] if o[1] != "noexec" else b"kv-missing", cwd=b"no/such/dir" if o[1] == "dir" else b"")
                finish(conn, o[2])
            elif kind == "realbad":
                bad += 1
                if o[1] == "killed":
                    p = c.client("kv-peer", config=conf, stdin="null")
                    n = len(c.agents)
                    p.kill(9)
                else:
                    p = c.client("kv-missing", config=conf, stdin="null")
                c.finish(p, "a client whose command cannot start fails")
                if p.rc == 0:
                    raise Violation("a client whose command cannot start exited with 0")
            elif kind == "nofork":
                if case["how"] != "shim":
                    continue
                # The process limit is reached for a moment
                bad += 1
                flag = c.file(o[1], "")
                if o[2] == "silent" and o[1] == "K8V_FORK":
                    net.Conn.connect(c, port).close()
                elif o[2] == "peer":
                    peers.append(net.rawStart(c, port, b"kv-peer"))
                else:
                    tag = b"nofork%d" % bad
                    p = c.client("kv-peer", config=conf, stdin="null", args=[tag])
                    # An earlier connection may have been the one to get no process
                    c.wait(lambda: p.done or any(a.hello and a.argv[-1:] == [tag] for a in c.agents), "a client whose connection or command cannot get a process fails")
                    if not p.done:
                        p.kill(9)
                        c.finish(p)
                    elif p.rc == 0:
                        raise Violation("a client whose command cannot start exited with 0")
                c.wait(lambda: not os.path.exists(flag), "the server tries to create a process")
            elif kind == "nofile":
                # No descriptor is available for a connection for a moment
                alive()
                fds = sorted(openFds(pid) or ())
                if asan or not fds or fds != sorted(fds0) or len(fds0) != fds[-1] + 1:
                    continue
                bad += 1
                limits = resource.prlimit(pid, resource.RLIMIT_NOFILE)
                resource.prlimit(pid, resource.RLIMIT_NOFILE, (fds[-1] + 1, limits[1]))
                try:
                    p, a = start(lambda: (c.idle(o[1] / 1000), alive(), resource.prlimit(pid, resource.RLIMIT_NOFILE, limits)))
                finally:
                    try:
                        resource.prlimit(pid, resource.RLIMIT_NOFILE, limits)
                    except OSError:
                        pass
                exchange(p, a, b"in", b"out")
                complete(p, a, 21)
                good += 1
                late += 1
            elif kind == "idle":
                # Nothing happens for longer than any timeout one could think of
                end = time.monotonic() + o[1]
                while time.monotonic() < end:
                    c.idle(0.25)
                    alive()
                    if any(p.rc is not None or a.gone for p, a in running):
                        raise Violation("a command that was in progress (or its client) is gone")
            elif kind == "slow":
                # The request itself takes its time
                n = len(c.agents)
                request = net.request(b"kv-peer")
                # (silent before, in and after its first messages, in all kinds of places)
                places = [0, 3, 4, 5, 9, len(request) // 2, len(request) - 5, len(request) - 1]
                conns = [net.Conn.connect(c, port) for place in places]
                for conn, place in zip(conns, places):
                    conn.send(request[:place])
                end = time.monotonic() + o[1]
                while time.monotonic() < end:
                    c.idle(0.25)
                    alive()
                    if any(conn.eof for conn in conns):
                        raise Violation("the server ended a connection whose request was not complete")
                for conn, place in zip(conns, places):
                    conn.send(request[place:])
                c.wait(lambda: sum(bool(a.hello and a.argv[-1:] == [b"peer"]) for a in c.agents[n:]) == len(places), "the commands start when their requests are complete")
                peers += conns
            elif kind == "good":
                p, a = start()
                exchange(p, a, blob(*o[1]), blob(*o[2]))
                complete(p, a, o[3])
                good += 1
                late += bad > 0
            elif kind == "open":
                if len(running) < 4:
                    running.append(start())
                    good += 1
            elif kind == "step":
                if running:
                    p, a = running[o[1] % len(running)]
                    exchange(p, a, blob(*o[2]), blob(*o[2]), 1 + o[1] % 2)
                    late += bad > 0
            elif kind == "drop":
                if peers:
                    peers.pop(o[1] % len(peers)).close(rst=o[2] == "rst")
            alive()
        # Afterwards everything in progress completes and a new client is served
        for i, (p, a) in enumerate(running):
            exchange(p, a, b"tail", b"liat")
            complete(p, a, 40 + i)
            late += 1
        p, a = start()
        exchange(p, a, b"last", b"one")
        complete(p, a, 77)
        for a in goodAgents:
            if a.terms:
                raise Violation("a well-behaved client's command received signal %r" % a.terms)
        for conn in peers:
            conn.close()
        c.wait(lambda: not childrenOf(pid), "the server has no children left after all connections are over")
        c.wait(lambda: not openFds(pid) or set(openFds(pid)) == fds0, "the server has only the descriptors it started with after all connections are over")
        alive()
        if sorted(os.listdir(c.path("stubs"))) != ["kv-away", "kv-far"]:
            raise Violation("the server's client executables are %r" % sorted(os.listdir(c.path("stubs"))))
        if case["how"] == "bg":
            try:
                if int(open(pidFile).read()) != pid:
                    raise Violation("the PID file changed")
            except OSError:
                raise Violation("the PID file is gone")
        if asan:
            log = open(c.path("server0.err"), "rb").read()
            for word in (b"AddressSanitizer:", b"runtime error:", b"_GLIBCXX_ASSERTIONS", b"Assertion '"):
                if word in log and b"out of memory" not in log and b"allocation-size-too-big" not in log:
                    raise Violation("memory error while handling a connection: %r" % log[log.index(word):][:600])
        if bad >= 2 and late:
            labels.append("served-around")
    return labels


def nontrivial(case, labels):
    return "served-around" in labels or sum(o[0] in ("garbage", "msgs", "storm", "start", "bad", "realbad", "nofile") for o in case["ops"]) >= 2
