"""C31: the cost of a run follows the data it moves, and waiting costs nothing."""
import os, signal, socket, struct, time
from hypothesis import strategies as st
from lib import gen, net, probe
from lib.engine import Violation
from lib.h import Case, blob, diff, procState, sq, wholeConfig

ID = "C31"
LEVEL = "exploration"
ARTIFACTS = ["k8psh", "probe", "agent"]
EXAMPLES = {"quick": 60, "thorough": 900}
WORKERS = 16
WALL = 240
TECHNIQUE = "property-based testing with metamorphic cost relations: generated waiting states of real clients and servers whose processor time and wake-ups are measured, and generated transfers, histories and configurations of size n and k*n whose processor time and memory are compared; shrinking"
RULE = ("Each case is one of: (idle) a generated combination of waiting processes - a foreground or background server with or without limits or told to stop, clients whose streams are open, ended, closed, stalled, flooded or closed by the command, stopped or silent commands, raw peers that are silent, in the middle of a message, not reading or staying after the exit code, clients waiting for a server or at a silent one - whose processor time and wake-ups are then measured; "
        "(relay) a transfer of n and of 4n bytes in a generated direction and manner (also input that has to wait for its command, slow readers, small pieces); (memory) output or input that cannot go on; (history) many connections in a row; (start) commands with n and 4n variables or arguments; (text) configurations, references and paths of sizes n and 4n. "
        "Oracle: waiting processes use under a fifth of a processor and wake up under 100 times a second; four times the data costs no more than seven times the processor time (plus a constant); memory stays below a constant that does not depend on the amount of data. Non-trivial: not an idle state with only one client in its simplest form.")

RAW = ["silent", "half", "partial", "running", "after", "noread", "orphan"]
ALONE = ["noserver", "fakesilent", "fakehalf", "fakenoread", "fakeclosed"]
TEXT = ["commands", "redefined", "vars", "args", "sections", "escapes", "concat", "plain", "single", "comments", "spaces", "blank", "crlf", "refs", "defaults", "norefs", "open", "unclosed", "dots", "updown", "slashes", "deep", "relative"]

START = ["inherited", "default", "optional", "references", "chain", "same", "arguments", "messages"]


def strategy(env):
    client = st.fixed_dictionaries({
        "in": st.sampled_from(["pipe", "eof", "null", "file", "closed", "socket"]), "closes": st.lists(st.sampled_from([0, 1, 2]), unique=True, max_size=3),
        "first": st.booleans(), "flood": st.sampled_from([0, 0, 0, 300000, 3000000]), "stall": st.sampled_from([0, 0, 0, 1, 2]), "stop": st.sampled_from(["", "", "", "command", "client"]), "gone": st.sampled_from([False, False, False, True]),
    })
    idle = st.fixed_dictionaries({
        "kind": st.just("idle"), "how": st.sampled_from(["fg", "fg", "bg"]), "options": st.sampled_from([[], [], ["-m", "90"], ["-t", "600000"], ["-m", "80", "-t", "700000"]]),
        "clients": st.lists(client, max_size=4), "raw": st.lists(st.sampled_from(RAW), max_size=4), "alone": st.lists(st.sampled_from(ALONE), max_size=2), "end": st.sampled_from(["", "", "", "term", "int"]), "over": st.booleans(),
    })
    relay = st.fixed_dictionaries({"kind": st.just("relay"), "way": st.sampled_from(["in", "installed", "out", "err", "both", "outslow", "small", "duplex"]), "mb": st.integers(6, 30)})
    memory = st.fixed_dictionaries({"kind": st.just("memory"), "way": st.sampled_from(["out", "err", "in", "through"]), "mb": st.integers(20, 90)})
    history = st.fixed_dictionaries({"kind": st.just("history"), "what": st.lists(st.sampled_from(["unknown", "run", "silent", "garbage", "client"]), min_size=1, max_size=3), "n": st.integers(30, 90), "how": st.sampled_from(["fg", "bg"])})
    start = st.fixed_dictionaries({"kind": st.just("start"), "way": st.sampled_from(START), "n": st.integers(2500, 4000), "section": st.booleans()})
    text = st.fixed_dictionaries({"kind": st.just("text"), "shape": st.sampled_from(TEXT), "size": st.integers(20000, 60000), "unit": st.integers(1, 3)})
    return st.one_of(idle, idle, idle, idle, idle, relay, memory, history, text, text, start)


def directed(env):
    simple = {"in": "pipe", "closes": [], "first": True, "flood": 0, "stall": 0, "stop": "", "gone": False}
    base = {"kind": "idle", "how": "fg", "options": [], "clients": [], "raw": [], "alone": [], "end": "", "over": False}
    some = [dict(simple, closes=x) for x in ([0], [1], [2], [0, 1], [1, 2], [0, 1, 2])]
    out = [dict(base, clients=[dict(simple, **{"in": i}) for i in ("pipe", "eof", "file", "closed")]), dict(base, clients=some[:3]), dict(base, clients=some[3:], end="term"),
           dict(base, clients=[dict(s, **{"in": "eof"}) for s in some[:3]]), dict(base, clients=[dict(s, **{"in": "eof"}) for s in some[3:]], how="bg"), dict(base, clients=[dict(s, flood=3000000) for s in some[2:]]),
           dict(base, clients=[dict(simple, flood=3000000), dict(simple, stall=1), dict(simple, stall=2), dict(simple, stop="command")]), dict(base, raw=RAW), dict(base, raw=RAW[2:], end="int", how="bg"), dict(base, alone=ALONE),
           dict(base, clients=[simple], raw=["silent"], options=["-m", "2"], over=True), dict(base, clients=[dict(simple, gone=True), dict(simple, gone=True, closes=[0, 1, 2])])]
    out += [{"kind": "relay", "way": w, "mb": 24} for w in ("in", "installed", "out", "err", "both", "outslow", "small", "duplex")]
    out += [{"kind": "memory", "way": w, "mb": 64} for w in ("out", "err", "in", "through")]
    out += [{"kind": "history", "what": [w], "n": 60, "how": "fg"} for w in ("unknown", "run", "silent", "garbage", "client")]
    out += [{"kind": "start", "way": w, "n": 3000, "section": w == "optional"} for w in START]
    out += [{"kind": "text", "shape": s, "size": 40000, "unit": 1} for s in TEXT]
    return out


# Measurements

def processes(env, exe):
    """The processes that are clients or servers (and belong to this worker)."""
    out = []
    me = os.stat(exe)
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                if os.stat("/proc/" + d).st_uid == env.uid:
                    s = os.stat("/proc/%s/exe" % d)
                    if (s.st_dev, s.st_ino) == (me.st_dev, me.st_ino) and procState(int(d)) not in ("Z", "X", None):
                        out.append(int(d))
            except OSError:
                pass
    return out


def usage(pid):
    """(ns on a processor, ns waiting for a processor, wake-ups), of all threads."""
    ran = waited = woken = 0
    try:
        for t in os.listdir("/proc/%d/task" % pid):
            r, w, _ = open("/proc/%d/task/%s/schedstat" % (pid, t)).read().split()
            ran, waited = ran + int(r), waited + int(w)
            for line in open("/proc/%d/task/%s/status" % (pid, t)):
                if line.startswith("voluntary_ctxt_switches:"):
                    woken += int(line.split()[1])
    except OSError:
        pass
    return ran, waited, woken


def spent(pids):
    return sum(usage(p)[0] for p in pids) / 1e9


def memory(pid):
    """Private memory in kB."""
    total = 0
    try:
        for line in open("/proc/%d/status" % pid):
            if line.startswith("RssAnon:"):
                total += int(line.split()[1])
    except OSError:
        pass
    return total


def name(pid):
    try:
        return "process %r" % open("/proc/%d/cmdline" % pid, "rb").read().replace(b"\0", b" ")[:60]
    except OSError:
        return "a process"


def checkIdle(c, env, expected):
    def busy(seconds):
        pids = processes(env, env.bins["k8psh"])
        if len(pids) < expected:
            raise Violation("only %d of %d waiting processes are there" % (len(pids), expected))
        t0, before = time.monotonic(), {p: usage(p) for p in pids}
        c.idle(seconds)
        span = time.monotonic() - t0
        out = {}
        for p in pids:
            now = usage(p)
            if now[0] < before[p][0]:
                continue
            fraction = (now[0] - before[p][0] + now[1] - before[p][1]) / 1e9 / span
            rate = (now[2] - before[p][2]) / span
            if fraction > 0.2 and now[0] - before[p][0] > 0.02e9 * span or rate > 100:
                out[p] = "%s used %.0f%% of a processor and woke up %.0f times a second while nothing happened" % (name(p), 100 * fraction, rate)
        return out
    c.idle(0.3)
    found = busy(0.3)
    for _ in range(3):  # Once more, longer, before drawing a conclusion
        if not found:
            return
        again = busy(1.0)
        found = {p: again[p] for p in found if p in again}
    if found:
        raise Violation("; ".join(list(found.values())[:3]))


def linear(small, large, factor, what, constant=0.35):
    if large > 1.75 * factor * max(small, 0.12) + constant:
        return "%s took %.2f s of processor time for n, but %.2f s for %d n" % (what, small, large, factor)


# Kinds of cases

def idle(case, env, c, labels):
    port = env.port()
    conf = c.file("conf", wholeConfig(port, ["kv-cmd " + sq(c.agent), "kv-orphan sh -c 'sleep 600 & echo x'"]))
    raws, clients = case["raw"], case["clients"]
    options = list(case["options"])
    total = len(raws) + len(clients)
    if case["over"] and total:
        options = ["-m", str(total)] + (options[2:] if options[:1] == ["-m"] else options)
        labels.append("limit-reached")
    if case["how"] == "bg":
        options += ["-b", "--pidfile", c.path("pid")]
    server = c.server(conf, port=port, args=options, ready=case["how"] == "fg")
    if case["how"] == "bg":
        c.wait(lambda: os.path.exists(c.path("pid")) and os.path.getsize(c.path("pid")) > 0 and server.rc is not None, "the server goes to the background")
    c.termsExpected = True
    expected = 1
    n = len(clients)
    if n:
        c.file("input", b"x" * 200)
    for i, s in enumerate(clients):
        kind = {"file": ("file", c.path("input")), "eof": "pipe"}.get(s["in"], s["in"])
        p = c.client("kv-cmd", ["x"], config=conf, stdin=kind, pausedOut={s["stall"]} if s["stall"] else False)
        a = c.waitAgent(p)
        if s["in"] == "eof":
            p.closeStdin()
        if s["first"]:
            c.op(a.write(1, b"something"), agent=a)
        if s["flood"] and s["in"] in ("pipe", "socket"):
            labels.append("flood")
            p.send(bytes(s["flood"]))
        if s["stall"]:
            labels.append("stall")
            a.write(s["stall"], bytes(6000000))
        else:
            for f in s["closes"]:
                labels.append("closes")
                c.op(a.close(f), agent=a)
        if s["stop"] == "command":
            labels.append("stopped")
            os.kill(a.pid, signal.SIGSTOP)
        expected += 2
        if s["gone"] and s["stop"] != "command":
            labels.append("gone")
            # The client is gone, but its command goes on (or not); whatever is left of the exchange waits
            p.kill(9)
            expected -= 2
        elif s["stop"] == "client":
            labels.append("stopped")
            os.kill(p.pid, signal.SIGSTOP)
    for kind in raws:
        labels.append("raw-" + kind)
        if kind in ("silent", "half", "partial"):
            conn = net.Conn.connect(c, port)
            conn.send({"silent": b"", "half": net.msg(net.ARGUMENT, b"x")[:3], "partial": net.request(b"kv-cmd")[:-3]}[kind])
            expected += 1
        elif kind == "orphan":
            # The command has ended, but one of its own children still has its output open
            conn = net.rawStart(c, port, b"kv-orphan")
            c.wait(lambda: b"x\n" in conn.inbuf, "output arrives")
        else:
            index = len(c.agents)
            conn = net.rawStart(c, port, b"kv-cmd")
            c.wait(lambda: len(c.agents) > index and c.agents[index].hello, "the command starts")
            c.taken = len(c.agents)
            a = c.agents[index]
            expected += 1
            if kind == "noread":
                conn.pauseReading()
                a.write(1, bytes(6000000))
            elif kind == "after":
                c.op(a.write(1, b"output"), agent=a)
                a.exit(0)
                c.wait(lambda: a.gone, "the command exits")
                conn.send(net.msg(net.STDIN, b"x" * 100))
    for kind in case["alone"]:
        labels.append(kind)
        other = env.port()
        while other == port:
            other = env.port()
        otherConf = c.file("other%d" % other, wholeConfig(other, ["kv-cmd x"], timeout=60000))
        if kind == "noserver":
            c.client("kv-cmd", config=otherConf, stdin="pipe")
        else:
            s = socket.socket()
            c.closers.append(s.close)
            s.bind(("127.0.0.1", other))
            s.listen(5)
            p = c.client("kv-cmd", config=otherConf, stdin="pipe")
            s.settimeout(env.hang)
            conn, _ = s.accept()
            c.closers.append(conn.close)
            if kind == "fakehalf":
                conn.send(struct.pack("<BI", net.STDOUT, 1000) + b"x" * 10)
            elif kind == "fakeclosed":
                conn.send(net.msg(net.STDOUT) + net.msg(net.STDERR) + net.msg(net.STDIN))
            elif kind == "fakenoread":
                p.send(bytes(12000000))
        expected += 1
    if case["end"] and not (case["over"] and total):
        labels.append("ending")
        pid = int(open(c.path("pid")).read()) if case["how"] == "bg" else server.pid
        os.kill(pid, signal.SIGTERM if case["end"] == "term" else signal.SIGINT)
        if not n and not raws:
            expected -= 1
    # (how many processes there are is another property's business)
    checkIdle(c, env, max(0, min(expected, 1 if case["alone"] else 0)))


FEED = ("sh -c 'n=$0; case $1 in in) cat >/dev/null;; installed) read x <go; cat >/dev/null;; out) head -c $n /dev/zero;; err) head -c $n /dev/zero >&2;; both) head -c $n /dev/zero & head -c $n /dev/zero >&2; wait;; "
        "outslow) head -c $n /dev/zero;; small) dd if=/dev/zero bs=200 count=$((n/800)) 2>/dev/null;; duplex) cat;; esac; : >done; read x <end'")


def relay(case, env, c, labels):
    way = case["way"]
    labels.append(way)
    port = env.port()
    conf = c.file("conf", wholeConfig(port, ["kv-x " + FEED]))
    c.server(conf, port=port)

    def cost(n, number):
        d = c.path("run%d" % number)
        os.mkdir(d)
        for f in ("go", "end"):
            os.mkfifo(os.path.join(d, f))
        with open(os.path.join(d, "input"), "wb") as f:
            f.truncate(n if way in ("in", "installed", "duplex") else 0)
        c.wait(lambda: len(processes(env, env.bins["k8psh"])) == 1, "nothing remains of the previous transfer", 30)
        before = spent(processes(env, env.bins["k8psh"]))  # (of the server)
        out = "pipe" if way == "outslow" else ("file", "/dev/null")
        p = c.client("kv-x", [str(n), way], config=conf, cwd=d, stdin=("file", os.path.join(d, "input")), stdout=out, stderr=("file", "/dev/null"), pausedOut={1} if way == "outslow" else False)

        def opened(f):
            try:
                return os.open(os.path.join(d, f), os.O_WRONLY | os.O_NONBLOCK)
            except OSError:
                return None
        if way == "installed":
            # Everything waits in the server first
            fd = []
            c.wait(lambda: fd.append(opened("go")) or fd[-1] is not None, "the command starts")
            pos = lambda: int(open("/proc/%d/fdinfo/0" % p.pid).read().split()[1])
            c.wait(lambda: p.rc is not None or pos() >= n, "the client reads its input", 60)
            c.idle(0.2)
            os.write(fd[-1], b"\n")
            os.close(fd[-1])
        end = time.monotonic() + 200
        if way == "outslow":
            got = 0
            fd = p.fdOf[1]
            while got < n:
                try:
                    data = os.read(fd, 16384)
                    got += len(data)
                    if not data:
                        raise Violation("the output ended after %d of %d bytes" % (got, n))
                except BlockingIOError:
                    c.idle(0.0005)
                    if time.monotonic() > end:
                        raise Violation("%d bytes of output did not arrive within 200 s" % n)
        c.wait(lambda: p.rc is not None or os.path.exists(os.path.join(d, "done")), "a transfer of %d bytes (%s) ends" % (n, way), 200)
        if p.rc is not None:
            raise Violation("the client ended (status %s) while its command was running" % p.rc)
        c.idle(0.1)  # (the last bytes)
        used = spent(processes(env, env.bins["k8psh"])) - before
        fd = []
        c.wait(lambda: fd.append(opened("end")) or fd[-1] is not None, "the command waits")
        os.write(fd[-1], b"\n")
        os.close(fd[-1])
        c.wait(lambda: p.rc is not None, "the client exits", 30)
        if p.rc:
            raise Violation("the client exited with status %s instead of 0" % p.rc)
        os.unlink(os.path.join(d, "input"))
        return used
    n = case["mb"] << 20
    problem = None
    for attempt in range(2):  # Once more before drawing a conclusion
        problem = linear(cost(n, attempt * 2), cost(4 * n, attempt * 2 + 1), 4, "relaying %d MB (%s)" % (case["mb"], way))
        if not problem:
            return
    raise Violation(problem)


def stuck(case, env, c, labels):
    """Output (input) that cannot go on because nobody reads it: it waits where it is."""
    way = case["way"]
    labels.append("memory-" + way)
    n = case["mb"] << 20
    limit = 12 << 10
    port = env.port()
    conf = c.file("conf", wholeConfig(port, ["kv-cmd " + sq(c.agent), "kv-zero head -c %d /dev/zero" % n], timeout=60000))

    def check(what):
        for p in processes(env, env.bins["k8psh"]):
            used = memory(p)
            if used > limit:
                raise Violation("%s uses %d kB of memory %s" % (name(p), used, what))
    if way == "in":
        s = socket.socket()
        c.closers.append(s.close)
        s.bind(("127.0.0.1", port))
        s.listen(5)
        with open(c.path("input"), "wb") as f:
            f.truncate(n)
        p = c.client("kv-cmd", config=conf, stdin=("file", c.path("input")))
        s.settimeout(env.hang)
        conn, _ = s.accept()
        c.closers.append(conn.close)
        for _ in range(4):
            c.idle(0.2)
            check("although the connection does not take any more of the input")
        return
    c.server(conf, port=port)
    if way == "through":
        p = c.client("kv-zero", config=conf, stdin="null", stdout=("file", "/dev/null"))
        while p.rc is None:
            c.idle(0.02)
            check("while output passes through")
        if p.rc:
            raise Violation("the client exited with status %s instead of 0" % p.rc)
        check("after a transfer")
        return
    if way == "err":
        p = c.client("kv-cmd", config=conf, stdin="null", pausedOut={2})
        a = c.waitAgent(p)
        a.write(2, bytes(n))
    else:
        p = c.client("kv-zero", config=conf, stdin="null", pausedOut={1})
    for _ in range(5):
        c.idle(0.15)
        check("although the client's output is not read")
    p.resume(1)
    p.resume(2)


def history(case, env, c, labels):
    labels.append("history")
    n = case["n"] * (1 if env.tier == "quick" else 4)
    port = env.port()
    conf = c.file("conf", wholeConfig(port, ["kv-true true"]))
    server = c.server(conf, port=port, args=["-b", "--pidfile", c.path("pid")] if case["how"] == "bg" else [], ready=case["how"] == "fg")
    if case["how"] == "bg":
        c.wait(lambda: os.path.exists(c.path("pid")) and os.path.getsize(c.path("pid")) > 0 and server.rc is not None, "the server goes to the background")
    pid = int(open(c.path("pid")).read()) if case["how"] == "bg" else server.pid

    def one(what):
        labels.append("history-" + what)
        if what == "client":
            p = c.client("kv-true", config=conf, stdin="null")
            c.wait(lambda: p.done, "the client exits")
            if p.rc:
                raise Violation("the client exited with status %s instead of 0" % p.rc)
            return
        conn = net.Conn.connect(c, port)
        if what != "silent":
            conn.send({"unknown": net.request(b"kv-unknown"), "run": net.request(b"kv-true") + net.msg(net.STDIN), "garbage": b"\xff" * 300}[what])
            c.wait(lambda: conn.eof or any(k == net.EXIT for k, v in conn.messages()), "the connection ends")
        conn.close()
        c.wait(lambda: len(processes(env, env.bins["k8psh"])) == 1, "nothing remains of the connection")

    def many(k):
        before = usage(pid)[0]
        for i in range(k):
            one(case["what"][i % len(case["what"])])
        return (usage(pid)[0] - before) / 1e9
    many(len(case["what"]) * 4)
    start = memory(pid)
    first = many(n)
    between = memory(pid)
    many(n)
    last = many(n)
    end = memory(pid)
    if end - between > max(64, n * 0.5) and between - start > max(32, n * 0.25):
        raise Violation("the server's memory grows with every connection: %d kB, %d kB after %d connections, %d kB after %d" % (start, between, n, end, 3 * n))
    if last > 3 * first + 0.3:
        raise Violation("the same %d connections took %.2f s of the server's processor time at first and %.2f s later" % (n, first, last))


def shaped(shape, n, unit):
    """(operation, fields) of a size that is proportional to n."""
    few, u = n // 10, "u" * unit
    H = "[srv:18999]\n"
    if shape == "commands":
        return "l", [H + "".join("%s%d x\n" % (u, i) for i in range(few))]
    if shape == "redefined":
        return "l", [H + ("%s ?V=x x y\n" % u) * few]
    if shape == "vars":
        return "l", [H + "c " + "".join("?%s%d=x " % (u, i) for i in range(few)) + "x\n"]
    if shape == "args":
        return "l", [H + "c x " + (u + " ") * few + "\n"]
    if shape == "sections":
        return "l", ["".join("[s%d]\nc%d x\n" % (i, i) for i in range(few // 2))]
    if shape in ("escapes", "concat", "plain", "single"):
        return "l", [H + "c " + {"escapes": '"' + "\\x41\\n" * (n * unit) + '"', "concat": "\"a\"'b'c" * n * unit, "plain": "a" * n * unit * 5, "single": "'" + "a''" * n * unit + "'"}[shape] + "\n"]
    if shape in ("comments", "spaces", "blank", "crlf"):
        return "l", [{"comments": "# a comment\n" * n, "spaces": " \t" * n * 5, "blank": "\n" * n * 5, "crlf": "\r\n" * n * 4}[shape] + "\n" + H]
    if shape in ("refs", "defaults", "norefs", "open", "unclosed"):
        return "s", [{"refs": "${A}x", "defaults": "${%s:-default}" % ("B" * unit), "norefs": "$x $", "open": "${", "unclosed": "${A:-x"}[shape] * n * (1 if shape == "open" else unit), "A", "1", "value"]
    if shape == "relative":
        return "r", ["/" + "a/" * n * unit + "b", "/" + "a/" * n * unit]
    return "n", [{"dots": "/" + "./" * n * unit, "updown": "/" + "a/../" * n * unit, "slashes": "/" * n * unit * 5, "deep": "/a" * n * unit + "/.." * n * unit}[shape]]


def start(case, env, c, labels):
    """Starts a command with n and with 4n variables or arguments."""
    way = case["way"]
    labels.append("start-" + way)

    def cost(n):
        port = env.port()
        form = {"inherited": "=V%d=v%d ", "default": "V%d=v%d ", "optional": "?V%d=v%d ", "references": "=V%d=${V0}x${W}%d ", "chain": None, "same": "V=%d%d ", "arguments": None, "messages": None}[way]
        variables = "".join(form % (i, i) for i in range(n)) if form else "".join("=V%d=${V%d:-x} " % (i, i - 1) for i in range(n)) if way == "chain" else ""
        conf = c.file("conf%d" % n, "[srv:%d] %s\nkv-cmd %s%s\n" % (port, variables if case["section"] else "", "" if case["section"] else variables, sq(c.agent)))
        server = c.server(conf, port=port)
        before = spent([server.pid])
        p, conn = None, None
        if way == "messages":
            conn = net.Conn.connect(c, port)
            conn.send(b"".join(net.msg(net.ENVIRONMENT, b"U%d=%d" % (i, i)) for i in range(n)) + net.msg(net.ARGUMENT, b"arg") * n + net.request(b"kv-cmd"))
        else:
            p = c.client("kv-cmd", ["%d" % i for i in range(n)] if way == "arguments" else [], config=conf, stdin="null")
        a = c.waitAgent(p)
        used = spent(processes(env, env.bins["k8psh"])) + spent([a.pid]) - before
        a.exit(0)
        if conn:
            conn.close()
        else:
            c.finish(p)
        server.kill()
        c.wait(lambda: server.rc is not None, "the server ends")
        return used
    for attempt in range(2):
        problem = linear(cost(case["n"]), cost(4 * case["n"]), 4, "starting a command with %d variables or arguments (%s)" % (case["n"], way))
        if not problem:
            return
    raise Violation(problem)


def text(case, env, c, labels):
    labels.append("text-" + case["shape"])
    p = probe.of(env)
    p.start() if p.popen is None else None

    def cost(n):
        op, fields = shaped(case["shape"], n, case["unit"])
        if op == "l":
            fields = [fields[0], "/w"]
        before = spent([p.popen.pid])
        p.raw(op, fields)
        return spent([p.popen.pid]) - before
    for attempt in range(2):
        p.raw("n", ["/a"])
        problem = linear(cost(case["size"]), cost(4 * case["size"]), 4, "reading (expanding, normalizing) a text of shape %s with %d parts" % (case["shape"], case["size"]))
        if not problem:
            return
    raise Violation(problem)


def run(case, env):
    labels = [case["kind"]]
    if case["kind"] == "text":
        text(case, env, None, labels)
        return labels
    probe.of(env).stop()
    with Case(env) as c:
        {"idle": idle, "relay": relay, "memory": stuck, "history": history, "start": start}[case["kind"]](case, env, c, labels)
    return labels


def nontrivial(case, labels):
    return case["kind"] != "idle" or len(set(labels)) > 1 or len(case["clients"]) > 1
