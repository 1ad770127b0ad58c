"""C11: the server stops exactly when told to, finishing running commands first."""
import errno, socket, time
from hypothesis import strategies as st
from lib import gen, net
from lib.engine import Violation
from lib.h import Case, diff, listening, sq, wholeConfig

ID = "C11"
LEVEL = "exploration"
ARTIFACTS = ["k8psh", "k8psh_shim", "agent"]
EXAMPLES = {"quick": 45, "thorough": 1500}
RULE = ("Each case runs a server with a generated connection limit, timeout, no-wait option (command line or section) and signal, and a generated history: clients that run to completion, stay running, or connect without asking for anything; then the limit is reached (also by more simultaneous clients than allowed), the timeout passes or a signal is sent (possibly several, also while waiting), with commands still running; "
        "accept and poll may be interrupted. Oracle: exactly the allowed number of connections is served; the port refuses connections afterwards and not before; the server does not end while a command runs unless no-wait was given, and then ends at once; every command completes exactly for its client; exit status 0; not before the timeout. Non-trivial: a command is running at the moment of the stop, or connections arrive until the timeout, or none is allowed.")


def strategy(env):
    return st.fixed_dictionaries({"debug": gen.rarely,
        "stop": st.sampled_from(["max", "max", "burst", "timeout", "term", "int", "hup"]),
        "max": st.one_of(st.integers(1, 6), st.integers(0, 2)), "busy": st.one_of(st.none(), st.integers(2, 6)), "extra": st.integers(1, 4), "timeout": st.one_of(st.integers(60, 900), st.sampled_from([0, 1, 100, 1000])),
        "other": st.sampled_from([[], [], ["-t", "9223372036854775807"], ["-t", "-1"], ["-m", "-1"], ["-m", "-7"], ["-m", "9223372036854775807"], ["-t", "600000"], ["-t", "4294967297"], ["-t", "4294967396"], ["-t", "2147483648"], ["-t", "8589934592"], ["-m", "100"]]),
        "nowait": st.booleans(), "where": st.booleans(),
        "clients": st.lists(st.sampled_from(["run", "stay", "stay", "raw", "fail"]), max_size=6), "again": st.lists(st.sampled_from([15, 2, 1]), max_size=3), "codes": st.lists(gen.exitCodes, min_size=6, max_size=6),
        "shim": st.one_of(st.none(), st.lists(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7]), min_size=1, max_size=5).map(lambda l: "iaccept:%s,0 ipoll:%s,0" % (",".join(map(str, l)), ",".join(str(x & 1) for x in l)))),
        "at": st.sampled_from([0, 5, 50]),
    })


def directed(env):
    base = {"stop": "term", "max": 2, "busy": None, "extra": 1, "timeout": 500, "other": [], "nowait": False, "where": False, "clients": ["run", "stay"], "again": [], "codes": [3, 0, 7, 1, 2, 255], "shim": None, "at": 0}
    long = 33 if env.tier == "quick" else 130
    # Much time passes before the first client, or until the last command ends; many connections
    return [
        dict(base, before=long), dict(base, hold=long), dict(base, hold=long, stop="max", clients=["stay", "stay"]), dict(base, hold=long, stop="timeout", clients=["stay"], timeout=900),
        dict(base, hold=long, nowait=True), dict(base, hold=long, stop="hup", again=[15, 2]),
        dict(base, stop="max", max=300, clients=["raw"] * 298 + ["run", "stay"]), dict(base, clients=["raw"] * 600 + ["run", "stay"]),
        dict(base, stop="max", max=66000, many=65998, clients=["run", "stay"]),
    ]


def refused(port):
    s = socket.socket()
    try:
        s.settimeout(5)
        s.connect(("127.0.0.1", port))
        return False
    except ConnectionRefusedError:
        return True
    except OSError as e:
        if e.errno == errno.ECONNRESET:
            return True
        raise
    finally:
        s.close()


def run(case, env):
    labels = [case["stop"]] + ["no-wait"] * case["nowait"]
    stop = case["stop"]
    with Case(env) as c:
        port = env.port()
        options = [o for o in case["other"]]
        if stop in ("max", "burst"):
            options = [x for x in (options if "-m" not in options else [])] + ["-m", str(case["max"])]
        elif stop == "timeout":
            options = [x for x in (options if "-t" not in options else [])] + ["-t", str(case["timeout"])]
        if case["nowait"]:
            options.append("-w")
        none = stop in ("max", "burst") and case["max"] == 0
        section, line = (" ".join(options), []) if case["where"] else ("", options)
        conf = c.file("conf", wholeConfig(port, ["kv-cmd " + sq(c.agent), "kv-missing /nonexistent/x"], options=section, timeout=5000 if stop != "burst" else 0))
        quick = c.file("quick", wholeConfig(port, ["kv-cmd " + sq(c.agent)], timeout=0))
        spawned = time.monotonic()
        server = c.server(conf, port=port, args=line, exe=env.bins["k8psh_shim"] if case["shim"] else None, env={"K8V_SHIM": case["shim"] or "", **gen.debug(case)}, ready=stop != "timeout" and not none)
        started = time.monotonic()
        if none:
            # Not a single connection is allowed
            labels.append("none-allowed")
            late = c.client("kv-cmd", config=quick, stdin="null")
            c.finish(late, "a client of a server that allows no connection fails rather than hanging")
            if late.rc == 0 or c.agents:
                raise Violation("a server that allows no connection served one (client status %s)" % late.rc)
            c.wait(lambda: server.rc is not None, "a server that allows no connection exits")
            if server.rc != 0:
                raise Violation("the server exited with %s: %r" % (server.rc, c.serverLog(server)))
            return labels
        if stop == "timeout":
            c.waitQuiet(lambda: server.rc is not None or listening(port), env.hang)
        running = []
        count = 0
        codes = list(case["codes"])

        def mayBeOver():
            return stop == "timeout" and time.monotonic() >= spawned + case["timeout"] / 1000 - 0.002

        def take(p):
            n = len(running)
            c.waitQuiet(lambda: p.rc is not None or any(a.hello and a.argv[-1:] == [p.tag] for a in c.agents), env.hang)
            mine = [a for a in c.agents if a.hello and a.argv[-1:] == [p.tag]]
            if not mine and p.rc is None and not mayBeOver():
                raise Violation("a client's command did not start, nor did the client fail")
            return mine[0] if mine else None
        tags = [0]

        def client(config=conf):
            tags[0] += 1
            p = c.client("kv-cmd", config=config, stdin="pipe", args=["t%d" % tags[0]])
            p.tag = b"t%d" % tags[0]
            return p

        def serve(p, a, code):
            p.send(b"data")
            diff(b"data", c.op(a.read(4), "a running command goes on", a)[1], "a running command's input")
            c.op(a.write(1, b"result"), agent=a)
            a.exit(code)
            c.finish(p, "a client finishes after its command")
            diff(b"result", bytes(p.out), "a running command's output")
            if p.rc != code:
                raise Violation("a client exited with %s instead of %d: %r" % (p.rc, code, bytes(p.err[-200:])))

        def check():
            if server.rc is not None and not mayBeOver():
                raise Violation("the server ended (status %s) without having been told to stop" % server.rc)
        limit = case["max"] if stop == "max" else 6
        if case.get("before"):
            labels.append("long")
            end = time.monotonic() + case["before"]
            while time.monotonic() < end:
                c.idle(0.25)
                check()
        for i in range(case.get("many", 0)):
            labels += ["many"] * (i == 0)
            try:
                socket.create_connection(("127.0.0.1", port)).close()
            except OSError as e:
                raise Violation("connection %d fails (%s) although nothing told the server to stop" % (i + 1, e))
        if stop != "burst":
            plan = list(case["clients"])
            if stop == "max":
                plan = (plan + ["stay"] * limit)[:limit - case.get("many", 0)]
            for kind in plan:
                check()
                if mayBeOver():
                    break
                if kind == "raw":
                    try:
                        net.Conn.connect(c, port).close()
                    except OSError:
                        if not mayBeOver():
                            raise Violation("the server does not accept connections although nothing told it to stop")
                elif kind == "fail":
                    p = c.client("kv-missing", config=conf, stdin="null")
                    c.finish(p, "a client whose command cannot start fails")
                else:
                    p = client()
                    a = take(p)
                    if a is None:
                        if mayBeOver():
                            break
                        raise Violation("a client failed (status %s) although nothing told the server to stop: %r" % (p.rc, bytes(p.err[-300:])))
                    if kind == "run":
                        serve(p, a, codes[0])
                    else:
                        running.append((p, a))
                count += 1
        else:
            ps = [client() for i in range(case["max"] + case["extra"])]
            served = []
            for p in ps:
                a = take(p)
                if a:
                    served.append((p, a))
                elif p.rc is None:
                    raise Violation("a client beyond the limit hangs")
                elif p.rc == 0:
                    raise Violation("a client without a command exited with 0")
            if len(served) != case["max"]:
                raise Violation("%d of %d simultaneous clients were served, the limit is %d" % (len(served), len(ps), case["max"]))
            running = served
        if case["at"]:
            c.idle(case["at"] / 1000)
        # Stop
        if stop == "timeout":
            # Still accepting before the timeout
            if server.rc is not None and server.exitAt - spawned < case["timeout"] / 1000 - 0.002:
                raise Violation("the server ended after %.3f s, before its timeout of %d ms" % (server.exitAt - spawned, case["timeout"]))
            if case["busy"] and not mayBeOver():
                # Connections keep coming in: they do not move the end
                labels.append("connections-until-the-timeout")
                while time.monotonic() - spawned < case["timeout"] / 1000 + env.hang * 0.6 and listening(port):
                    try:
                        net.Conn.connect(c, port).close()
                    except OSError:
                        if not mayBeOver():
                            raise Violation("the server does not accept connections although nothing told it to stop")
                    c.idle(max(0.01, case["timeout"] / 1000 / case["busy"]))
            while time.monotonic() - spawned < case["timeout"] / 1000 - 0.15:
                c.idle(0.02)
                at = time.monotonic()
                if not listening(port) and at - spawned < case["timeout"] / 1000 - 0.002:
                    raise Violation("the server stopped accepting after %.3f s, before its timeout of %d ms" % (at - spawned, case["timeout"]))
        elif stop in ("term", "int", "hup"):
            check()
            if not listening(port):
                raise Violation("the server does not listen although nothing told it to stop")
            server.kill({"term": 15, "int": 2, "hup": 1}[stop])
        if stop == "timeout" and case["busy"] and listening(port) and time.monotonic() - spawned > case["timeout"] / 1000 + env.hang * 0.6:
            raise Violation("the server still listens %.1f s after its start, its timeout is %d ms" % (time.monotonic() - spawned, case["timeout"]))
        c.wait(lambda: not listening(port), "the server stops accepting connections (%s, %d commands running)" % (stop, len(running)))
        if running:
            labels.append("running")
        if not refused(port):
            raise Violation("a connection is accepted after the server has stopped accepting")
        late = c.client("kv-cmd", config=quick, stdin="null")
        c.finish(late, "a late client fails rather than hanging")
        if late.rc == 0:
            raise Violation("a late client exited with 0")
        if case["nowait"]:
            c.wait(lambda: server.rc is not None, "the server exits at once with no-wait")
        elif running:
            for s in case["again"]:
                server.kill(s)
                c.idle(0.02)
            c.idle(0.03)
            if server.rc is not None:
                raise Violation("the server ended (status %s) while %d commands were still running" % (server.rc, len(running)))
        if case.get("hold"):
            labels.append("long")
            end = time.monotonic() + case["hold"]
            while time.monotonic() < end:
                c.idle(0.25)
                if running and not case["nowait"] and server.rc is not None:
                    raise Violation("the server ended (status %s) while %d commands were still running" % (server.rc, len(running)))
                if any(a.gone or p.rc is not None for p, a in running):
                    raise Violation("a running command (or its client) ended after the server was told to stop")
        for i, (p, a) in enumerate(running):
            serve(p, a, codes[i % len(codes)])
            if not case["nowait"] and server.rc is not None and i + 1 < len(running):
                raise Violation("the server ended (status %s) while %d commands were still running" % (server.rc, len(running) - i - 1))
        c.wait(lambda: server.rc is not None, "the server exits after its last command")
        if server.rc != 0:
            raise Violation("the server exited with %s: %r" % (server.rc, c.serverLog(server)))
        if stop == "timeout" and server.exitAt - spawned < case["timeout"] / 1000 - 0.002:
            raise Violation("the server ended after %.3f s, before its timeout of %d ms" % (server.exitAt - spawned, case["timeout"]))
    return labels


def nontrivial(case, labels):
    return "running" in labels or "connections-until-the-timeout" in labels or "none-allowed" in labels
