"""C21: the client waits for its server as long as configured."""
import time
from hypothesis import strategies as st
from lib import gen, net
from lib.engine import Violation
from lib.h import Case, blob, diff, sq

ID = "C21"
LEVEL = "exploration"
ARTIFACTS = ["k8psh", "k8psh_shim", "agent"]
EXAMPLES = {"quick": 30, "thorough": 600}
RULE = ("Each case is a configured connect timeout (zero, small, large, beyond the clock's range, negative, or not configured) and a generated moment at which the server's port starts listening (before the client, before the timeout, or never), with connection attempts possibly interrupted, or made from the very port they go to (which connects a socket to itself when nothing listens), and the command running longer than the timeout. "
        "Oracle: success with exactly one run of the command if the port listens before the timeout; otherwise failure not before the timeout (2 ms of clock granularity) and not systematically more than 0.4 s after it (the earliest of four attempts); waiting clients are still waiting at every earlier moment. Non-trivial: the port was not listening when the client started.")
ASSUMPTIONS = ["a client that is due is scheduled within 0.4 s in at least one of four attempts; other upper time limits allow 3 s of scheduling delay"]
FOREVER = ["-1", "-2", "-30000", "-9223372036854775808", "9223372036854775807", "9223372036854775000", "9223372036855", "9000000000000", "4294967296", "2147483648", "2147483647", "4294967295", "600000"]


def strategy(env):
    finite = st.one_of(st.sampled_from(["0", "1", "15", "16", "17", "32", "48", "100", "1000", "1500", "2000"]), st.integers(0, 2500).map(str))
    return st.one_of(
        st.fixed_dictionaries({"timeout": finite, "at": st.just(-1)}),
        st.fixed_dictionaries({"timeout": st.integers(50, 2500).map(str), "at": st.sampled_from([10, 50, 90, 97])}),
        st.fixed_dictionaries({"timeout": st.one_of(st.sampled_from(FOREVER), st.none()), "at": st.sampled_from([0, 20, 200, 1100, 2600])}),
        st.fixed_dictionaries({"timeout": st.one_of(finite, st.sampled_from(FOREVER)), "at": st.just(0)}),
    ).flatmap(lambda d: st.fixed_dictionaries({**{k: st.just(v) for k, v in d.items()}, "long": st.booleans(), "shim": st.sampled_from([None, None, "iconnect:1,0", "iconnect:0,1,1,0", "iconnect:2,0", "iconnect:0,2,2,0", "iconnect:2,2,2,1,0"]), "exit": gen.exitCodes}))


def directed(env):
    far = {"at": 33000 if env.tier == "quick" else 130000, "long": False, "shim": None, "exit": 6}
    return [dict(far, timeout="-1"), dict(far, timeout="9223372036854775807"), dict(far, timeout="60000", at=55), dict(far, timeout="1000000"),
            {"timeout": None, "at": -1, "long": False, "shim": None, "exit": 0}, {"timeout": "0", "at": -1, "long": False, "shim": None, "exit": 0}, {"timeout": "0", "at": 0, "long": True, "shim": None, "exit": 5}]


def selfConnected(port):
    """Tests for a connection of the port with itself, also one that is already closed."""
    end = "0100007F:%04X" % port
    return any(line.split()[1:3] == [end, end] for line in open("/proc/net/tcp").read().splitlines()[1:])


def run(case, env):
    labels = []
    with Case(env) as c:
        # Only a port of the ephemeral range can also be the client's own
        own = "2" in (case["shim"] or "")
        port, real = env.ephemeralPort() if own else env.port(), env.port()
        while real == port:
            real = env.port()
        t = case["timeout"]
        value = 30000 if t is None else int(t)
        forever = value < 0 or value > 60000
        finite = not forever
        serverConf = c.file("sconf", "[srv:%d]\nkv-cmd %s\n" % (real, sq(c.agent)))
        conf = c.file("conf", ("" if t is None else "connectTimeoutMs = %s\n" % t) + "[srv:%d]\nkv-cmd %s\n" % (port, sq(c.agent)))
        c.server(serverConf, port=real)
        at = case["at"]
        proxy = None
        if at == 0:
            proxy = net.Proxy(c, port, real)
        shim = case["shim"] if not finite or (at == 0 and value >= 200) or (own and at == -1 and value > 100) else None  # an interrupted last attempt may count as the attempt
        start = time.monotonic()
        p = c.client("kv-cmd", config=conf, stdin="pipe", exe=env.bins["k8psh_shim"] if shim else None, env={"K8V_SHIM": shim} if shim else {})
        if shim and own:
            labels.append("own-port")
        if at == -1:
            labels.append("never")
            late = []
            while True:
                c.wait(lambda: p.rc is not None, "the client gives up after its timeout of %s ms" % t, timeout=value / 1000 + max(3, env.hang))
                took = p.exitAt - start
                if p.rc == 0:
                    raise Violation("the client exited with 0 although there was no server")
                if took < value / 1000 - 0.002:
                    raise Violation("the client gave up after %.3f s, its timeout is %d ms" % (took, value))
                late.append(took - value / 1000)
                if late[-1] <= 0.4:
                    break
                if len(late) == 4:
                    raise Violation("with a timeout of %d ms the client gave up late every time: by %s s" % (value, ", ".join("%.3f" % x for x in late)))
                start = time.monotonic()
                p = c.client("kv-cmd", config=conf, stdin="pipe")
            if c.agents:
                raise Violation("the command was run although the client never connected")
            return labels
        if at:
            labels.append("later")
            # A percentage of a finite timeout, else milliseconds
            moment = start + (value / 1000 * at / 100 if finite and t is not None else at / 1000)
            while time.monotonic() < moment:
                c.idle(max(0.0, moment - time.monotonic()))
                now = time.monotonic()
                if p.rc is not None and (not finite or p.exitAt - start < value / 1000 - 0.002):
                    raise Violation("the client gave up (status %s) after %.3f s, its timeout is %s ms: %r" % (p.rc, p.exitAt - start, t, bytes(p.err[-200:])))
            if finite and time.monotonic() - start >= value / 1000 - 0.003:
                labels.append("missed")  # too late by our own doing
                return labels
            try:
                proxy = net.Proxy(c, port, real)
            except OSError:
                if selfConnected(port):
                    raise Violation("the server cannot listen on port %d, since a client connected to itself" % port)
                raise
            if finite and time.monotonic() - start >= value / 1000 - 0.002:
                labels.append("missed")
                return labels
        began = time.monotonic()
        a = c.waitAgent(p, what="the client connects once its server listens (after at most one second and some scheduling delay)")
        if time.monotonic() - began > 1 + 3:
            raise Violation("the client connected only %.3f s after its server started listening" % (time.monotonic() - began))
        if case["long"]:
            labels.append("long-run")
            c.idle(min(0.3, value / 1000 + 0.05) if finite else 0.05)
            if p.rc is not None:
                raise Violation("the client ended (status %s) while its command is running" % p.rc)
        p.send(b"x")
        diff(b"x", c.op(a.read(1), "the command gets its input", a)[1], "input")
        c.op(a.write(1, b"y"), agent=a)
        a.exit(case["exit"])
        c.finish(p)
        diff(b"y", bytes(p.out), "output")
        if p.rc != case["exit"]:
            raise Violation("the client exited with %s instead of %d" % (p.rc, case["exit"]))
        if len(c.agents) != 1 or len(proxy.pairs) != 1:
            raise Violation("the command was run %d times through %d connections" % (len(c.agents), len(proxy.pairs)))
    return labels


def nontrivial(case, labels):
    return "never" in labels or "later" in labels
