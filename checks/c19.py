"""C19: the outcome does not depend on how the transport splits the data."""
import signal
from hypothesis import strategies as st
from lib import gen, net
from lib.engine import Violation
from lib.h import Case, b, blob, diff, sq, wholeConfig

ID = "C19"
LEVEL = "fault_enumeration"
ARTIFACTS = ["k8psh", "k8psh_shim", "agent"]
EXAMPLES = {"quick": 300, "thorough": 2000}
RULE = ("Each case is one exchange (arguments, environment, input, interleaved outputs, exit code) carried out through a proxy that forwards the connection in generated piece sizes (down to one byte, with pauses), with client and server running under a system-call shim that makes recv, send, read and write transfer less than asked and interrupts or delays calls by plan, with input from a pipe, socket or file in generated pieces, and with the client stopped and continued. "
        "Oracle: the command's arguments, environment and input and the client's outputs and exit status are exactly those of the exchange, whatever the pieces. Non-trivial: at least one piece size of 1 to 7 bytes or one system call plan.")


def strategy(env):
    piece = st.one_of(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 64, 1000, 4096, 8187, 8188, 8191, 8192, 8193, 65535, 65536, 65540, 65541]), st.integers(1, 20), st.integers(1, 70000), st.just(0))
    pieces = st.lists(piece, min_size=1, max_size=8)
    step = st.one_of(st.tuples(st.just("out"), gen.data(env, 200000, 1), st.sampled_from([1, 2]), st.sampled_from([0, 0, 1, 7, 4096])), st.tuples(st.just("in"), gen.data(env, 150000, 1), st.sampled_from([0, 0, 1, 5, 1000])),
                     st.tuples(st.just("close"), st.sampled_from([1, 2])), st.tuples(st.just("stop"), st.integers(1, 20))).map(list)
    return st.fixed_dictionaries({"debug": gen.rarely,
        "args": st.lists(gen.argText(env), max_size=6), "env": st.lists(st.tuples(st.sampled_from(["V1", "V2", "V3"]), st.one_of(gen.rawBytes(), gen.sizes(env, 40000).map(lambda n: "v" * n))).map(list), max_size=3, unique_by=lambda e: e[0]),
        "steps": st.lists(step, max_size=6), "exit": gen.exitCodes, "up": pieces, "down": pieces, "gap": st.sampled_from([0, 0, 1]), "proxy": st.sampled_from([True, True, False]),
        "cshim": gen.shimPlan(env, 2), "sshim": gen.shimPlan(env, 2), "stdin": st.sampled_from(["pipe", "socket", "file"]), "inchunk": st.sampled_from([0, 0, 1, 3, 8192, 65535, 65536]),
    })


def run(case, env):
    labels = []
    with Case(env) as c:
        port, real = env.port(), env.port()
        while real == port:
            real = env.port()
        if not case["proxy"]:
            port = real
        command = ["kv-cmd V1= V2= V3= " + sq(c.agent)]
        serverConf = c.file("sconf", wholeConfig(real, command))
        conf = c.file("conf", wholeConfig(port, command))
        shim = env.bins["k8psh_shim"]
        c.server(serverConf, port=real, exe=shim if case["sshim"] is not None else None, env={"K8V_SHIM": case["sshim"] or "", **gen.debug(case)})
        proxy = None
        if case["proxy"]:
            proxy = net.Proxy(c, port, real, case["up"], case["down"], gapMs=case["gap"])
            if any(0 < p <= 7 for p in case["up"] + case["down"]):
                labels.append("tiny-pieces")
        if case["cshim"] is not None or case["sshim"] is not None:
            labels.append("shim")
        args = [b(a) for a in case["args"]]
        environment = {n: b(v) for n, v in case["env"]}
        allIn = b"".join(blob(*s[1]) for s in case["steps"] if s[0] == "in")
        isFile = case["stdin"] == "file"
        stdin = case["stdin"]
        if isFile:
            stdin = ("file", c.file("input", allIn))
        p = c.client("kv-cmd", args, config=conf, stdin=stdin, exe=shim if case["cshim"] is not None else None, env=dict(environment, K8V_SHIM=case["cshim"] or ""))
        if not isFile:
            p.inChunk = case["inchunk"]
        a = c.waitAgent(p)
        if a.argv != [b(c.agent)] + args:
            raise Violation("the command's arguments are %r, expected %r" % (a.argv[1:], args))
        expected = {n.encode(): environment.get(n, b"") for n in ("V1", "V2", "V3")}
        got = dict(e.split(b"=", 1) for e in a.environ)
        if got != expected:
            raise Violation("the command's environment is %r, expected %r" % (got, expected))
        out, closed, n = {1: b"", 2: b""}, set(), 0
        for s in case["steps"]:
            if s[0] == "out":
                if s[2] not in closed:
                    out[s[2]] += blob(*s[1])
                    c.op(a.write(s[2], blob(*s[1]), s[3] if len(blob(*s[1])) < 3000 or s[3] != 1 else 0), "the command writes", a)
            elif s[0] == "in":
                d = blob(*s[1])
                if not isFile:
                    p.send(d)
                status, x = c.op(a.read(len(d), s[2] if len(d) < 3000 or s[2] != 1 else 0), "the command reads its input", a)
                diff(d, x, "the client's input and what the command read")
                n += len(d)
            elif s[0] == "close":
                if s[1] not in closed:
                    closed.add(s[1])
                    c.op(a.close(s[1]), agent=a)
            else:
                p.kill(signal.SIGSTOP)
                c.idle(s[1] / 1000)
                p.kill(signal.SIGCONT)
        if not isFile:
            p.closeStdin()
        status, x = c.op(a.readAll(), "the command reads end-of-file", a)
        diff(b"", x, "the rest of the client's input and what the command read")
        a.exit(case["exit"])
        c.finish(p)
        diff(out[1], bytes(p.out), "the command's stdout and the client's")
        diff(out[2], bytes(p.err), "the command's stderr and the client's")
        if p.rc != case["exit"]:
            raise Violation("the client exited with %s instead of %d" % (p.rc, case["exit"]))
        if len(allIn) > 65536 or len(out[1]) + len(out[2]) > 65536:
            labels.append("large")
        if isFile:
            labels.append("file")
    return labels


def nontrivial(case, labels):
    return "tiny-pieces" in labels or "shim" in labels
