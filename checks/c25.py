"""C25: closed standard streams do not corrupt a run."""
import os, shutil, stat
from hypothesis import strategies as st
from lib import gen, net
from lib.engine import Violation
from lib.h import Case, b, blob, catches, diff, listening, openFds, sq, wholeConfig

ID = "C25"
LEVEL = "exploration"
ARTIFACTS = ["k8psh", "k8psh_shim", "agent"]
EXAMPLES = {"quick": 170, "thorough": 2500}
TECHNIQUE = "property-based testing of the real client and server: every subset of closed standard streams (enumerated) with generated exchanges, compared with the exchange that open streams would give; shrinking"
RULE = ("Each case starts the server (foreground or background) and the client with a generated subset of their standard descriptors closed, debug output on in processes whose output is closed, and runs generated exchanges (input, output on both streams of any size, early closes, arguments, variables, exit codes) through real clients and raw connections; or it installs the binary with closed streams. "
        "All 8 x 8 subsets are also enumerated. Oracle: open streams carry exactly the exchange's data, a closed input reads as empty, raw connections see only well-formed messages with the command's own output, the command has three separate streams of its own, PID and installed files have exactly their content. Non-trivial: at least one stream is closed.")


def strategy(env):
    subset = st.integers(0, 7)
    step = st.one_of(st.tuples(st.just("in"), gen.data(env, 70000, 1)), st.tuples(st.just("out"), gen.data(env, 150000, 1), st.sampled_from([1, 2])), st.tuples(st.just("close"), st.sampled_from([0, 1, 2])), st.tuples(st.just("eof"))).map(list)
    exchange = st.fixed_dictionaries({"closed": subset, "steps": st.lists(step, max_size=6), "exit": gen.exitCodes, "debug": st.booleans(), "via": st.sampled_from(["stub", "stub", "c", "raw"]), "fail": st.sampled_from([None, None, None, None, "missing", "unknown", "dir"]), "args": st.lists(st.sampled_from(["a", "", "x y", "\xff"]), max_size=3), "shim": gen.shimPlan(env, 5)})
    return st.one_of(*[st.fixed_dictionaries({"server": subset, "how": st.sampled_from(["fg", "fg", "bg"]), "serverDebug": st.booleans(), "exchanges": st.lists(exchange, min_size=1, max_size=3), "shim": gen.shimPlan(env, 5)})] * 9,
                     st.fixed_dictionaries({"install": subset, "debug": st.booleans(), "other": st.booleans(), "old": st.booleans()}))


def directed(env):
    steps = [["in", ["count", 9000, 1]], ["out", ["rand", 9000, 2], 1], ["out", ["text", 500, 3], 2]]
    out = []
    for s in range(8):
        for k in range(8):
            out.append({"server": s, "how": "bg" if (s + k) % 3 == 0 else "fg", "serverDebug": k % 2 == 0, "shim": None, "exchanges": [{"closed": k, "steps": steps, "exit": 10 + k, "debug": s % 2 == 0, "via": "stub", "args": ["a"], "shim": None}, {"closed": 0, "steps": steps, "exit": 3, "debug": False, "via": "raw", "args": [], "shim": None}]})
    for k in range(8):
        for debug in (False, True):
            for other in (False, True):
                out.append({"install": k, "debug": debug, "other": other, "old": debug != other})
    return out


def streams(mask, opened=("pipe", "pipe", "pipe")):
    return {n: ("closed" if mask >> i & 1 else opened[i]) for i, n in enumerate(("stdin", "stdout", "stderr"))}


def install(case, env, c, labels):
    labels.append("install")
    src = c.path("src")
    shutil.copyfile(env.bins["k8psh"], src)
    os.chmod(src, 0o755)
    where = c.root
    if case["other"]:
        where = "/dev/shm/kv%d-%d" % (os.getuid(), env.caseNumber)
        try:
            os.mkdir(where)
        except OSError:
            where = c.root
    try:
        dest = os.path.join(where, "installed")
        if case["old"]:
            open(dest, "w").write("old")
        debug = {"K8PSH_DEBUG": "all"} if case["debug"] and case["install"] & 2 else {}
        p = c.proc(["k8psh", "--install", dest], exe=src, env=debug, **streams(case["install"], ("null", "pipe", "pipe")))
        c.finish(p, "--install ends")
        if p.rc != 0:
            raise Violation("--install failed (status %s): %r" % (p.rc, bytes(p.err[-200:])))
        diff(open(src, "rb").read(), open(dest, "rb").read(), "the binary and the installed file")
        if not os.access(dest, os.X_OK):
            raise Violation("the installed file is not executable")
        if p.out or p.err:
            raise Violation("--install wrote %r %r" % (bytes(p.out), bytes(p.err)))
    finally:
        if where != c.root:
            shutil.rmtree(where)


def run(case, env):
    labels = []
    with Case(env) as c:
        if "install" in case:
            install(case, env, c, labels)
            return labels + ["something closed"] * (case["install"] != 0)
        c.termsExpected = False
        port = env.port()
        conf = c.file("conf", wholeConfig(port, ["kv-cmd A=default " + sq(c.agent) + " conf", "kv-missing /nonexistent/x", "[far]", "kv-far x"]))
        os.mkdir(c.path("stubs"))
        mask = case["server"]
        senv = {"K8V_SHIM": case["shim"] or ""}
        if case["serverDebug"] and mask & 2:
            senv["K8PSH_DEBUG"] = "all"
            labels.append("server-debug")
        exe = env.bins["k8psh_shim" if case["shim"] else "k8psh"]
        kw = streams(mask, ("null", ("file", c.path("srv.out")), ("file", c.path("srv.err"))))
        labels.append("%s-server-%s" % (case["how"], "".join(str(i) for i in range(3) if mask >> i & 1) or "none"))
        pidFile = c.path("pid")
        if case["how"] == "bg":
            p = c.proc(["k8pshd", "--config", conf, "--name", "srv", "-b", "-p", pidFile, "-e", c.path("stubs")], exe=exe, env=senv, **kw)
            c.finish(p, "the starting process of the background server exits")
            if p.rc != 0:
                raise Violation("the background server did not start with closed streams (status %s)" % p.rc)

            def content():
                try:
                    return open(pidFile, "rb").read()
                except OSError:
                    return b""
            c.wait(lambda: content().endswith(b"\n"), "the background server writes its PID file")
            if not content()[:-1].isdigit():
                raise Violation("the PID file contains %r" % content()[:300])
            pid = int(content())
            c.wait(lambda: catches(pid, 15) or not os.path.exists("/proc/%d" % pid), "the background server serves")
        else:
            server = c.server(conf, port=port, exe=exe, env=senv, args=["-e", c.path("stubs")], **kw)
            pid = server.pid
        fds = openFds(pid)
        if fds is None:
            raise Violation("the server is gone")
        for n in (0, 1, 2):
            if n in fds and mask >> n & 1 and not fds[n].startswith("/dev/"):
                raise Violation("the server uses its closed descriptor %d for %s" % (n, fds[n]))
        for e in case["exchanges"]:
            index = len(c.agents)
            via = e["via"]
            closed = e["closed"] if via != "raw" else 0
            labels.append("%s-client-%s" % (via, "".join(str(i) for i in range(3) if closed >> i & 1) or "none"))
            if e.get("fail"):
                # The server logs an error
                labels.append("fail-" + e["fail"])
                if via == "raw" or e["fail"] != "missing":
                    conn = net.rawStart(c, port, {"missing": b"kv-missing", "unknown": b"kv-none", "dir": b"kv-cmd"}[e["fail"]], cwd=b"nowhere" if e["fail"] == "dir" else b"")
                    c.wait(lambda: conn.eof, "a failed request's connection is closed")
                    messages, rest = net.parse(conn.inbuf, False)
                    if rest or any(m[0] not in (net.STDIN, net.STDOUT, net.STDERR) or m[0] != net.STDERR and m[1] for m in messages):
                        raise Violation("a failed request was answered with %r %r" % (messages[:4], rest[:60]))
                    if b"\0" in b"".join(m[1] for m in messages):
                        raise Violation("protocol data appears in the standard error of a failed request: %r" % messages[:4])
                    conn.close()
                else:
                    p = c.client("kv-missing", config=conf, **streams(closed))
                    c.finish(p, "a client whose command cannot start fails")
                    if p.rc == 0 or p.out:
                        raise Violation("a client whose command cannot start exited with %s, output %r" % (p.rc, bytes(p.out[:200])))
                if len(c.agents) != index:
                    raise Violation("a request that has to fail started %r" % (c.agents[index].argv,))
                continue
            if via == "raw":
                conn = net.rawStart(c, port, b"kv-cmd", args=[b(x) for x in e["args"]], env=[b"A=value"])
                c.wait(lambda: conn.eof or len(c.agents) > index and c.agents[index].hello, "the command starts")
                if conn.eof:
                    raise Violation("the connection was closed without the command being started")
                a = c.agents[index]
            else:
                cenv = {"A": "value", "K8V_SHIM": e["shim"] or ""}
                if e["debug"] and closed & 2:
                    cenv["K8PSH_DEBUG"] = "all"
                    labels.append("client-debug")
                p = c.client("kv-cmd", config=conf, args=[b(x) for x in e["args"]], mode=e["via"], env=cenv, exe=env.bins["k8psh_shim"] if e["shim"] else None, **streams(closed))
                a = c.waitAgent(p, index=index)
            if a.argv != [b(c.agent), b"conf"] + [b(x) for x in e["args"]] or a.environ != [b"A=value"]:
                raise Violation("the command was started with %r %r" % (a.argv, a.environ))
            targets = openFds(a.pid)
            if [f[0] for f in a.fds] != [0, 1, 2] or any(f[1] != stat.S_IFIFO for f in a.fds) or targets and len({targets.get(n) for n in (0, 1, 2)}) != 3:
                raise Violation("the command's descriptors (number, type, flags) are %r" % (a.fds,))
            want = {1: bytearray(), 2: bytearray()}
            gone = set()
            eof = False
            if closed & 1:
                status, d = c.op(a.readAll(), "the command reads end-of-file as the client's input is closed", a)
                if d:
                    raise Violation("the command read %r although the client's input is closed" % d[:100])
                eof = True

            def shown(n):
                if via == "raw":
                    return conn.collect()[n - 1]
                return p.out if n == 1 else p.err
            for s in e["steps"]:
                if s[0] == "in" and not eof and 0 not in gone:
                    d = blob(*s[1])
                    if via == "raw":
                        conn.send(net.msg(net.STDIN, d))
                    else:
                        p.send(d)
                    diff(d, c.op(a.read(len(d)), "the command's input arrives", a)[1], "the client's input and what the command read")
                elif s[0] == "out" and s[2] not in gone:
                    want[s[2]] += blob(*s[1])
                    o = a.write(s[2], blob(*s[1]))
                    if not closed >> s[2] & 1:
                        c.wait(lambda: len(shown(s[2])) >= len(want[s[2]]) or (p.rc is not None if via != "raw" else conn.eof), "the command's output arrives")
                    c.op(o, "the command's write completes", a)
                elif s[0] == "close" and s[1] not in gone and len(gone) < 2:
                    gone.add(s[1])
                    c.op(a.close(s[1]), agent=a)
                elif s[0] == "eof" and not eof and 0 not in gone:
                    conn.send(net.msg(net.STDIN, b"")) if via == "raw" else p.closeStdin()
                    eof = True
                    status, d = c.op(a.readAll(), "the command reads end-of-file", a)
                    diff(b"", d, "the client's input and what the command read")
            if not eof and via != "raw":
                p.closeStdin()
            elif not eof:
                conn.send(net.msg(net.STDIN, b""))
            a.exit(e["exit"])
            if via == "raw":
                c.wait(lambda: conn.collect()[2] is not None or conn.eof, "the exit code arrives")
                out, err, code, other = conn.collect()
                messages, rest = net.parse(conn.inbuf, False)
                if rest or any(m[0] != net.STDIN or m[1] for m in other):
                    raise Violation("the server sent something else than messages of the exchange: %r %r" % (other[:3], rest[:60]))
                diff(bytes(want[1]), out, "the command's stdout and the messages received")
                diff(bytes(want[2]), err, "the command's stderr and the messages received")
                if code != e["exit"]:
                    raise Violation("the exit code arrived as %r instead of %d" % (code, e["exit"]))
                conn.close()
            else:
                c.finish(p, "the client exits after its command (streams closed: client %d, server %d)" % (closed, mask))
                for n in (1, 2):
                    diff(b"" if closed >> n & 1 else bytes(want[n]), bytes(shown(n)), "the command's output %d and the client's" % n)
                if p.rc != e["exit"]:
                    raise Violation("the client exited with %s instead of %d: %r" % (p.rc, e["exit"], bytes(p.err[-200:])))
        if not os.path.exists("/proc/%d" % pid) or not listening(port):
            raise Violation("the server is gone")
        if case["how"] == "bg" and content() != b"%d\n" % pid:
            raise Violation("the PID file contains %r" % content()[:300])
        for kind in ("out", "err"):
            if not any(e.get("fail") for e in case["exchanges"]) and os.path.exists(c.path("srv." + kind)) and os.path.getsize(c.path("srv." + kind)):
                raise Violation("the server wrote on its std%s: %r" % (kind, open(c.path("srv." + kind), "rb").read(300)))
        if mask or any(e["closed"] and e["via"] != "raw" for e in case["exchanges"]):
            labels.append("something closed")
    return labels


def nontrivial(case, labels):
    return "something closed" in labels
