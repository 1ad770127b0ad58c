"""C03: the client's exit status is the remote exit status, and failure is never success."""
import os, signal
from hypothesis import strategies as st
from lib import gen
from lib.engine import Violation
from lib.h import Case, blob, diff, sq, wholeConfig
from lib.net import Proxy

ID = "C03"
LEVEL = "exploration"
ARTIFACTS = ["k8psh", "k8psh_shim", "agent"]
EXAMPLES = {"quick": 150, "thorough": 2500}
RULE = ("Each case is a generated ending of a run: normal exit with any code (after generated output, with unread input or closed streams), death by a generated signal, an executable that cannot be started (missing, not executable, "
        "a directory, empty), an unknown command, an unusable working directory, loss of the handler or listener process or of the connection (cut after a generated number of bytes in either direction, by close or reset), no server at all. "
        "Oracle: exact code for normal exits, any failing status otherwise. Non-trivial: every case that is not a plain exit with 0; distinct by case.")

SIGNALS = [1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 24, 25, 31]


def strategy(env):
    common = {"out": gen.data(env, 70000), "err": gen.data(env, 5000), "in": gen.data(env, 200000), "stdin": st.sampled_from(["null", "open", "data"]), "mode": st.sampled_from(["stub", "c"])}

    def kind(name, **kw):
        return st.fixed_dictionaries(dict(common, kind=st.just(name), **kw))
    return st.one_of(
        kind("exit", code=st.integers(0, 255), close=st.lists(st.sampled_from([0, 1, 2]), max_size=3), linger=st.sampled_from([0, 0, 5000]), cshim=gen.shimPlan(env, 4), sshim=gen.shimPlan(env, 4)),
        kind("exit", code=st.integers(0, 255), close=st.lists(st.sampled_from([0, 1, 2]), max_size=3), linger=st.sampled_from([0, 0, 5000]), cshim=gen.shimPlan(env, 4), sshim=gen.shimPlan(env, 4)),
        kind("signal", sig=st.sampled_from(SIGNALS), close=st.lists(st.sampled_from([0, 1, 2]), max_size=3)),
        kind("start", how=st.sampled_from(["missing", "noexec", "dir", "empty", "missingabs", "slash"])),
        kind("unknown", how=st.sampled_from(["server", "client", "section"])),
        kind("cwd", how=st.sampled_from(["missing", "file", "forbidden"])),
        kind("handler", sig=st.sampled_from([9, 9, 6, 11]), when=st.sampled_from(["idle", "output", "closed"])),
        kind("listener", sig=st.sampled_from([9, 15, 2]), code=st.integers(0, 255)),
        kind("cut", dir=st.sampled_from(["up", "down"]), at=gen.sizes(env, 75000), how=st.sampled_from(["fin", "rst"]), code=st.integers(0, 255), pieces=st.lists(gen.sizes(env, 9000), max_size=3)),
        kind("noserver", timeout=st.sampled_from([0, 1, 60])),
    )


def fails(p, what):
    if p.rc == 0:
        raise Violation("the client exited with status 0 although " + what)


def run(case, env):
    k = case["kind"]
    labels = [k]
    with Case(env) as c:
        port = env.port()
        out, err = blob(*case["out"]), blob(*case["err"])
        os.mkdir(c.path("base"))
        os.mkdir(c.path("sbase"))
        exe = c.agent
        shimmed = env.bins["k8psh_shim"]
        cport = port
        command = "kv-cmd"
        extra = ""
        if k == "start":
            labels.append(case["how"])
            how = case["how"]
            if how == "missing":
                exe = "kv-does-not-exist"
            elif how == "missingabs":
                exe = c.path("nothing")
            elif how == "noexec":
                exe = c.file("plain", b"#!/bin/sh\nexit 0\n")
            elif how == "dir":
                exe = c.path("base")
            elif how == "empty":
                exe = ""
            else:
                exe = "/"
        if k == "cut":
            cport = env.port()
        sconf = c.file("sconf", wholeConfig(port, [("kv-other " if k == "unknown" and case["how"] == "server" else "kv-cmd ") + sq(exe)], base=c.path("sbase")))
        cconf = c.file("cconf", wholeConfig(cport, ["kv-cmd " + sq(exe)], base=c.path("base"), timeout=case["timeout"] if k == "noserver" else 8000))
        if k == "unknown":
            labels.append(case["how"])
            if case["how"] == "client":
                command = "kv-nope"
            elif case["how"] == "section":
                # The command belongs to another section of the server's configuration
                c.file("sconf", wholeConfig(port, ["kv-mine " + sq(exe), "[other:%d]" % (port + 1 if port < 60000 else port - 1), "kv-cmd " + sq(exe)], base=c.path("sbase")))
        cwd = c.path("base")
        if k == "cwd":
            labels.append(case["how"])
            cwd = c.path("base", "sub")
            os.mkdir(cwd)
            if case["how"] == "file":
                c.file("sbase/sub", b"")
            elif case["how"] == "forbidden":
                os.mkdir(c.path("sbase", "sub"), 0o600)
        server = None
        if k != "noserver":
            server = c.server(sconf, port=port, exe=shimmed if case.get("sshim") is not None else None, env={"K8V_SHIM": case.get("sshim") or ""}, args=["-e", c.path("base")])
        proxy = None
        if k == "cut":
            proxy = Proxy(c, cport, port, up=case["pieces"], down=case["pieces"], cut=(case["dir"], case["at"], case["how"]))
        p = c.client(command, ["arg"], config=cconf, cwd=cwd, mode=case["mode"], stdin="null" if case["stdin"] == "null" else "pipe",
                     exe=shimmed if case.get("cshim") is not None else None, env={"K8V_SHIM": case.get("cshim") or ""})
        if case["stdin"] == "data":
            p.send(blob(*case["in"]))
        if k in ("start", "unknown", "cwd", "noserver"):
            c.finish(p, "the client ends after its command could not be run")
            fails(p, "its command was never run (%s)" % labels)
            c.idle(0.01)
            if c.agents:
                raise Violation("a program was started although the request had to be refused (%s)" % labels)
            return labels
        if k == "cut":
            c.termsExpected = True
            # The command may or may not get to start
            started = lambda: c.agents and c.agents[0].hello
            c.wait(lambda: started() or p.rc is not None, "the command starts or the client fails")
            if started():
                a = c.agents[0]
                a.termExpected = True
                a.write(1, out)
                a.write(2, err)
                a.exit(case["code"])
            c.finish(p, "the client ends after its connection was cut or its command ended")
            if proxy.cutDone:
                labels.append("really-cut")
                sent = bytes(proxy.record["down"])
                complete = len(sent) >= 5 and started() and sent[-5:] == b"\x08" + bytes([case["code"], 0, 0, 0]) and case["dir"] == "down"
                if not complete:
                    fails(p, "its connection was cut (%s) before the exit code" % case["how"])
                    if p.rc > 0 and p.rc != 1 and p.rc == case["code"] and not started():
                        raise Violation("the client reported an exit code its command never produced")
            elif p.rc != case["code"]:
                raise Violation("the client exited with %s, the command with %d" % (p.rc, case["code"]))
            return labels
        a = c.waitAgent(p)
        if k == "handler":
            a.termExpected = True
            if case["when"] == "output":
                a.write(1, out)
                c.wait(lambda: len(p.out) >= len(out), "output arrives")
            elif case["when"] == "closed":
                for fd in (0, 1, 2):
                    a.close(fd)
                c.op(a.sleep(1000), agent=a)
            os.kill(a.ppid, case["sig"])
            c.finish(p, "the client ends after its server process was killed")
            fails(p, "its server process was killed before the command ended")
            return labels
        if k == "listener":
            server.killedByUs = True
            os.kill(server.pid, case["sig"])
            c.idle(0.005)
        a.write(1, out)
        a.write(2, err)
        for fd in case.get("close", ()):
            a.close(fd)
        if case.get("linger"):
            a.sleep(case["linger"])
        if k == "signal":
            a.signal(case["sig"])
            c.finish(p)
            fails(p, "its command was killed by signal %d" % case["sig"])
            # Output written before the death still arrives
        else:
            a.exit(case["code"])
            c.finish(p)
            if p.rc != case["code"]:
                raise Violation("the client exited with %s, the command with %d" % (p.rc, case["code"]))
            diff(out, bytes(p.out), "the command's stdout and the client's")
            diff(err, bytes(p.err), "the command's stderr and the client's")
            labels.append("code%s" % (">127" if case["code"] > 127 else "0" if not case["code"] else "<=127"))
    return labels


def nontrivial(case, labels):
    return case["kind"] != "exit" or case["code"] != 0
