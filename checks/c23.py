"""C23: a server exposes only its own commands, and only on the loopback port."""
import os, socket
from hypothesis import strategies as st
from lib import gen, net
from lib.engine import Violation
from lib.h import Case, b, childrenOf, openFds, sq, u

ID = "C23"
LEVEL = "exploration"
ARTIFACTS = ["k8psh", "agent"]
EXAMPLES = {"quick": 110, "thorough": 2000}
TECHNIQUE = "property-based testing of the real server: generated configurations and raw requests, decided against the set of configured commands; every program that could be started by mistake reports itself; kernel socket tables compared; shrinking"
RULE = ("Each case: a generated configuration (own section and others in any order, with names that differ in case or extension, the same command name configured elsewhere with another executable, own commands with absolute, relative or bare executables) and a sequence of raw or real client requests "
        "(own names, names changed in case / prefix / suffix / NUL / blank / path, foreign names, section names, paths of programs and of trap scripts, empty and very long names, bad or repeated messages) with arbitrary earlier directory, argument and variable messages, and trap programs under the requested names in the working directory and on the paths the client sends. "
        "Oracle: exactly the requests for configured own names start their configured executable with exactly the configured argv and environment; all others are closed without an answer and without any program starting; the server has exactly one socket, 127.0.0.1:port. Non-trivial: at least one accepted and one refused request.")

OWN = ["kv-a", "kv-b", "kv-Own", "kv-own", "kv-a.b", "KV-C", "kv-x y", "kv-\xe9", "kv", "a"]
OTHER = ["other", "SRV", "srv2", "sr", "Srv", "srv.x", "-srv"]
CHANGES = ["upper", "lower", "swap", "suffix", "prefix", "nul", "nulmore", "space", "lead", "newline", "dot", "dotdot", "cut", "bin", "double", "eq"]


def strategy(env):
    own = st.lists(st.tuples(st.sampled_from(OWN), st.sampled_from(["abs", "abs", "bare", "rel"])).map(list), min_size=1, max_size=4, unique_by=lambda t: t[0])
    other = st.lists(st.tuples(st.sampled_from(OTHER), st.lists(st.sampled_from(OWN[:6] + ["kv-f", "kv-g", "kv-far", "kv-Far"]), min_size=1, max_size=4, unique=True), st.booleans()).map(list), max_size=3, unique_by=lambda t: t[0])
    pre = st.lists(st.one_of(
        st.tuples(st.just("arg"), st.one_of(st.sampled_from(["", "-c", "@marker", "/bin/sh", "x", "A=b", "kv-a"]), gen.rawBytes(0, 8))),
        st.tuples(st.just("env"), st.one_of(st.sampled_from(["PATH=@trap", "LD_PRELOAD=@trap/x.so", "K8PSH_NAME=other", "K8PSH_CONFIG=@root/other", "PATH", "CONFIGURED=v", "=", "", "kv-a=kv-b", "K8PSH_DEBUG=all"]), gen.rawBytes(0, 8).map(lambda s: "K" + s))),
        st.tuples(st.just("cwd"), st.sampled_from(["", "d", ".", "trap", "nowhere"])),
    ).map(list), max_size=5)
    name = st.one_of(
        st.tuples(st.just("own"), st.integers(0, 3), st.none()), st.tuples(st.just("own"), st.integers(0, 3), st.none()),
        st.tuples(st.just("own"), st.integers(0, 3), st.sampled_from(CHANGES)),
        st.tuples(st.just("foreign"), st.integers(0, 7), st.none()),
        st.tuples(st.just("lit"), st.one_of(st.sampled_from(["", "srv", "other", "/bin/sh", "sh", "@agent", "@trap/kv-trap", "trap/kv-trap", "./kv-trap", "kv-trap", "../b/agent", "agent", "srv/kv-a", "[srv]", "*", "kv-*", ".", "\0", "kv-trap2"]), gen.rawBytes(0, 10, True), gen.sizes(env, 70000).map(lambda n: "k" * n)), st.none()),
    ).map(list)
    request = st.fixed_dictionaries({"name": name, "pre": pre, "via": st.sampled_from(["raw", "raw", "raw", "client"]), "odd": st.one_of(st.none(), st.none(), st.none(), st.none(), st.sampled_from(["early4", "early5", "early7", "early8", "early255", "restart", "restartOther", "lateArg"]))})
    return st.fixed_dictionaries({"own": own, "other": other, "at": st.integers(0, 3), "requests": st.lists(request, min_size=2, max_size=8), "name": st.sampled_from(["opt", "env"]), "options": st.sampled_from(["", "", "K8PSHVAR=1", "-l"])})


def changed(name, how):
    return {"upper": name.upper(), "lower": name.lower(), "swap": name.swapcase(), "suffix": name + "x", "prefix": "x" + name, "nul": name + "\0", "nulmore": name + "\0kv", "space": name + " ", "lead": " " + name, "newline": name + "\n",
            "dot": "./" + name, "dotdot": "d/../" + name, "cut": name[:-1], "bin": "bin/" + name, "double": name + name, "eq": name + "="}[how]


def sockets(pid):
    """The inodes of the sockets a process has open."""
    return sorted(int(t[8:-1]) for t in (openFds(pid) or {}).values() if t.startswith("socket:["))


def describe(inode):
    """(table, local address, state) of a socket, None if the tables cannot be read."""
    found = False
    for kind in ("tcp", "tcp6", "udp", "udp6", "raw", "raw6", "unix"):
        try:
            lines = open("/proc/net/" + kind).read().splitlines()[1:]
        except OSError:
            continue
        found = True
        word = " %d " % inode
        for l in lines:
            if word in l + " ":
                f = l.split()
                if kind == "unix":
                    return (kind, " ".join(f[7:]), f[5])
                if f[9] == str(inode):
                    return (kind, f[1], f[3])
    return ("unknown",) if found else None


def checkSockets(pid, port, before=None):
    mine = sockets(pid)
    if len(mine) != 1:
        raise Violation("the server has %d sockets open instead of one (%s)" % (len(mine), "after the requests" if before else "after the start"))
    if mine != before:
        got = describe(mine[0])
        if got is not None and got != ("tcp", "0100007F:%04X" % port, "0A"):
            raise Violation("the server's socket is %r, not a listening 127.0.0.1:%d" % (got, port))
    return mine


def refusedAt(family, address, port):
    s = socket.socket(family)
    s.settimeout(1)
    try:
        s.connect((address, port))
    except OSError:
        return
    finally:
        s.close()
    raise Violation("the server can be reached at %s" % address)


def run(case, env):
    labels = []
    with Case(env) as c:
        c.termsExpected = True  # for requests that end their connection
        port = env.port()
        for d in ("d", "trap", "stubs", "d/d"):
            os.mkdir(c.path(d))
        os.symlink(os.path.join(c.bin, "ctl.sock"), c.path("ctl.sock"))
        os.symlink(os.path.join(c.bin, "ctl.sock"), c.path("trap", "ctl.sock"))
        os.symlink(os.path.join(c.bin, "ctl.sock"), c.path("d", "ctl.sock"))
        marker = c.path("marker")
        script = c.file("script", "#!/bin/sh\necho \"$0\" >>'%s'\n" % marker)
        os.chmod(script, 0o755)
        own = [o for o in case["own"]]
        ownNames = {o[0] for o in own}
        # Traps: programs with the names that may be requested (never under a bare executable's own name)
        for n in OWN + ["kv-f", "kv-g", "kv-far", "kv-trap", "kv-trap2", "x", "sh"]:
            for d in ("", "trap"):
                os.link(env.bins["agent"] if hash_(n + d) % 2 else script, os.path.join(c.path(d) if d else c.root, n))
        os.mkdir(c.path("good"))
        os.symlink(os.path.join(c.bin, "ctl.sock"), c.path("good", "ctl.sock"))
        exes = {}
        lines = []
        for i, (name, kind) in enumerate(own):
            if kind == "abs":
                exe = c.agent
            elif kind == "rel":
                exe = "../%s/b/agent" % os.path.basename(c.root)
            else:
                exe = "kv-prog%d" % i
                os.link(env.bins["agent"], c.path("good", exe))
            exes[name] = exe
            lines.append("%s =PATH=%s CONFIGURED=default%d %s own:%d" % (sq(name), sq(c.path("good")), i, sq(exe), i))
        foreign = [n for o in case["other"] for n in o[1]]
        sections = []
        for k, (section, names, asTrap) in enumerate(case["other"]):
            sections.append("[%s:%d]\n" % (section, env.port()) + "".join("%s %s foreign\n" % (sq(n), sq(script if asTrap else c.agent)) for n in names))
        sections.insert(min(case["at"], len(sections)), "[srv:%d] %s\n" % (port, case["options"] if case["options"].startswith("K") else "") + "\n".join(lines) + "\n")
        conf = c.file("conf", "connectTimeoutMs = 8000\n" + "".join(sections))
        args = ["-e", c.path("stubs")]
        if case["options"] == "-l" and not any(" " in n or "/" in n for n in ownNames):
            args.append("-l")
        server = c.server(conf, name="srv" if case["name"] == "opt" else None, args=args, env={"PATH": c.path("trap"), "K8PSH_NAME": "srv" if case["name"] == "env" else "other", "SECRET": "server"}, port=port)
        socketsBefore = checkSockets(server.pid, port)
        if not labels:
            refusedAt(socket.AF_INET, "127.0.0.2", port)
            refusedAt(socket.AF_INET6, "::1", port)
        accepted = refused = 0
        odds, regular = {}, []

        def text(s):
            return b(s.replace("@marker", "echo x >>" + marker).replace("@trap", c.path("trap")).replace("@root", c.root).replace("@agent", c.agent))
        for r in case["requests"]:
            kind, which, change = r["name"]
            if kind == "own":
                name = own[which % len(own)][0]
                if change:
                    name = changed(name, change)
            elif kind == "foreign":
                name = foreign[which % len(foreign)] if foreign else "kv-f"
            else:
                name = u(text(which))
            via = r["via"]
            if "\0" in name or len(name) > 60000 or not name or name.startswith("-") or "/" in name or name in ("k8psh", "k8pshd"):
                via = "raw"
            isOwn = name in ownNames
            bare = isOwn and exes[name].startswith("kv-prog")
            rel = isOwn and exes[name].startswith("../")
            pres = [] if via == "client" else [list(p) for p in r["pre"]]
            cwd = ""
            argv, received = [], {}
            for p in pres:
                if p[0] == "cwd":
                    if rel and p[1] not in ("", "."):
                        p[1] = ""
                    cwd = p[1]
                elif p[0] == "arg":
                    argv.append(text(p[1]))
                else:
                    t = text(p[1])
                    if b"=" in t:
                        received[t.split(b"=")[0]] = t.split(b"=", 1)[1]
            odd = r["odd"] if via == "raw" else None
            if odd:
                pres.append(["arg", "odd%d" % accepted])
                argv.append(b"odd%d" % accepted)
            runs = isOwn and cwd != "nowhere" and not (odd or "").startswith("early")
            def mine():
                return [a for a in c.agents if a.hello and a not in regular and a.argv[-1] not in odds]
            if via == "client":
                clientConf = c.file("cconf", "connectTimeoutMs = 8000\nbaseDirectory = %s\n[srv:%d]\n%s CONFIGURED= x\n" % (sq(c.root), port, sq(name)))
                p = c.client(name, config=clientConf, args=["arg"], mode="c", env={"CONFIGURED": "v", "PATH": c.path("trap")}, stdin="pipe")
                argv, received = [b"arg"], {b"CONFIGURED": b"v"}
            else:
                conn = net.Conn.connect(c, port)
                out = b"" if any(p[0] == "cwd" for p in pres) else net.msg(net.WORKING_DIRECTORY, b"")
                for p in pres:
                    out += net.msg({"cwd": net.WORKING_DIRECTORY, "arg": net.ARGUMENT, "env": net.ENVIRONMENT}[p[0]], b(p[1]) if p[0] == "cwd" else text(p[1]))
                if (odd or "").startswith("early"):
                    out += net.msg(int(odd[5:]), b"")
                out += net.msg(net.START, b(name))
                if odd == "restart":
                    out += net.msg(net.START, b(own[0][0]))
                elif odd == "restartOther":
                    out += net.msg(net.START, b"kv-f")
                elif odd == "lateArg":
                    out += net.msg(net.ARGUMENT, b"late")
                conn.send(out)
            if not runs:
                refused += 1
                labels.append("refused-" + (change or kind))
                if via == "client":
                    c.finish(p, "a client whose command is refused ends")
                    if p.rc == 0 or p.out:
                        raise Violation("a client whose request (%r) should be refused exited with %s, output %r" % (name, p.rc, bytes(p.out[:100])))
                else:
                    c.wait(lambda: conn.eof, "the connection of a refused request is closed")
                    answer = [m for m in conn.messages() if not (isOwn and m in ((net.STDOUT, b""), (net.STDERR, b"")))]  # its streams end if its directory cannot be used
                    if answer or conn.inbuf and not isOwn:
                        raise Violation("a refused request (%r) was answered: %r" % (name[:80], bytes(conn.inbuf[:60])))
                    conn.close()
                strange(c, odds, regular)
                continue
            accepted += 1
            labels.append("accepted-" + via)
            if odd:
                # The command may be ended before or after it reports; whatever starts is checked at the end
                c.wait(lambda: conn.eof, "a connection with a message that is not allowed after the start is closed")
                conn.close()
                c.wait(lambda: not childrenOf(server.pid), "the ended connection leaves nothing behind")
                odds[argv[-1]] = [b(exes[name]), b"own:%d" % [o[0] for o in own].index(name)] + argv
                continue
            if via == "client":
                c.wait(lambda: mine() or p.rc is not None, "an own command starts")
            else:
                c.wait(lambda: mine() or conn.eof, "an own command starts")
            if not mine():
                raise Violation("an own command (%r) was refused" % name)
            a = mine()[0]
            regular.append(a)
            i = [o[0] for o in own].index(name)
            want = [b(exes[name]), b"own:%d" % i] + argv
            want = [w.split(b"\0")[0] for w in want]
            if a.argv != want:
                raise Violation("a request for %r started %r instead of %r" % (name, a.argv, want))
            wantEnv = {b"PATH": b(c.path("good")), b"CONFIGURED": received.get(b"CONFIGURED", b"default%d" % i)}
            if case["options"].startswith("K"):
                wantEnv[b"K8PSHVAR"] = received.get(b"K8PSHVAR", b"1")
            if sorted(a.environ) != sorted(k + b"=" + v for k, v in wantEnv.items()):
                raise Violation("the environment is %r instead of %r" % (a.environ, wantEnv))
            if os.readlink("/proc/%d/exe" % a.pid) not in (c.agent, c.path("good", exes[name])):
                raise Violation("the program started for %r is %s" % (name, os.readlink("/proc/%d/exe" % a.pid)))
            if via == "client":
                p.closeStdin()
                a.exit(33)
                c.finish(p)
                if p.rc != 33:
                    raise Violation("a client of an own command exited with %s instead of 33" % p.rc)
            else:
                conn.send(net.msg(net.STDIN, b""))
                a.exit(33)
                c.wait(lambda: conn.collect()[2] is not None or conn.eof, "the exit code arrives")
                if conn.collect()[2] != 33:
                    raise Violation("an own command's exit code arrived as %r" % conn.collect()[2])
                conn.close()
            strange(c, odds, regular)
        c.wait(lambda: not childrenOf(server.pid), "the server has no children left")
        if server.rc is not None:
            raise Violation("the server ended")
        c.waitQuiet(lambda: len(sockets(server.pid)) == 1, 1)
        checkSockets(server.pid, port, socketsBefore)
        if os.path.exists(marker):
            raise Violation("a program that is not an own command was started: %r" % open(marker).read())
        c.idle(0.002)
        strange(c, odds, regular)
        if accepted and refused:
            labels.append("both")
    return labels


def strange(c, odds, regular):
    """Every program that has reported was started by a request for it."""
    for a in c.agents:
        if a not in regular:
            c.waitQuiet(lambda: a.hello or a.gone, 2)
            if not a.hello:
                continue
            if odds.get(a.argv[-1]) != a.argv:
                raise Violation("a request that should be refused started %r" % a.argv)
    tags = [a.argv[-1] for a in c.agents if a.hello and a not in regular]
    if len(tags) != len(set(tags)):
        raise Violation("one request started several programs: %r" % tags)


def hash_(s):
    return sum(map(ord, s))


def nontrivial(case, labels):
    return "both" in labels
