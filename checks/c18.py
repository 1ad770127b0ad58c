"""C18: server options act as documented, and the command line wins."""
import os, signal, socket, time
from hypothesis import strategies as st
from lib import gen, net
from lib.engine import Violation
from lib.h import Case, b, catches, diff, listening, procState, sq

ID = "C18"
LEVEL = "exploration"
ARTIFACTS = ["k8psh", "agent"]
EXAMPLES = {"quick": 300, "thorough": 2000}
RULE = ("Each case is a generated combination of options in the server's section and on the command line, each in a generated spelling (short, long, long with '='), with repetitions and conflicting values, unknown or incomplete options with and without --ignore-invalid-arguments, --config / K8PSH_CONFIG / k8psh.conf and --name / K8PSH_NAME / host name with decoys, and each way of starting a server; values contain equals signs; clients are given their configuration in each way, with decoys. "
        "Oracle: a model of the effective options (section first, command line last) whose effects are observed: the section served, the directory and set of client executables, connection limit, timeout, PID file and detachment, waiting for commands, kept executables, rejection of invalid options. Non-trivial: an option in the section and one on the command line, or an invalid option.")

VALUED = {"e": "--executable-directory", "m": "--max-connections", "p": "--pidfile", "t": "--timeout"}
FLAGS = {"b": "--background", "d": "--disable-client-executables", "k": "--keep-client-executables", "l": "--generate-local-executables", "o": "--overwrite-client-executables", "w": "--no-wait"}
DIRS, PIDS = ("d0", "d=1", "-d 2=--pidfile=x"), ("pid0", "pid=1=")
INVALID = ["--foo", "junk", "--config-x", "--executable-directoryX", "-m5", "--time=5", "--no-wait=1", "-bk", "-", "--", "", "-E", "--Timeout=1", "--background=", "-x", "-z=3", "---keep-client-executables", "--max-connection=0", "-e=d2", "d1"]


def strategy(env):
    def option(section):
        return st.one_of(
            st.tuples(st.just("e"), st.integers(0, 2), st.integers(0, 2)), st.tuples(st.just("p"), st.integers(0, 2), st.integers(0, 1)),
            st.tuples(st.just("m"), st.integers(0, 2), st.sampled_from(["-1", "0", "1", "2", "3", "100", "-3"])), st.tuples(st.just("t"), st.integers(0, 2), st.sampled_from(["-1", "200", "350", "600000", "9000000000000000000", "-5"])),
            st.tuples(st.sampled_from(sorted(FLAGS)), st.integers(0, 1), st.just(0)), st.tuples(st.sampled_from(sorted(FLAGS)), st.integers(0, 1), st.just(0)),
        ).map(list)
    odd = st.one_of(st.tuples(st.just("bad"), st.just(0), st.sampled_from(INVALID)), st.tuples(st.just("i"), st.integers(0, 1), st.just(0)), st.tuples(st.just("i"), st.integers(0, 1), st.just(0)),
                    st.tuples(st.just("cut"), st.integers(0, 1), st.sampled_from("emptnc")), st.tuples(st.just("num"), st.sampled_from("mt"), st.sampled_from(["abc", "", " ", "x1", "99999999999999999999", "--"]))).map(list)

    def options(section):
        plain = st.lists(option(section), max_size=4)
        return st.one_of(plain, plain, plain, st.tuples(plain, st.lists(odd, min_size=1, max_size=2), plain).map(lambda t: t[0] + t[1] + t[2]))
    return st.fixed_dictionaries({
        "section": options(True), "line": options(False), "config": st.sampled_from(["c", "long", "eq", "env", "both", "file", "twice"]), "name": st.sampled_from(["n", "long", "eq", "env", "both", "host", "twice"]),
        "start": st.sampled_from(["k8pshd", "-s", "--server", "last", "path"]), "existing": st.sampled_from([False] * 5 + [True]), "info": st.sampled_from([""] * 12 + ["", "", "", "", "", "", "", "", "-h", "--help", "-v", "--version"]), "run": st.booleans(),
        "clients": st.lists(st.sampled_from(["stub", "stubpath", "env", "c", "long", "eq", "c+", "long+", "eq+", "twice", "default"]), min_size=1, max_size=3),
    })


def run(case, env):
    labels = []
    with Case(env) as c:
        port, decoy = env.port(), env.port()
        while decoy == port:
            decoy = env.port()
        for d in DIRS + ("elsewhere",):
            os.mkdir(c.path(d))

        def words(entry):
            o, spelling, value = entry
            if o in ("e", "p"):
                value = c.path(DIRS[value]) if o == "e" else c.path(PIDS[value])
            if o in VALUED:
                return [["-" + o, value], [VALUED[o], value], ["%s=%s" % (VALUED[o], value)]][spelling]
            if o in FLAGS:
                return [["-" + o, FLAGS[o]][spelling]]
            if o == "i":
                return [["-i", "--ignore-invalid-arguments"][spelling]]
            if o == "bad":
                return [value]
            if o == "num":
                return ["-" + spelling, value]
            if o == "cut":
                return [["-" + value, {"n": "--name", "c": "--config", **VALUED}[value]][spelling]]
        section, line = list(case["section"]), list(case["line"])
        # An incomplete option is only incomplete at the end
        section = [s for s in section if s[0] != "cut" or s[2] not in "nc"]
        # Text like this would be a variable of the section
        section = [s for s in section if s[0] != "bad" or "=" not in s[2] or s[2].startswith("--")]
        for l in (section, line):
            cuts = [s for s in l if s[0] == "cut"]
            l[:] = [s for s in l if s[0] != "cut"] + cuts[:1]
        hasB = any(s[0] == "b" for s in section + line)
        if hasB and not any(s[0] == "p" for s in section + line):
            line.insert(0, ["p", 1, 0])
        sectionWords = [w for s in section for w in words(s)]
        lineWords = [w for s in line for w in words(s)]
        hostname = socket.gethostname()
        serve = {"host": hostname}.get(case["name"], "srv")

        def config(main, other):
            return "\n".join(["[%s:%d] %s" % (serve, main, " ".join(sq(w) for w in sectionWords)), "kv-own " + sq(c.agent), "kv-two " + sq(c.agent),
                              "[decoy:%d] -m 0" % other, "kv-far x", "kv-away x", ""])
        conf = c.file("a=conf", config(port, decoy))
        # The decoy configuration serves elsewhere
        wrong = c.file("wrong", "[%s:%d]\nkv-wrong x\n[decoy:%d]\nkv-wrong2 x\n" % (serve, decoy, decoy))
        environment = {}
        head = []
        how = case["config"]
        if how == "c":
            head += ["-c", conf]
        elif how == "long":
            head += ["--config", conf]
        elif how == "eq":
            head += ["--config=" + conf]
        elif how == "env":
            environment["K8PSH_CONFIG"] = conf
        elif how == "both":
            environment["K8PSH_CONFIG"] = wrong
            head += ["--config=" + conf]
        elif how == "twice":
            head += ["-c", wrong, "--config", conf]
        else:
            c.file("elsewhere/k8psh.conf", config(port, decoy))
        how = case["name"]
        if how == "n":
            head += ["-n", "srv"]
        elif how == "long":
            head += ["--name", "srv"]
        elif how == "eq":
            head += ["--name=srv"]
        elif how == "env":
            environment["K8PSH_NAME"] = "srv"
        elif how == "both":
            environment["K8PSH_NAME"] = "decoy"
            head += ["-n", "srv"]
        elif how == "twice":
            head += ["-n", "decoy", "--name=srv"]
        argv = {"k8pshd": ["k8pshd"], "-s": ["k8psh", "-s"], "--server": ["/x/k8psh", "--server"], "last": ["k8psh"], "path": ["/some/where/k8pshd"]}[case["start"]]
        rest = head + lineWords
        if case["start"] == "last":
            # Only options that the client knows may precede --server
            at = [i for i, w in enumerate(head) if w in ("-c", "--config") or w.startswith("--config=")]
            if at and head[at[0]].startswith("--config="):
                rest = [head[at[0]], "-s"] + head[:at[0]] + head[at[0] + 1:] + lineWords
            elif at and how != "zz":
                rest = head[at[0]:at[0] + 2] + ["--server"] + head[:at[0]] + head[at[0] + 2:] + lineWords
            else:
                rest = ["-s"] + rest
        if case["info"]:
            rest.insert(0 if case["start"] != "last" else len(rest) - len(lineWords), case["info"])
        # The model
        ignore = False
        failed = False
        if case["info"]:
            pass
        for s in line:
            if s[0] == "i":
                ignore = True
            elif s[0] == "bad":
                failed = failed or not ignore
            elif s[0] == "cut":
                failed = True
        effective = {"e": None, "m": "-1", "t": "-1", "p": None}
        flags = set()
        for s in section + line:
            if s[0] == "i":
                ignore = True
            elif s[0] == "bad":
                failed = failed or (s in section and not ignore)
            elif s[0] == "cut":
                failed = True
            elif s[0] == "num":
                effective[s[1]] = s[2]
            elif s[0] in VALUED:
                effective[s[0]] = s[2]
            else:
                flags.add(s[0])

        def number(v):
            try:
                n = int(v)
                return n if abs(n) < 1 << 63 else None
            except ValueError:
                return None
        invalidValue = number(effective["m"]) is None or number(effective["t"]) is None
        place = c.path("elsewhere") if effective["e"] is None else c.path(DIRS[effective["e"]])
        inTheWay = os.path.join(place, "kv-far")
        if case["existing"]:
            with open(inTheWay, "w") as f:
                f.write("mine")
            labels.append("existing")
        clash = case["existing"] and "o" not in flags and "d" not in flags
        links = set() if "d" in flags else {"kv-far", "kv-away"} | ({"kv-own", "kv-two"} if "l" in flags else set())
        if any(s[0] in ("bad", "cut", "num") for s in section + line):
            labels.append("invalid")
        if section and line:
            labels.append("both")

        def stubs(where):
            return set(os.listdir(where)) - {"k8psh.conf"}

        def checkDirs(expected, when):
            for d in DIRS + ("elsewhere",):
                want = expected if c.path(d) == place else set()
                got = stubs(c.path(d))
                if got != want:
                    raise Violation("%s: directory %s contains %r, expected %r (section %r, line %r)" % (when, d, sorted(got), sorted(want), sectionWords, lineWords))
        spawned = time.monotonic()
        server = c.proc([os.fsencode(w) for w in argv + rest], exe=env.bins["k8psh"], env=environment, cwd=c.path("elsewhere"), stdin="null")
        what = "section %r, line %r" % (sectionWords, rest)
        if case["info"]:
            c.finish(server, "the server prints its information and exits")
            if server.rc != 0 or not server.out:
                raise Violation("%s gave status %s and %d bytes of output" % (case["info"], server.rc, len(server.out)))
            text = bytes(server.out)
            if case["info"] in ("-h", "--help"):
                for o in list(VALUED.values()) + list(FLAGS.values()) + ["--config", "--name", "--ignore-invalid-arguments"] if case["start"] != "last" or b"k8pshd [" in text else []:
                    if o.encode() not in text:
                        raise Violation("the usage does not mention %s" % o)
            checkDirs({"kv-far"} if case["existing"] else set(), "after " + case["info"])
            labels.append("info")
            return labels
        if failed or clash or invalidValue:
            c.finish(server, "the server rejects its options (%s)" % what)
            if server.rc == 0:
                raise Violation("the server exited with 0 although its options are invalid (%s)" % what)
            if listening(port):
                raise Violation("something listens on the server's port")
            if "o" not in flags and "d" not in flags:
                got = {d: stubs(c.path(d)) for d in DIRS + ("elsewhere",)}
                for d, names in got.items():
                    allowed = {"kv-far"} if case["existing"] and c.path(d) == place else set()
                    if names - allowed and "k" not in flags:
                        raise Violation("a failed start left %r in %s (%s)" % (sorted(names), d, what))
            labels.append("rejected")
            return labels
        maximum, timeout = number(effective["m"]), number(effective["t"])
        background = "b" in flags
        pid = server.pid
        pidFile = None if effective["p"] is None else c.path(PIDS[effective["p"]])

        def readPid():
            try:
                t = open(pidFile).read()
                return int(t) if t.endswith("\n") else None
            except (OSError, ValueError):
                return None
        ended = lambda: server.rc is not None
        short = maximum == 0 or 0 <= timeout < 1000
        if background:
            labels.append("background")
            c.finish(server, "the starting process of a background server exits")
            if server.rc != 0:
                raise Violation("the starting process exited with %s (%s): %r" % (server.rc, what, bytes(server.err[-300:])))
            if not short:
                c.wait(readPid, "the PID file is written (%s)" % what)
                pid = readPid()
            else:
                c.waitQuiet(lambda: readPid() or not listening(port), 5)
                pid = readPid()
            ended = lambda: pid is None or procState(pid) in (None, "Z", "X")
        if short:
            labels.append("short")
            c.wait(lambda: ended() and not listening(port), "the server ends by itself (%s)" % what)
            took = time.monotonic() - spawned
            if maximum != 0 and took < timeout / 1000 - 0.002:
                raise Violation("the server ended after %.3f s (%s)" % (took, what))
        else:
            if pid is not None and not background:
                c.wait(lambda: ended() or (listening(port) and catches(pid, signal.SIGTERM)), "the server serves its section (%s)" % what)
            else:
                c.wait(lambda: ended() or (listening(port) and catches(pid, signal.SIGTERM)), "the background server serves its section (%s)" % what)
            if ended():
                raise Violation("the server ended (status %s) instead of serving (%s): %r" % (server.rc, what, bytes(server.err[-300:])))
            checkDirs(links, "while serving")
            for l in links:
                if os.readlink(os.path.join(place, l)) != env.bins["k8psh"]:
                    raise Violation("the client executable %s is a link to %r" % (l, os.readlink(os.path.join(place, l))))
            for i in (0, 1):
                exists = os.path.exists(c.path(PIDS[i]))
                if exists != (background and effective["p"] == i):
                    raise Violation("PID file %d %s (%s)" % (i, "exists" if exists else "does not exist", what))
            def start(command, how):
                """A client given its configuration in one of the documented ways, with decoys."""
                if how == "default":
                    os.makedirs(c.path("plain"), exist_ok=True)
                    c.file("plain/k8psh.conf", open(conf).read())
                    return c.proc(["k8psh", command], exe=env.bins["k8psh"], env={}, cwd=c.path("plain"), stdin="null")
                if how == "twice":
                    return c.proc(["k8psh", "-c", wrong, "--config=" + conf, command], exe=env.bins["k8psh"], env={"K8PSH_CONFIG": wrong}, cwd=c.root, stdin="null")
                mode, decoyed, _ = how.partition("+")
                return c.client(command, config=conf, mode=mode, env={"K8PSH_CONFIG": wrong} if decoyed else {}, cwd=None, stdin="null")
            running = []
            n = maximum if 0 <= maximum < 50 else 2
            for i in range(n):
                if not listening(port):
                    raise Violation("the server stopped after %d connections (%s)" % (i, what))
                p = start("kv-two" if i % 2 else "kv-own", case["clients"][i % len(case["clients"])])
                a = c.waitAgent(p)
                if i < n - 1 or not case["run"]:
                    a.exit(i + 3)
                    c.finish(p)
                    if p.rc != i + 3:
                        raise Violation("a client exited with %s instead of %d" % (p.rc, i + 3))
                else:
                    running.append((p, a))
            if n == maximum:
                labels.append("limit")
            else:
                if background:
                    os.kill(pid, signal.SIGTERM)
                else:
                    server.kill(signal.SIGTERM)
            c.wait(lambda: not listening(port), "the server stops accepting (%s)" % what)
            if running:
                labels.append("running")
                p, a = running[0]
                if "w" in flags:
                    c.wait(ended, "the server does not wait with no-wait (%s)" % what)
                else:
                    c.idle(0.05)
                    if ended():
                        raise Violation("the server did not wait for its connection (%s)" % what)
                a.exit(99)
                c.finish(p)
                if p.rc != 99:
                    raise Violation("a client exited with %s instead of 99" % p.rc)
            c.wait(ended, "the server exits (%s)" % what)
        if not background and server.rc != 0:
            raise Violation("the server exited with %s (%s): %r" % (server.rc, what, bytes(server.err[-300:])))
        c.waitQuiet(lambda: not (pidFile and os.path.exists(pidFile)), 2 if background else 0)
        if pidFile and os.path.exists(pidFile):
            raise Violation("the PID file is still there after the server ended (%s)" % what)
        checkDirs(links if "k" in flags else set(), "after the server ended")
    return labels


def nontrivial(case, labels):
    return "both" in labels or "invalid" in labels
