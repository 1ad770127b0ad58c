"""C27: debug output appears exactly for the selected modules."""
import datetime, os, pty, re, time, tty

from hypothesis import strategies as st

from lib import h, model, probe
from lib.engine import Violation

ID = "C27"
LEVEL = "exploration"
ARTIFACTS = ["probe", "k8psh", "agent"]
EXAMPLES = {"quick": 3000, "thorough": 30000}
WORKERS = 16
TECHNIQUE = "model-based property testing: generated K8PSH_DEBUG values and file names against a reference model; 1 case in 25 runs the real client and server and compares the modules that appear in their output with the selection; shrinking"
RULE = ("a case is a value of K8PSH_DEBUG (entries in any letter case, near misses, both separators, blanks, empty entries, nested and overlapping names) and a source file name; "
        "non-trivial if the value has at least two entries or a near miss of the module")
NOTE = "Randomized exploration; which modules print during the reference run (everything selected) is observed, not assumed."

MODULES = ["Main", "Configuration", "Process", "Socket", "Utilities"]
module = st.sampled_from(MODULES + ["Main", "Process"])
recased = st.tuples(module, st.integers(0, 3), st.integers(0, 1 << 12)).map(lambda t: [t[0], t[0].lower(), t[0].upper(), "".join(c.upper() if t[2] >> i & 1 else c.lower() for i, c in enumerate(t[0]))][t[1]])
near = st.tuples(recased, st.sampled_from(["x", "s", " x", ".cxx", "Main", "-", "_", "\x01", "1"]), st.booleans()).map(lambda t: t[0] + t[1] if t[2] else t[1] + t[0])
entry = st.one_of(recased, recased, near, st.sampled_from(["all", "ALL", "All", "aLL", "al", "alll", "aall", "ball", "allMain", "all Main", "none", "", "*", "true", "1", "Main Process", "MainMain", "Process.cxx", "/src/Main", "all\x01"]), recased.map(lambda s: s[:-1]), recased.map(lambda s: s[1:]))
pad = st.sampled_from(["", "", "", " ", "\t", "  ", "\n", " \t", "\r\n", "\v\f"])


@st.composite
def strategy_(draw):
    if draw(st.integers(0, 19)) == 0:
        value = draw(st.sampled_from([None, "", ",", ";", " ", ",;, ;"]))
    else:
        n = draw(st.sampled_from([1, 1, 2, 2, 3, 4, 6]))
        value = ""
        for i in range(n):
            value += (draw(st.sampled_from([",", ";", ",", ";", ",,", ",;"])) if i else draw(st.sampled_from(["", "", ",", ";"]))) + draw(pad) + draw(entry) + draw(pad)
        value += draw(st.sampled_from(["", "", "", ",", ";", " "]))
    e2e = draw(st.integers(0, 24)) == 12
    name = draw(st.one_of(module, recased, near.map(lambda s: s.replace("/", "").strip()), st.sampled_from(["all", "k8psh", "a", "x y"])))
    file = draw(st.sampled_from(["", "/src/", "src/", "/a/b.c/", "./", "/Main.cxx/"])) + name + draw(st.sampled_from([".cxx", ".cxx", ".hxx", "", ".test.cxx", "."]))
    return {"value": value, "file": file, "e2e": e2e, "second": draw(st.booleans())}


def strategy(env):
    return strategy_()


def moduleOf(file):
    return file.rsplit("/", 1)[1].split(".")[0] if "/" in file else file.split(".")[0]


def directed(env):
    many = ",".join("Module%d" % i for i in range(5000))
    return [{"value": v, "file": "/src/Main.cxx", "e2e": False, "second": False} for v in (many + ",Main", many + ";  ALL", many, "M" * 90000 + ",main", " " * 90000 + "Process" + "\t" * 9000 + ",,x", "," * 90000 + "Socket", "Main" * 20000)]


def run(c, env):
    value = c["value"]
    p = probe.of(env)
    p.setEnvironment({} if value is None else {"K8PSH_DEBUG": value})
    got = p.must("d", c["file"]) == "1"
    m = moduleOf(c["file"])
    if m == "":
        expected = model.selected(value, "all")
    else:
        expected = model.selected(value, m)
    if got != expected:
        raise Violation("K8PSH_DEBUG=%r: debug output of module %r (%r) is %s" % (value, m, c["file"], "on" if got else "off"))
    labels = ["on" if got else "off"]
    for other in MODULES:
        if (p.must("d", "/x/src/" + other + ".cxx") == "1") != model.selected(value, other):
            raise Violation("K8PSH_DEBUG=%r: debug output of module %r is %s" % (value, other, "off" if model.selected(value, other) else "on"))
    if c["e2e"]:
        p.stop()
        if "baseline" not in env.cache:
            env.cache["baseline"] = scenario(env, "all", "all")
        base = env.cache["baseline"]
        if not base[0] or not base[1]:
            raise Violation("no debug output at all with K8PSH_DEBUG=all (server %r, client %r)" % base)
        quiet = "" if c["second"] else None
        for sv, cv in ((value, quiet), (quiet, value)):
            got = scenario(env, sv, cv, (None, "UTC", "XXX-5:30", "YYY+8")[len(value or "") % 4])
            for who, v, b, g in (("server", sv, base[0], got[0]), ("client", cv, base[1], got[1])):
                expected = {x for x in b if model.selected(v, x)}
                if g != expected:
                    raise Violation("K8PSH_DEBUG=%r: the %s printed debug output of %r instead of %r" % (v, who, sorted(g), sorted(expected)))
        # Nothing is lost (or repeated) when a client fails, whatever its standard output is
        if alone(env, value, "pipe", c["second"]) != alone(env, value, "tty", c["second"]):
            raise Violation("K8PSH_DEBUG=%r: the messages of a failing client depend on what its standard output is: %r" % (value, [alone(env, value, k, c["second"])[:3] for k in ("pipe", "tty")]))
        labels.append("end to end")
    return labels


DEBUG = re.compile(rb"DEBUG[^()\n]*\((\w+)\)")


HEAD = re.compile(rb"\[(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{6}), DEBUG, (\d+)\] \(")


def timed(text, begin, end):
    """Every message says when it was written (UTC), and those of one process are in order."""
    heads = HEAD.findall(text)
    if len(heads) != len(DEBUG.findall(text)):
        raise Violation("%d of %d debug messages start with their time: %r" % (len(heads), len(DEBUG.findall(text)), text[:300]))
    last = {}
    for stamp, id in heads:
        at = datetime.datetime.strptime(stamp.decode(), "%Y-%m-%d %H:%M:%S.%f").replace(tzinfo=datetime.timezone.utc).timestamp()
        if not begin - 0.01 <= at <= end + 0.01:
            raise Violation("a message that was written between %s and %s UTC says %r" % (datetime.datetime.fromtimestamp(begin, datetime.timezone.utc), datetime.datetime.fromtimestamp(end, datetime.timezone.utc), stamp))
        if at < last.get(id, 0):
            raise Violation("the times of the messages of one process are not in order: %r" % stamp)
        last[id] = at


def alone(env, value, out, unknown):
    """The messages of a client that fails before it connects."""
    with h.Case(env) as case:
        conf = case.file("conf", h.wholeConfig(env.port(), ["c x"], timeout=0))
        end, fd, text = None, None, bytearray()
        if out == "tty":
            end, fd = pty.openpty()
            tty.setraw(fd)
            case.closers += [lambda: os.close(end), lambda: os.close(fd)]
            os.set_blocking(end, False)

            def take(mask):
                try:
                    text.extend(os.read(end, 65536))
                except OSError:
                    pass
            case.register(end, 1, take)
        p = case.client("unknown" if unknown else "c", ["x"], config=conf, env={} if value is None else {"K8PSH_DEBUG": h.b(value)}, stdin="null", stdout="pipe" if out == "pipe" else ("fd", fd), stderr="null")
        case.finish(p)
        if out == "tty":  # (what is written to a terminal arrives later, but in order)
            os.write(fd, b"END")
            case.wait(lambda: text.endswith(b"END"), "a terminal passes on what was written to it")
        got = bytes(p.out) if out == "pipe" else bytes(text[:-3])
        heads = len(DEBUG.findall(got))
        return [re.sub(rb"^\[[^\]]*\]|\d+", b"", line) for line in got.splitlines()] + [heads]


def scenario(env, serverValue, clientValue, zone=None):
    """(modules printing in the server, in the client) of one run."""
    begin = time.time()
    with h.Case(env) as case:
        port = env.port()
        conf = case.file("conf", h.wholeConfig(port, ["c " + h.sq(case.agent)]))
        dbg = lambda v: dict({} if v is None else {"K8PSH_DEBUG": h.b(v)}, **{} if zone is None else {"TZ": zone})
        s = case.server(conf, port=port, args=["-d", "-m", "1"], env=dbg(serverValue), stdout="pipe", stderr="pipe")
        cl = case.client("c", ["x"], config=conf, env=dbg(clientValue), stdin="null")
        a = case.waitAgent(cl)
        quiet = not any(model.selected(clientValue, m) or model.selected(serverValue, m) for m in MODULES)
        case.op(a.write(2, b"to stderr\n"))
        if quiet:
            case.op(a.write(1, b"to stdout\n"))
        a.exit(5)
        case.finish(cl)
        case.wait(lambda: s.rc is not None and s.outEof and s.errEof, "the server exits after its only connection")
        if cl.rc != 5:
            raise Violation("status %s" % cl.rc)
        if time.time() >= begin:  # (the clock was not set meanwhile)
            timed(bytes(s.out), begin, time.time())
            timed(bytes(cl.out), begin, time.time())
        if bytes(cl.err) != b"to stderr\n":
            raise Violation("the client's standard error is %r" % bytes(cl.err))
        if DEBUG.search(bytes(s.err)):
            raise Violation("debug output on the server's standard error: %r" % bytes(s.err))
        if quiet and bytes(cl.out) != b"to stdout\n":
            raise Violation("the client's standard output is %r" % bytes(cl.out))
        if quiet and b"DEBUG" in bytes(s.out):
            raise Violation("the server printed %r" % bytes(s.out))
        return {m.decode() for m in DEBUG.findall(bytes(s.out))}, {m.decode() for m in DEBUG.findall(bytes(cl.out))}


def nontrivial(c, labels):
    v = c["value"] or ""
    return len(re.findall("[,;]", v)) > 0 or bool(v) and "off" in labels
