"""C14: settings, sections, ports and commands are read as written."""
import os

from hypothesis import strategies as st

from lib import confgen as cg, h, model, probe
from lib.engine import Violation

ID = "C14"
LEVEL = "exploration"
ARTIFACTS = ["probe", "k8psh", "agent"]
EXAMPLES = {"quick": 900, "thorough": 20000}
WORKERS = 16
TECHNIQUE = "differential property-based testing: generated configuration files loaded by the real parser (ASan/UBSan build) and by an independent reference parser, all views compared; shrinking"
RULE = ("a case is a generated configuration file (settings, sections with explicit and sequential ports, repeated section and command names, variables, options, quoting, references, comments, CR LF) plus up to 3 random edits, "
        "loaded with an absolute or relative working path; the whole result is compared with an independent parser written from the documentation wherever the documentation defines a meaning; "
        "non-trivial if the file is well-formed and has at least one command")
NOTE = "Randomized differential exploration against an independent Python parser; inputs whose meaning the documentation leaves open are skipped (and counted)."


@st.composite
def strategy_(draw):
    return {"text": draw(cg.mutated()) if draw(st.booleans()) else draw(cg.document()), "working": draw(st.sampled_from(["/work", "/", "/a/b", "", "rel", "rel/sub", ".", "/x/../y/./"])), "e2e": draw(st.integers(0, 99)) == 57}


def strategy(env):
    return strategy_()


def prepare(env):
    os.makedirs(os.path.join(env.scratch, "rel", "sub"))


def directed(env):
    # Many sections and commands, long strings
    many = "".join("[host%d] %s\nV%d=x ?S=y\n" % (i, "-k" if i % 3 else "", i) + "".join("cmd%d-%d A%d=b e%d arg%d\n" % (i, j, j, i, j) for j in range(12)) for i in range(300))
    one = "[x]\n" + "".join("c%d e%d\n" % (i, i) for i in range(5000)) + "".join("c%d again%d\n" % (i, i) for i in range(0, 5000, 7))
    wide = "[x]\n" + " ".join("V%d=value%d" % (i, i) for i in range(3000)) + "\nc " + " ".join("W%d='%d'" % (i, i) for i in range(3000)) + " exe " + " ".join("a%d" % i for i in range(5000)) + "\n"
    long = "baseDirectory=/" + "d/" * 5000 + "\n[" + "n" * 70000 + "]\n" + "V=" + "v" * 200000 + "\n" + "c" * 70000 + " '" + "q" * 200000 + "' \"" + "\\x41" * 50000 + "\" " + "#" + "c" * 100000 + "\n"
    ports = "".join("[p%d%s]\nc%d\n" % (i, ":%d" % (i * 7 + 5) if i % 5 == 0 else "", i) for i in range(600))
    return [{"text": t, "working": "/work", "e2e": False} for t in (many, one, wide, long, ports, "\n" * 100000 + "[x]\nc e\n" + "# x\n" * 30000 + "d\n")]


def run(c, env):
    p = probe.of(env)
    p.setEnvironment(cg.ENVIRONMENT)
    w = c["working"]
    working = model.normalize(w if w.startswith("/") else os.path.realpath(os.path.join(env.scratch, w)))
    try:
        m = model.parseConfiguration(c["text"], cg.ENVIRONMENT, working, lambda v: model.normalize(working + "/" + v))
    except model.Unspecified as e:
        return ["unspecified: %s" % e]
    except model.Reject as e:
        return ["malformed: %s" % e]
    hosts = sorted(set(cg.NAMES + [s["host"] for s in m["sections"]] + ["", "absent", "a:1120"]))
    got = p.load(c["text"], w, hosts)
    if got is None:
        raise Violation("a well-formed configuration was rejected: %r" % c["text"])
    for k in ("base", "timeout"):
        if got[k] != m[k]:
            raise Violation("%s was read as %r instead of %r from %r" % (k, got[k], m[k], c["text"]))
    if got["commands"] != m["commands"]:
        same(m["commands"], got["commands"], "client view", c["text"])
    for host in hosts:
        same(m["hosts"].get(host, {}), got["hosts"][host] or {}, "section %r" % host, c["text"])
    labels = ["well-formed"]
    if m["commands"]:
        labels.append("has commands")
    if len(m["sections"]) > 1:
        labels.append("several sections")
    if len({s["host"] for s in m["sections"]}) < len(m["sections"]):
        labels.append("repeated section")
    if sum(len(v) for v in m["hosts"].values()) > len(m["commands"]):
        labels.append("command redefined elsewhere")
    if c["e2e"] and m["commands"]:
        labels += endToEnd(c, env, m)
    return labels


def same(expected, got, what, text):
    if expected == got:
        return
    if set(expected) != set(got):
        raise Violation("%s has commands %r instead of %r from %r" % (what, sorted(got), sorted(expected), text))
    for n in expected:
        for k in expected[n]:
            if expected[n][k] != got[n][k]:
                raise Violation("%s, command %r: %s was read as %r instead of %r from %r" % (what, n, k, got[n][k], expected[n][k], text))


def endToEnd(c, env, m):
    """A server that has no section of its own creates exactly the executables of the commands."""
    names = [n for n in m["commands"] if n and "/" not in n and "\0" not in n and n not in (".", "..")]
    if len(names) != len(m["commands"]) or any(len(n) > 200 for n in names):
        return []
    probe.of(env).stop()
    with h.Case(env) as case:
        conf = case.file("conf", c["text"])
        os.mkdir(case.path("e"))
        s = case.server(conf, name="no such section", args=["-e", case.path("e")], env=cg.ENVIRONMENT, ready=False)
        case.finish(s, "a server without section exits")
        created = sorted(h.u(x) for x in os.listdir(os.fsencode(case.path("e"))))
        if s.rc != 0 or created != sorted(names):
            raise Violation("status %s, client executables %r instead of %r from %r" % (s.rc, created, sorted(names), c["text"]))
    return ["end to end"]


def nontrivial(c, labels):
    return "well-formed" in labels and "has commands" in labels
