"""C13: configuration strings mean what the documentation says."""
from hypothesis import strategies as st

from lib import confgen as cg, h, model, probe
from lib.engine import HarnessError, Violation

ID = "C13"
LEVEL = "exploration"
ARTIFACTS = ["probe", "k8psh", "agent"]
EXAMPLES = {"quick": 380, "thorough": 20000}
WORKERS = 16
TECHNIQUE = "property-based round trip (Hypothesis): generated values written in generated documented forms, loaded by the real parser under ASan/UBSan (and end to end), compared byte for byte; shrinking"
RULE = ("a case writes up to 8 generated byte strings in generated documented forms (concatenations of unquoted, double-quoted with chosen escapes, single-quoted pieces; raw line ends and control characters inside quotes; "
        "NUL through \\0 and \\x00) into every kind of position (setting, section name, option, section and command variable, command name, executable, argument) with generated blanks, comments, blank lines and CR LF; "
        "non-trivial if some value has at least two pieces, an escape or a character that unquoted text cannot hold")
NOTE = "Randomized exploration of the real parser (sanitized build) against values known by construction; no proof. References are left to C16."


@st.composite
def strategy_(draw, env):
    args = st.lists(cg.pieces(nul=True), max_size=4)
    c = {"args": draw(args), "envs": draw(st.lists(cg.pieces(nul=True), max_size=2)), "exe": draw(cg.pieces(stop="=")), "name": draw(cg.pieces(first="[")),
         "host": draw(cg.pieces(stop="]:")), "senvs": draw(st.lists(cg.pieces(nul=True), max_size=2)), "opts": draw(st.lists(cg.pieces(nul=True), max_size=2)),
         "dir": draw(cg.pieces()) if draw(st.booleans()) else None, "lead": draw(st.sampled_from(["/", "/", "/", "", "=", "==", "=/", "a=", "'='", "./"])), "key": draw(st.integers(0, 3)),
         "layout": [draw(cg.lineEnd()) for _ in range(4)], "sep": [draw(cg.blank) for _ in range(16)], "around": [draw(cg.optBlank) for _ in range(6)],
         "last": draw(st.booleans()), "port": draw(st.sampled_from([None, 80, 65535])), "e2e": draw(st.integers(0, 79)) == 37}
    return c


def strategy(env):
    return strategy_(env)


def noNul(s):
    return s.replace("\0", "")


def build(c):
    """(text, expectation)"""
    r, d = cg.render, cg.denoted
    seps = list(c["sep"]) * 3
    join = lambda parts: "".join(p + (seps.pop() if i < len(parts) - 1 else "") for i, p in enumerate(parts))
    a = c["around"]
    text = ""
    key = ["baseDirectory", "'baseDirectory'", '"base\\x44irectory"', "base'Direct'\"ory\""][c["key"]]
    base = "/work"
    if c["dir"] is not None:
        v = d(c["dir"])
        lead = c["lead"]
        plain = lead.replace("'", "")
        if lead == "" and (not v or "\0" in v or v.startswith("/")):
            lead = plain = "/"
        if lead == "'='" and c["dir"][0][0] == "s":
            lead = "="
        text += key + a[0] + "=" + a[1] + lead + r(c["dir"]) + c["layout"][0]
        base = model.normalize(("" if plain.startswith("/") else "/work/") + plain + v)
    host, name, exe = d(c["host"]), d(c["name"]), d(c["exe"])
    if not host.strip() or not host or ":" in host:
        host, ht = "h", "h"
    else:
        ht = r(c["host"])
    if not name:
        name, nt = "n", "n"
    else:
        nt = r(c["name"])
    if "=" in exe[1:] or exe.startswith("=") or not exe:
        exe, et = "e", "e"
    else:
        et = r(c["exe"])
    port = c["port"]
    opts = ["--x"] + [d(o) for o in c["opts"]]
    text += "[" + a[2] + ht + (":%d" % port if port else "") + a[3] + "]" + a[4] + join(["S%d=" % i + r(v) for i, v in enumerate(c["senvs"])] + ["--x"] + [r(o) for o in c["opts"]]) + c["layout"][1]
    text += a[5] + join([nt] + ["V%d=" % i + r(v) for i, v in enumerate(c["envs"])] + [et] + [r(v) for v in c["args"]])
    if not c["last"]:
        text += c["layout"][2] + "zz-other 'x'" + c["layout"][3]
    cmd = {"name": name, "host": host, "port": port or 1120, "options": opts, "exe": [exe] + [d(v) for v in c["args"]],
           "env": [["S%d" % i, d(v)] for i, v in enumerate(c["senvs"])] + [["V%d" % i, d(v)] for i, v in enumerate(c["envs"])]}
    return text, base, host, cmd


def compare(c, env, text, base, host, cmd):
    p = probe.of(env)
    p.setEnvironment({"A": "wrong"})
    got = p.load(text, "/work", [host])
    if got is None:
        raise Violation("a well-formed configuration was rejected: %r" % text)
    if "\0" not in base and got["base"] != base:
        raise Violation("base directory %r was read as %r from %r" % (base, got["base"], text))
    names = {cmd["name"]} | (set() if c["last"] else {"zz-other"})
    for view, commands in (("client", got["commands"]), ("section", got["hosts"][host] or {})):
        if set(commands) != names:
            raise Violation("%s view: commands %r instead of %r from %r" % (view, sorted(commands), sorted(names), text))
        for k, v in cmd.items():
            if commands[cmd["name"]][k] != v:
                raise Violation("%s view: %s %r was read as %r from %r" % (view, k, v, commands[cmd["name"]][k], text))


def endToEnd(c, env, text, base, host, cmd):
    """The same strings seen by a remote command."""
    probe.of(env).stop()
    with h.Case(env) as case:
        port = env.port()
        r = cg.render
        strip = lambda ps: [[k, noNul(t) if k != "d" else [x for x in t if x[0] != "\0"]] for k, t in ps]
        args, envs = [strip(v) for v in c["args"]], [strip(v) for v in c["envs"]]
        line = "e2e" + "".join(c["sep"][0] + "V%d=" % i + "raw" + r(v) for i, v in enumerate(envs)) + c["sep"][1] + h.sq(case.agent) + "".join(c["sep"][2] + r(v) for v in args) + c["layout"][0]
        conf = case.file("conf", "connectTimeoutMs = 8000" + c["layout"][1] + "[srv:%d]" % port + c["layout"][2] + line)
        case.server(conf, port=port, args=["-d"])
        cl = case.client("e2e", [], config=conf)
        a = case.waitAgent(cl)
        expected = [h.b(cg.denoted(v)) for v in args]
        if a.argv[1:] != expected:
            raise Violation("arguments %r arrived as %r from %r" % (expected, a.argv[1:], line))
        for i, v in enumerate(envs):
            value = "raw" + model.expand(cg.denoted(v), {}, {})
            if b"V%d=" % i + h.b(value) not in a.environ and "${" not in cg.denoted(v):
                raise Violation("variable value %r arrived as %r from %r" % (value, a.environ, line))
        a.exit(0)
        case.finish(cl)
    return ["end to end"]


def run(c, env):
    text, base, host, cmd = build(c)
    labels = []
    compare(c, env, text, base, host, cmd)
    # The independent parser used by C14 and C15 must agree with the construction
    try:
        m = model.parseConfiguration(text, {"A": "wrong"}, "/work", lambda v: model.normalize("/work/" + v))
        if m["commands"].get(cmd["name"]) is None or any(m["commands"][cmd["name"]][k] != v for k, v in cmd.items()) or m["base"] != base and "\0" not in base:
            raise HarnessError("the model read %r as %r instead of %r" % (text, m, cmd))
    except model.Unspecified as e:
        labels.append("model: unspecified")
    except model.Reject as e:
        raise HarnessError("the model rejects %r: %s" % (text, e))
    if "\r\n" in text:
        labels.append("CR LF")
    if "#" in text:
        labels.append("number sign")
    if c["e2e"]:
        labels += endToEnd(c, env, text, base, host, cmd)
    return labels


def nontrivial(c, labels):
    for ps in c["args"] + c["envs"] + c["senvs"] + c["opts"] + [c["exe"], c["name"], c["host"]]:
        if len(ps) > 1 or ps[0][0] == "d" and any(k or x in "\"\\" for x, k in ps[0][1]) or ps[0][0] == "s" and set(ps[0][1]) & set(cg.WHITE + "'\"#"):
            return True
    return False
