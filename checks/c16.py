"""C16: environment references expand exactly once and only where they should."""
from hypothesis import strategies as st

from lib import confgen as cg, h, model, probe
from lib.engine import Violation

ID = "C16"
LEVEL = "exploration"
ARTIFACTS = ["probe", "k8psh", "agent"]
EXAMPLES = {"quick": 4000, "thorough": 30000}
WORKERS = 16
TECHNIQUE = "model-based property testing: generated texts, overrides and environments, compared with a one-expression reference model and with metamorphic relations; load-time expansion in generated quoted forms; shrinking"
RULE = ("a case is a text assembled from literals, complete, incomplete, nested and malformed references and arbitrary characters, with overrides (set, empty, absent) and a process environment whose values themselves look like references; "
        "checked against the model, for concatenation, and at load time in unquoted, double-quoted and single-quoted form; 1 in 80 also end to end; non-trivial if the text has at least one complete reference and something else")
NOTE = "Randomized exploration against a reference model (a regular expression for complete references, substituted in one pass)."

NAMECHARS = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_"
names = st.one_of(st.sampled_from(["A", "B", "C", "LONG_NAME_1", "a", "_", "1", "E", "N", "A.B", "A-B", "ProgramFiles(x86)", "A B", "", "PATH", "x" * 30]), st.text("ABCabc_019", min_size=1, max_size=6), st.text(NAMECHARS, min_size=1, max_size=12))
plain = st.one_of(st.text(st.one_of(cg.anyChar, cg.lively), max_size=8), st.sampled_from(["$", "{", "}", "${", "$$", "$${", ":-", "}}", "{}", "$A", "$(A)", "\\", "x", "x" * 60, ":", "-", "$ {A}", "${A", "${A:", "${A:-", "${A:-x", "${A:x}", "${A$", "${A\x80}", "${A/B}", "${A=}"]))
values = st.one_of(st.sampled_from(["", "v", "${A}", "${B}", "$", "{A}", "${", "}", "x" * 200, "${N:-w}", "a b", "'", '"', "\\", "\xff"]), st.text(cg.anyChar, max_size=6))
defaults = st.one_of(st.sampled_from(["", "d", "${A", "$A", "{", ":-", "-", "a:-b", "two words", "'", '"', "\\", "$", "${", "\n", "=", "#"]), st.text(cg.anyChar.filter(lambda c: c != "}"), max_size=6))
ref = st.one_of(names.map(lambda n: "${" + n + "}"), st.tuples(names, defaults).map(lambda t: "${%s:-%s}" % t), st.tuples(names, defaults).map(lambda t: "${%s:-%s}" % t),
                st.tuples(names, names).map(lambda t: "${%s:-${%s}}" % t), names.map(lambda n: "${${" + n + "}}"), st.tuples(names, st.sampled_from(["}", ":}", ":-", "-}", " }", "", "${A}", ":=x}", ":+x}"])).map(lambda t: "${%s%s" % t))
texts = st.lists(st.one_of(ref, ref, plain), max_size=6)
maps = st.dictionaries(names.filter(bool), st.one_of(st.none(), values), max_size=4)


def strategy(env):
    return st.fixed_dictionaries({"parts": texts, "cut": st.integers(0, 6), "overrides": maps, "environment": maps, "load": st.sampled_from(["", "u", "d", "s", "mix"]), "e2e": st.integers(0, 79).map(lambda n: n == 37),
                                  "nul": st.integers(0, 19).map(lambda n: n == 7)})


def substitute(p, text, overrides):
    return p.must("s", text, *[x for n, v in sorted(overrides.items()) for x in (n, "0" if v is None else "1", v or "")])


def directed(env):
    # Long texts, names, values and defaults, and many references
    base = {"cut": 1, "environment": {"B": "w" * 90000, "C": "${A}"}, "overrides": {"A": "v", "N" * 70000: "x", "L": "${L}" * 5000}, "e2e": False, "nul": False}
    parts = [["${A}"] * 20000, ["x" * 100000, "${B}", "y" * 65536, "${C}"], ["${" + "N" * 70000 + "}", "${" + "N" * 69999 + "}."], ["${M"] * 20000 + ["}"], ["${M:-" + "d" * 300000 + "}", "${A:-" + "e" * 300000 + "}"], ["${L}", "$" * 50000, "{" * 50000, "}" * 50000]]
    return [dict(base, parts=p, load=l) for p in parts for l in ("d", "u")]


def run(c, env):
    p = probe.of(env)
    environment = {n: v for n, v in c["environment"].items() if v is not None and "=" not in n}
    p.setEnvironment(environment)
    text = "".join(c["parts"])
    if c["nul"]:
        text = text[:len(text) // 2] + "\0" + text[len(text) // 2:]
    expected = model.expand(text, c["overrides"], environment)
    got = substitute(p, text, c["overrides"])
    if got != expected:
        raise Violation("%r expanded to %r instead of %r (overrides %r, environment %r)" % (text, got, expected, c["overrides"], environment))
    labels = []
    refs = model.references(text)
    if refs:
        labels.append("complete references")
        if expected != model.expand(expected, c["overrides"], environment):
            labels.append("result looks like a reference")
    if "${" in model.REF.sub("", text):
        labels.append("incomplete references")
    # Text without any reference never changes, whatever the variables are
    rest = model.REF.sub("", text)
    if not model.references(rest) and substitute(p, rest, c["overrides"]) != rest:
        raise Violation("%r has no complete reference but became %r" % (rest, substitute(p, rest, c["overrides"])))
    if c["load"] and not c["nul"]:
        labels += load(c, p, environment)
    if c["e2e"]:
        labels += endToEnd(c, env, environment)
    return labels


def load(c, p, environment):
    """The same parts in a configuration: unquoted and double-quoted text is expanded (from the process environment), single-quoted text is not."""
    text = expected = ""
    previous = ""
    for i, part in enumerate(c["parts"]):
        form = c["load"] if c["load"] != "mix" else "uds"[(i + c["cut"]) % 3]
        if form == "u" and set(part) & set(cg.WHITE + "'\"#") or not part:
            form = "d"
        if form == "s":
            if previous == "s":
                text += "x"
                expected += "x"
            text += h.sq(part)
            expected += part
        else:
            # Do not let a reference be made of several pieces
            if form == "d" and previous == "d" or previous in ("u", "d"):
                text += "''"
            quoted = part if form == "u" else '"' + part.replace("\\", "\\\\").replace('"', '\\"') + '"'
            text += quoted
            expected += model.expand(part, {}, environment)
        previous = form
    if previous == "":
        return []
    conf = "[h] OPT=%s --o%s\nc V=%s e a%s '' last\n" % (text, text, text, text)
    got = p.load(conf, "/w", ["h"])
    if got is None:
        raise Violation("rejected: %r" % conf)
    cmd = got["commands"].get("c")
    if cmd is None:
        raise Violation("no command in %r" % conf)
    actual = [cmd["env"], cmd["options"], cmd["exe"]]
    wanted = [[["OPT", expected], ["V", expected]], ["--o" + expected], ["e", "a" + expected, "", "last"]]
    if actual != wanted:
        raise Violation("%r was read as %r instead of %r (environment %r)" % (conf, actual, wanted, environment))
    return ["load time"]


def endToEnd(c, env, environment):
    """Values in single quotes are expanded once more when the command starts (see C05); others never again."""
    probe.of(env).stop()
    with h.Case(env) as case:
        port = env.port()
        environment = {n: v for n, v in environment.items() if n and "\0" not in n}
        text = "".join(c["parts"]).replace("\0", "")
        q = '"' + text.replace("\\", "\\\\").replace('"', '\\"') + '"'
        conf = case.file("conf", "connectTimeoutMs = 8000\n[srv:%d]\nc 'agent' s%s %s\n".replace("'agent'", h.sq(case.agent)) % (port, h.sq(text), "d" + q))
        case.server(conf, port=port, args=["-d"], env={h.b(n): h.b(v) for n, v in environment.items()})
        cl = case.client("c", ["${A}", h.b(text)], config=conf)
        a = case.waitAgent(cl)
        expected = ["s" + text, "d" + model.expand(text, {}, environment), "${A}", text]
        if a.argv[1:] != [h.b(x) for x in expected]:
            raise Violation("arguments arrived as %r instead of %r" % (a.argv[1:], expected))
        a.exit(0)
        case.finish(cl)
    return ["end to end"]


def nontrivial(c, labels):
    return "complete references" in labels and (len(c["parts"]) > 1)
