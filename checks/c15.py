"""C15: malformed configurations are rejected, and no input can crash the parser."""
import os, shutil, subprocess, time

from hypothesis import strategies as st

from lib import confgen as cg, h, model, probe
from lib.engine import Hang, Violation

ID = "C15"
LEVEL = "exploration"
ARTIFACTS = ["probe", "fuzz_config", "k8psh", "agent"]
EXAMPLES = {"quick": 700, "thorough": 20000}
WORKERS = 16
TECHNIQUE = "coverage-guided fuzzing (libFuzzer, ASan/UBSan) with a metamorphic oracle, plus grammar-based property-based testing (Hypothesis) with an independent parser deciding what must be rejected; shrinking / crash minimization"
RULE = ("a case is a generated configuration file with up to 3 random edits (deletions, insertions of special characters, of malformed tokens and lines, truncations, copies), or arbitrary bytes, or a libFuzzer campaign "
        "seeded with such files; what the independent parser calls malformed must be rejected, and for every input blank and comment lines around it must not change the outcome; "
        "non-trivial if the input is malformed or its meaning is left open (and it is not empty)")
NOTE = "Randomized exploration; a crash, hang or sanitizer report of the real parser is a violation for any input. Which inputs are malformed is decided by an independent parser written from the documentation."
ASSUMPTIONS = ["the sanitizers of gcc and clang notice reads outside the input"]

DICT = [t for t in cg.TOKENS + cg.REFS + ["baseDirectory=", "connectTimeoutMs=", "[a:80] -k\n", "\nc A=1 ?B= =C= exe\n", "--name"] if "\0" not in t]


@st.composite
def strategy_(draw):
    k = draw(st.integers(0, 9))
    if k == 0:
        t = draw(st.text(st.one_of(cg.lively, st.characters(min_codepoint=0, max_codepoint=255)), max_size=60))
    elif k == 1:
        t = "".join(draw(st.lists(st.sampled_from(cg.TOKENS + cg.REFS + ["[a]", "x", "baseDirectory", "connectTimeoutMs=1\n", "cmd A=B"]), max_size=14)))
    elif k == 2:
        t = draw(cg.badEscape())
    else:
        t = draw(cg.mutated())
    return {"text": t, "append": draw(st.lists(st.sampled_from(["\n", "\r\n", " \n", "# x\n", "#[\n", "\t# ${A\n"]), min_size=1, max_size=4)), "before": draw(st.booleans()), "e2e": draw(st.integers(0, 59)) == 29}


def strategy(env):
    return strategy_()


def directed(env):
    seconds = 18 if env.tier == "quick" else 600
    return [{"fuzz": env.seed * 100 + i, "seconds": seconds} for i in range(env.workers // 2)]


SEEDS = ["baseDirectory = ${WORKSPACE:-.} # c\nconnectTimeoutMs = -1\n[ gcc:2102 ] =PATH= --disable-client-executables\ngcc\ng++ 'a''b' \"\\x41\\n\"\"\"\n\n[ java ]\njava ?L= =L='${L}':. /lib/ld.so /usr/bin/java # J\n",
         "[x:65535]\ny\n", "[a]\r\nb 'c\r\nd' e\r\n", "connectTimeoutMs='1'\n['a b']\nc \"${A:-\\\"x\\\"}\" ${A}${E}\n", "#\n\n[a]x=1 -t 5\nc\nc d\n[a:1]\nc e\n"]


def fuzzBinary(env, args, cwd, timeout):
    e = {"PATH": "/usr/bin:/bin", "ASAN_OPTIONS": "detect_leaks=0:symbolize=0", "UBSAN_OPTIONS": "print_stacktrace=0"}
    p = subprocess.Popen([env.bins["fuzz_config"]] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    try:
        err = p.communicate(timeout=timeout)[1]
    except subprocess.TimeoutExpired:
        p.kill()
        err = p.communicate()[1] + b"\n(stopped)"
    return p.returncode, err.decode("latin-1")


def campaign(c, env):
    d = os.path.join(env.scratch, "fuzz")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/corpus")
    try:
        for i, s in enumerate(SEEDS):
            open(d + "/corpus/s%d" % i, "wb").write(h.b(s))
        with open(d + "/dict", "w") as f:
            for t in DICT:
                f.write('"' + "".join("\\x%02x" % b for b in h.b(t)) + '"\n')
        args = ["-seed=%d" % c["fuzz"], "-max_total_time=%d" % c["seconds"], "-max_len=%d" % (200 if c["fuzz"] % 3 else 1500), "-timeout=10", "-rss_limit_mb=2500", "-close_fd_mask=3", "-dict=dict", "-artifact_prefix=" + d + "/", "corpus"]
        rc, err = fuzzBinary(env, args, d, c["seconds"] + 60)
        runs = [int(w) for l in err.splitlines() if l.startswith("Done ") for w in l.split()[1:2]]
        found = [f for f in os.listdir(d) if f.startswith(("crash-", "timeout-", "oom-", "slow-unit-")) and not f.startswith("slow")]
        if found:
            path = d + "/" + found[0]
            if found[0].startswith("crash-"):
                fuzzBinary(env, ["-minimize_crash=1", "-max_total_time=10", "-exact_artifact_path=" + d + "/min", "-close_fd_mask=3", path], d, 40)
                if os.path.exists(d + "/min") and fuzzBinary(env, ["-close_fd_mask=3", d + "/min"], d, 30)[0] != 0:
                    path = d + "/min"
            data = open(path, "rb").read()
            v = Violation("the fuzzer found a failing input: %s" % err[-300:])
            v.case = {"text": h.u(data), "append": ["\n", "# x\n"], "before": True, "e2e": False, "viaFuzzer": True}
            raise v
        if not runs:
            raise RuntimeError("the fuzzer did not finish: %s %s" % (rc, err[-500:]))
        env.cache["runs"] = env.cache.get("runs", 0) + runs[0]
        return ["fuzz campaign", "fuzzer executions: at least %d" % (10 ** (len(str(runs[0])) - 1))]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(c, env):
    if "fuzz" in c:
        return campaign(c, env)
    text = c["text"]
    p = probe.of(env)
    p.setEnvironment(cg.ENVIRONMENT)
    labels = []
    if c.get("viaFuzzer"):
        path = os.path.join(env.scratch, "input")
        open(path, "wb").write(h.b(text))
        rc, err = fuzzBinary(env, ["-timeout=10", "-close_fd_mask=3", path], env.scratch, 30)
        if rc != 0:
            raise Violation("parsing %r: %s" % (text, err[-1500:]))
    try:
        m = model.parseConfiguration(text, cg.ENVIRONMENT, "/work", lambda v: model.normalize("/work/" + v))
        labels.append("well-formed")
    except model.Unspecified as e:
        m = False
        labels.append("open: %s" % e)
    except model.Reject as e:
        m = None
        labels.append("malformed: %s" % e)
    hosts = cg.NAMES
    got = p.load(text, "/work", hosts)
    if m is None and got is not None:
        raise Violation("a malformed configuration (%s) was accepted: %r" % (labels[-1], text))
    suffix = "".join(c["append"])
    again = p.load(text + "\n" + suffix, "/work", hosts)
    if again != got:
        raise Violation("appending %r to %r changed the outcome: %s" % ("\n" + suffix, text, what(got, again)))
    if c["before"]:
        suffix = suffix.replace("x", "'\"")
        again = p.load(suffix + text, "/work", hosts)
        if again != got:
            raise Violation("putting %r before %r changed the outcome: %s" % (suffix, text, what(got, again)))
    if c["e2e"] and m is None:
        labels += endToEnd(c, env)
    return labels


def what(a, b):
    if a is None or b is None:
        return "%s, then %s" % ("rejected" if a is None else "accepted", "rejected" if b is None else "accepted")
    return "%r, then %r" % (a, b)


def endToEnd(c, env):
    """Neither a client nor a server accepts the file."""
    probe.of(env).stop()
    with h.Case(env) as case:
        conf = case.file("conf", c["text"])
        os.mkdir(case.path("e"))
        s = case.server(conf, name="a", args=["-e", case.path("e"), "-t", "3000"], env=cg.ENVIRONMENT, ready=False)
        cl = case.client("c", [], config=conf, env=cg.ENVIRONMENT)
        for x, w in ((s, "server"), (cl, "client")):
            case.finish(x, "the %s rejects its configuration" % w)
            if x.rc == 0 or x.rc in (-11, -7, -4, -8):
                raise Violation("the %s ended with status %s for the malformed configuration %r" % (w, x.rc, c["text"]))
        if os.listdir(case.path("e")):
            raise Violation("client executables were created for the malformed configuration %r" % c["text"])
    return ["end to end"]


def nontrivial(c, labels):
    return "fuzz" in c or bool(c["text"]) and "well-formed" not in labels
