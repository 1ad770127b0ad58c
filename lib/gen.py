"""Hypothesis strategies shared by the checks. All produce JSON-able values; byte strings are str of one character per byte."""
from hypothesis import strategies as st

from .h import KINDS


def interesting(env, limit):
    """Sizes at which buffers, headers and counters may have edges: fixed ones plus integers found in the sources."""
    out = set()
    for v in list(env.ints) + [5, 255, 256, 1024, 2048, 4096, 8187, 8192, 16384, 32768, 65530, 65535, 65536, 131072, 262144, 1 << 20]:
        for d in (-6, -5, -4, -1, 0, 1, 4, 5, 6):
            if 0 < v + d <= limit:
                out.add(v + d)
        for m in (2, 3):
            if 0 < v * m <= limit:
                out.add(v * m)
    return sorted(out)


def sizes(env, limit=300000, least=0):
    edges = [v for v in interesting(env, limit) if v >= least] or [least]
    small = st.integers(least, min(limit, least + 40))
    mags = [m for m in (100, 1000, 10000, 100000, 1000000, 10000000) if m <= limit] or [limit]
    return st.one_of(small, st.sampled_from(edges), st.sampled_from(mags).flatmap(lambda m: st.integers(least, max(least, m))), st.integers(least, limit))


def data(env, limit=300000, least=0):
    """[kind, size, seed]"""
    return st.tuples(st.sampled_from(KINDS), sizes(env, limit, least), st.integers(0, 9)).map(list)


exitCodes = st.one_of(st.sampled_from([0, 1, 2, 126, 127, 128, 129, 137, 143, 254, 255]), st.integers(0, 255))


def shimPlan(env, prob=3):
    """A plan for the system call shim, or None."""
    caps = st.lists(st.one_of(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 9, 16, 100, 1000, 4096, 8191, 8192, 8193, 65535, 65536, 65541]), st.integers(1, 40), st.just(0)), min_size=1, max_size=8)
    # A single tiny cap makes large transfers needlessly slow
    caps = caps.map(lambda l: l if max(l) >= 100 or 0 in l else l + [0])
    flags = st.lists(st.sampled_from([0, 0, 0, 1]), min_size=1, max_size=8).map(lambda l: l + [0])
    acc = st.lists(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7]), min_size=1, max_size=4).map(lambda l: l + [0])
    delays = st.lists(st.sampled_from([0, 0, 0, 100, 2000]), min_size=1, max_size=6)
    plan = st.fixed_dictionaries({}, optional={"recv": caps, "send": caps, "read": caps, "write": caps, "ipoll": flags, "iaccept": acc, "iconnect": flags, "dsend": delays, "drecv": delays})
    text = plan.map(lambda d: " ".join("%s:%s" % (k, ",".join(map(str, v))) for k, v in d.items()))
    return st.one_of(*([st.none()] * (prob - 1)), text)


def rawBytes(min_size=0, max_size=40, nul=False):
    return st.text(st.characters(min_codepoint=0 if nul else 1, max_codepoint=255), min_size=min_size, max_size=max_size)


def argText(env):
    """Arguments: any bytes but NUL; option-like, shell-like and source-derived text included."""
    special = ["", " ", "-", "--", "-c", "--config", "--config=x", "-s", "--server", "-h", "--help", "-v", "--version", "--install", "-i", "=", "a=b", "'", '"', "\\", "${X}", "$(x)", "`x`",
               "*", "?", "\n", "\r\n", "\t", "#", "[x]", "%s%n", "\xff", "\xc3\xa9", "..", "/", "./x", ";", "&", "|", "k8psh", "k8pshd"] + [s for s in env.strs]
    long = st.tuples(st.sampled_from("ax-\xe9'\" "), sizes(env, 100000)).map(lambda t: t[0] * t[1])
    return st.one_of(st.sampled_from(special), rawBytes(), st.text("abcXYZ019 -=_./", max_size=12), long)


odd = "kv-"  # prefix of generated command names: nothing real is called like this


def commandName():
    chars = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_.+-"
    plain = st.text(chars, min_size=1, max_size=12).map(lambda s: odd + s)
    # Names that nearly are the program's own (which a client treats specially)
    near = st.one_of(st.tuples(st.sampled_from(["k8psh", "k8pshd"]), st.text(chars, min_size=1, max_size=4)).map("".join), st.tuples(st.text(chars.replace("-", ""), min_size=1, max_size=4), st.sampled_from(["k8psh", "k8pshd"])).map("".join),
                     st.sampled_from(["K8psh", "k8pshD", "K8PSH", "k8ps", "k8pshdd", "8psh", "k8psh.exe", "k8psh-", "k8pshd-s", "k8psh-c"]))
    return st.one_of(plain, plain, plain, plain, near.filter(lambda s: s not in ("k8psh", "k8pshd")))


rarely = st.integers(0, 7).map(lambda n: n == 5)


def debug(case):
    """Variables for a server whose debug messages are on."""
    return {"K8PSH_DEBUG": "all"} if case.get("debug") else {}
