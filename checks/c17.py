"""C17: path handling obeys path algebra."""
import os

from hypothesis import strategies as st

from lib import h, model, probe
from lib.engine import Violation

ID = "C17"
LEVEL = "exploration"
ARTIFACTS = ["probe"]
EXAMPLES = {"quick": 1800, "thorough": 40000}
WORKERS = 16
TECHNIQUE = "algebraic property-based testing: generated paths checked against a component model and the laws of path algebra (idempotence, join, prefix, congruence); shrinking"
RULE = ("a case is a pair of paths made of generated components ('.', '..', dotted, common prefixes, separators repeated at every place, empty, long), the second often an extension or a near miss (a longer last component, a shared prefix) of the first; "
        "normalization, relativization, base name, parent directory and absoluteness are compared with a component model and with algebraic laws; non-trivial if a path has '.', '..' or a repeated separator, or the pair shares a component")
NOTE = "Randomized exploration against a component-list model."

component = st.one_of(st.sampled_from(["a", "b", "ab", "abc", ".", "..", "...", ".a", "a.", "..a", "a b", "-", "~", "c.d", "\\", "\xe9", "x" * 40]), st.text("ab.", min_size=1, max_size=4), st.text("abc.-_ \xff", min_size=1, max_size=300))
separator = st.sampled_from(["/", "/", "/", "//", "/./", "///", "/.//./"])


@st.composite
def path(draw, absolute=None, parts=None):
    cs = draw(st.lists(component, max_size=6)) if parts is None else parts
    if absolute is None:
        absolute = draw(st.booleans())
    out = (draw(separator) if absolute else draw(st.sampled_from(["", "", "./", ".//"])))
    for i, c in enumerate(cs):
        out += c + (draw(separator) if i < len(cs) - 1 or draw(st.integers(0, 2)) == 0 else "")
    if absolute and not out.startswith("/"):
        out = "/" + out
    if not absolute:
        out = out.lstrip("/")
    return out


@st.composite
def strategy_(draw):
    one = draw(path())
    # Parents and paths for relativization: absolute, without '..' (the working directory and the base directory never have them)
    clean = component.filter(lambda c: c != "..")
    p = draw(st.lists(clean, max_size=4))
    k = draw(st.integers(0, 6))
    q = list(p)
    if k == 0:
        q = draw(st.lists(clean, max_size=4))
    elif k == 1 and q:
        q[-1] += draw(st.sampled_from(["x", ".", "b", "/y"]))
    elif k == 2 and q:
        q[draw(st.integers(0, len(q) - 1))] = draw(clean)
    elif k == 3 and q:
        q = q[:draw(st.integers(0, len(q)))]
    else:
        q += draw(st.lists(clean, max_size=3))
    q = [x if x != ".." else "..x" for x in q]
    return {"path": one, "parent": draw(path(True, p)), "other": draw(path(True, q)), "tail": draw(path(False))}


def strategy(env):
    return strategy_()


def directed(env):
    many = "".join("d%d/" % i for i in range(20000))
    return [{"path": p, "parent": parent, "other": other, "tail": tail} for p, parent, other, tail in [
        (many, "/" + many, "/" + many + "x", many), ("../" * 20000, "/" + many, "/" + many[:-2] + "/x", "../" * 19999 + "y"), ("/" * 100000 + "a", "/" * 70000, "/a" + "/" * 70000 + "b", "x/../" * 20000),
        ("x" * 100000, "/" + "x" * 70000, "/" + "x" * 70001, "y" * 70000 + "/.."), ("/a" + "/./" * 30000, "/a" + "/." * 30000, "/a/b" + "/." * 30000, ".")]]


def run(c, env):
    p = probe.of(env)
    labels = []
    for s in (c["path"], c["parent"], c["other"], c["tail"], c["path"] + "/" + c["tail"]):
        n = p.must("n", s)
        expected = model.normalize(s)
        if n != expected:
            raise Violation("%r normalizes to %r instead of %r" % (s, n, expected))
        if p.must("n", n) != n:
            raise Violation("normalization of %r is not idempotent: %r, %r" % (s, n, p.must("n", n)))
        absolute = p.must("a", s) == "1"
        if absolute != s.startswith("/") or (p.must("a", n) == "1") != absolute:
            raise Violation("absoluteness of %r (normalized %r) is wrong" % (s, n))
        # Replacing a prefix by its normalized form does not change the meaning of the whole
        joined = p.must("n", (s or ".") + "/" + c["tail"])
        again = p.must("n", (n if n else ".") + "/" + c["tail"])
        if joined != again:
            raise Violation("%r and %r extended by %r denote %r and %r" % (s, n, c["tail"], joined, again))
        names(p, s)
    # Relativization
    parent, other = c["parent"], c["other"]
    a, b = model.components(parent), model.components(other)
    ok, got = p.call("r", parent, other)
    if ok != (b[:len(a)] == a):
        raise Violation("relativizing %r against %r %s" % (other, parent, "gave %r" % got if ok else "failed"))
    if ok:
        labels.append("related")
        if got[0].startswith("/"):
            raise Violation("relativizing %r against %r gave the absolute path %r" % (other, parent, got[0]))
        if model.components(got[0]) != b[len(a):]:
            raise Violation("relativizing %r against %r gave %r" % (other, parent, got[0]))
        if p.must("n", parent + "/" + got[0]) != p.must("n", other):
            raise Violation("%r joined to %r denotes %r instead of %r" % (got[0], parent, p.must("n", parent + "/" + got[0]), p.must("n", other)))
    else:
        labels.append("unrelated")
    # Any representation of a path is related to itself
    for x in (p.must("n", other), other + "/", other + "/."):
        ok, got = p.call("r", other, x)
        if not ok or model.components(got[0]):
            raise Violation("relativizing %r against %r gave %s %r" % (x, other, "success" if ok else "failure", got))
    return labels


def names(p, s):
    """Base name and parent directory."""
    base, parent = p.must("b", s), p.must("p", s)
    if p.must("x", s) != base:
        raise Violation("the base name of the executable %r is %r, not %r" % (s, p.must("x", s), base))
    if s == "":
        if base != ".":
            raise Violation("the base name of the empty path is %r" % base)
        return
    cs = [c for c in s.split("/") if c]
    expected = cs[-1] if cs else "/"
    if base != expected:
        raise Violation("the base name of %r is %r instead of %r" % (s, base, expected))
    if not s.endswith("/"):
        # Everything before the last component
        head = s[:len(s) - len(cs[-1])]
        if [c for c in parent.split("/") if c] != cs[:-1] or parent.startswith("/") != s.startswith("/") or "/" not in head and parent != "":
            raise Violation("the parent directory of %r is %r" % (s, parent))
        if parent.endswith("/") and parent != "/":
            raise Violation("the parent directory of %r is %r, with a separator at its end" % (s, parent))
        if parent and p.must("n", parent + "/" + base) != p.must("n", s) or not parent and p.must("n", base) != p.must("n", s):
            raise Violation("parent %r and base name %r do not make %r" % (parent, base, s))


def nontrivial(c, labels):
    return any("//" in s or any(x in (".", "..") for x in s.split("/")) for s in (c["path"], c["parent"], c["other"])) or bool(set(model.components(c["parent"])) & set(model.components(c["other"])))
