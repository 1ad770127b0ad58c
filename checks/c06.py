"""C06: the working directory maps relative to each side's base directory."""
import os
from hypothesis import strategies as st
from lib import gen
from lib.engine import Violation
from lib.h import Case, b, sq, u, wholeConfig

ID = "C06"
LEVEL = "exploration"
ARTIFACTS = ["k8psh", "agent"]
EXAMPLES = {"quick": 220, "thorough": 3000}
RULE = ("Each case: generated client and server base directories (several ways of writing them: absolute, relative to the configuration file, defaulted, with '.', '..', repeated or trailing separators, '/' itself), a generated relative directory "
        "(0 to 24 components, spaces, dots, non-ASCII, quotes, long names), present or missing or not enterable or not a directory on the server, or a symbolic link there (to a directory, to nothing, to itself); a PWD variable that is right, wrong, or names a symbolic link to the directory; or a client directory outside its base (sibling sharing a prefix, parent, unrelated) or removed before the client starts. "
        "Oracle: the directory the started program reports must be server base joined with the client's relative directory; otherwise nothing starts and the client fails. Non-trivial: a relative directory of at least one component, or an outside/unusable one.")

FORMS = ["abs", "abs", "absdots", "absslash", "rel", "reldots", "default", "root"]


def strategy(env):
    comp = st.one_of(st.sampled_from(["a", "b", "sub", "x y", "..x", ".hidden", "...", "x.", "-", "é".encode().decode("latin-1"), "'", '"', "\\", "#", "${X}", "\n", "[s]", "a=b", "\xff", "L" * 200, "base", "client", "server", " "]),
                     st.text("abc. -_", min_size=1, max_size=6).filter(lambda s: s not in (".", "..")),
                     st.text(st.characters(min_codepoint=1, max_codepoint=255, exclude_characters="/"), min_size=1, max_size=12).filter(lambda s: s not in (".", "..")))
    rel = st.one_of(st.lists(comp, max_size=4), st.lists(comp, max_size=4), st.lists(comp, min_size=8, max_size=24),
                    st.lists(st.one_of(st.sampled_from(["L" * 200, "M" * 255, "n" * 90]), comp), min_size=8, max_size=24))
    return st.fixed_dictionaries({
        "rel": rel, "cform": st.sampled_from(FORMS), "sform": st.sampled_from(FORMS), "cname": comp, "sname": comp,
        "kind": st.sampled_from(["ok"] * 6 + ["missing", "file", "noexec", "sibling", "parent", "elsewhere", "prefixdir", "lost", "slink", "slink", "dangling", "loop"]), "suffix": st.sampled_from(["x", ".", " ", "2"]),
        "mode": st.sampled_from(["c", "stub"]), "pwd": st.sampled_from([None, None, "right", "link", "link", "wrong"]),
    })


def written(form, base, conf):
    """How the configuration in directory conf names the base directory; None: by default."""
    if form == "abs":
        return base
    if form == "absdots":
        return os.path.dirname(base) + "//./zz/../" + os.path.basename(base) + "/."
    if form == "absslash":
        return base + "//"
    rel = os.path.relpath(base, conf)
    if form == "rel":
        return rel
    if form == "reldots":
        return "./" + rel + "/./"
    return None


def run(case, env):
    kind = case["kind"]
    labels = [kind, "client-" + case["cform"], "server-" + case["sform"]]
    with Case(env) as c:
        port = env.port()
        root = c.root
        sides = {}
        for side, form, name in (("client", case["cform"], case["cname"]), ("server", case["sform"], case["sname"])):
            confDir = os.path.join(root, side)
            os.mkdir(confDir)
            base = "/" if form == "root" else confDir if form == "default" else os.path.join(root, side, u(b(name)))
            raw = os.fsencode(base) if form in ("root", "default") else os.path.join(os.fsencode(confDir), b(name))
            os.makedirs(raw, exist_ok=True)
            text = u(raw)
            w = "/" if form == "root" else written(form, text, u(os.fsencode(confDir)))
            cf = os.path.join(confDir, "conf")
            with open(cf, "wb") as f:
                f.write(b(("baseDirectory = %s\n" % sq(w) if w is not None else "") + "connectTimeoutMs = 8000\n[srv:%d]\nkv-cmd %s\n" % (port, sq(c.agent))))
            sides[side] = (cf, raw)
        rel = []
        n = len(root) + 300
        for x in case["rel"]:
            n += len(x) + 1
            if n < (1800 if "root" in (case["cform"], case["sform"]) else 4080):
                rel.append(b(x))
        croot, sroot = sides["client"][1], sides["server"][1]
        if case["cform"] == "root" or case["sform"] == "root":
            # The relative directory has to exist below the real root: stay inside the scratch directory on both sides
            if case["cform"] == "root" and case["sform"] == "root":
                cwd = os.path.join(os.fsencode(root), b"w", *rel)
                os.makedirs(cwd)
                want = cwd
            elif case["cform"] == "root":
                cwd = os.path.join(os.fsencode(root), b"w", *rel)
                os.makedirs(cwd)
                want = os.path.join(sroot, cwd.lstrip(b"/"))
                if kind == "ok":
                    os.makedirs(want, exist_ok=True)
            else:
                # Server base /: the client's relative directory names a scratch directory from the root
                target = os.path.join(os.fsencode(root), b"w", *rel)
                cwd = os.path.join(croot, target.lstrip(b"/"))
                os.makedirs(cwd, exist_ok=True)
                want = target
                if kind == "ok":
                    os.makedirs(want)
            if kind == "lost":
                cwd = os.path.join(cwd, b"lost")
                os.makedirs(cwd)
            elif kind != "ok":
                kind = "missing" if case["cform"] != case["sform"] else "ok"
                labels[0] = kind
        else:
            cwd = os.path.join(croot, *rel) if rel else croot
            want = os.path.join(sroot, *rel) if rel else sroot
            os.makedirs(cwd, exist_ok=True)
            if kind == "lost":
                cwd = os.path.join(cwd, b"lost")
                os.makedirs(cwd)
                os.makedirs(want, exist_ok=True)
            if kind == "ok":
                os.makedirs(want, exist_ok=True)
            elif kind in ("missing", "file", "noexec", "slink", "dangling", "loop") and not rel:
                rel = [b"sub"]
                cwd, want = os.path.join(croot, b"sub"), os.path.join(sroot, b"sub")
                os.makedirs(cwd, exist_ok=True)
            if kind in ("missing", "file", "noexec", "slink", "dangling", "loop") and os.path.exists(want):
                kind = labels[0] = "ok"
            if kind in ("slink", "dangling", "loop"):
                os.makedirs(os.path.dirname(want), exist_ok=True)
                os.symlink({"slink": os.path.join(root, "linked"), "dangling": "nowhere", "loop": os.path.basename(want)}[kind], want)
                os.mkdir(os.path.join(root, "linked"))
            if kind in ("file", "noexec"):
                os.makedirs(os.path.dirname(want), exist_ok=True)
            if kind == "file":
                open(want, "w").close()
            elif kind == "noexec":
                os.mkdir(want, 0o600)
            elif kind in ("sibling", "parent", "elsewhere", "prefixdir"):
                if kind == "sibling" or kind == "prefixdir":
                    cwd = croot + b(case["suffix"])
                    if kind == "prefixdir":
                        cwd = os.path.join(cwd, *rel) if rel else cwd
                elif kind == "parent":
                    cwd = os.path.dirname(croot)
                else:
                    cwd = os.path.join(os.fsencode(root), b"elsewhere", *rel)
                os.makedirs(cwd, exist_ok=True)
                os.makedirs(want, exist_ok=True)
                for d in (b(case["suffix"]),):  # where a sloppy computation would end up
                    os.makedirs(os.path.join(sroot, d), exist_ok=True)
        # What a shell says about the working directory: where it is, a symbolic link that leads there, or where it was
        pwd = {"right": cwd, "wrong": os.fsencode(root), "link": os.path.join(os.fsencode(root), b"entered")}.get(case["pwd"])
        if case["pwd"] == "link":
            os.symlink(croot if cwd.startswith(croot + b"/") else cwd, pwd)
            if cwd.startswith(croot + b"/"):
                pwd = os.path.join(pwd, cwd[len(croot) + 1:])
        if pwd:
            labels.append("pwd-" + case["pwd"])
        c.server(sides["server"][0], port=port, args=["-k", "-e", root], cwd="/", env={"PWD": root} if case["pwd"] == "wrong" else {})
        p = c.client("kv-cmd", config=sides["client"][0], cwd=cwd, mode=case["mode"], env={"PWD": pwd} if pwd else {}, lostCwd=kind == "lost")
        if kind in ("ok", "slink"):
            a = c.waitAgent(p)
            if kind == "ok" and os.path.normpath(a.cwd) != os.path.normpath(want) or a.cwd != os.path.realpath(want):
                raise Violation("the client ran in %r (base %r), the command in %r instead of %r" % (cwd, croot, a.cwd, want))
            a.exit(0)
            c.finish(p)
            if p.rc != 0:
                raise Violation("the client ended with %s" % p.rc)
        else:
            c.finish(p, "the client ends after its working directory could not be used")
            if p.rc == 0:
                raise Violation("the client succeeded although its working directory could not be used (%s)" % kind)
            c.idle(0.005)
            if c.agents:
                raise Violation("the command was started although its working directory could not be used (%s)" % kind)
    if rel:
        labels.append("deep" if len(rel) > 4 else "sub")
    else:
        labels.append("base-itself")
    return labels


def nontrivial(case, labels):
    return labels[0] != "ok" and "base-itself" not in labels or "sub" in labels or "deep" in labels
