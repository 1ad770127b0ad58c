"""C12: client executables are created and removed exactly as configured."""
import os, signal
from hypothesis import strategies as st
from lib import gen
from lib.engine import Violation
from lib.h import Case, sq

ID = "C12"
LEVEL = "exploration"
ARTIFACTS = ["k8psh", "k8psh_shim", "agent"]
EXAMPLES = {"quick": 330, "thorough": 5000}
RULE = ("Each case is a generated configuration (sections with commands, the same command in several sections, unusual names), a target directory with generated earlier content (files, links, dangling links, directories, possibly under command names), a server name (with commands, without, or unknown) and generated options (overwrite, disable, local, keep; directory given in each spelling, relative or absolute, on the command line or in the section), links removed or replaced by somebody else meanwhile (also by links to the same binary), and the way the server ends (signal, also while it is creating client executables, limit, start failure). "
        "Oracle: a model of the directory while serving and after the end: names, link targets (the running binary), and the bytes of every file that was there before. Non-trivial: at least one link was created or one existing file was in the way.")

KINDS = ["file", "link", "dangling", "dir", "ours", "exec"]


def strategy(env):
    names = st.lists(gen.commandName(), min_size=1, max_size=7, unique=True)

    def build(ns):
        sections = st.lists(st.tuples(st.sampled_from(["a", "b", "srv", "srv", "srv", "c-d", "SRV", "srv2", "sr", "srv-x", "ssrv", "ab"]), st.one_of(st.lists(st.sampled_from(ns), min_size=1, max_size=5), st.lists(st.sampled_from(ns), min_size=1, max_size=3), st.just([]))).map(list), min_size=1, max_size=4)
        existing = st.lists(st.tuples(st.one_of(st.sampled_from(ns), st.sampled_from(["unrelated", "k8psh", ".hidden", "zz"])), st.sampled_from(KINDS)).map(list), max_size=3, unique_by=lambda e: e[0])
        return st.fixed_dictionaries({
            "sections": sections, "existing": st.one_of(st.just([]), existing), "name": st.sampled_from(["srv"] * 9 + ["a", "b", "nobody", "SRV"]),
            "options": st.lists(st.sampled_from(["-o", "--overwrite-client-executables", "-d", "--disable-client-executables", "-l", "--generate-local-executables", "-k", "--keep-client-executables"]), max_size=2),
            "where": st.sampled_from(["line", "line", "section", "both"]), "dir": st.sampled_from(["abs", "rel", "eq", "short", "cwd", "slash", "section", "abs", "rel", "missing"]),
            "end": st.sampled_from(["term", "term", "int", "hup", "max", "portbusy"]), "early": st.one_of(st.none(), st.none(), st.none(), st.tuples(st.integers(0, 4), st.sampled_from([15, 2, 1])).map(list)), "removed": st.one_of(st.just(0), st.just(0), st.integers(0, 127)), "replaced": st.one_of(st.just(0), st.just(0), st.just(0), st.integers(0, 127)), "by": st.sampled_from(["file", "link", "ours", "dangling", "exec", "moved"]), "argv0": st.sampled_from(["k8pshd", "-s", "stub"]),
        })
    return names.flatmap(build)


def directed(env):
    base = {"existing": [], "name": "srv", "options": [], "where": "line", "dir": "abs", "end": "term", "early": None, "removed": 0, "replaced": 0, "by": "file", "argv0": "k8pshd"}
    many = ["kv-command-%d" % i for i in range(3000)]
    return [dict(base, sections=[["srv", ["kv-own"]], ["a", many]]), dict(base, sections=[["srv", many[:1500]], ["a", many[1500:]]], options=["-l"], dir="rel"),
            dict(base, sections=[["s%d" % i, ["kv-%d" % (i % 90)]] for i in range(200)] + [["srv", ["kv-1", "kv-x"]]])]


def run(case, env):
    labels = []
    with Case(env) as c:
        work = c.path("work")
        target = c.path("work", "stubs dir")
        os.makedirs(target)
        early = case["early"] if any(s[0] == case["name"] and s[1] for s in case["sections"]) else None
        binary = env.bins["k8psh_shim" if early else "k8psh"]
        environment = {"K8V_SIGNAL": "symlink:%d:%d" % tuple(early)} if early else {}
        if case["argv0"] == "stub":
            os.link(binary, c.path("b", "k8pshd"))
            binary = c.path("b", "k8pshd")
        place = work if case["dir"] == "cwd" else c.path("work", "missing") if case["dir"] == "missing" else target
        outside = c.path("outside")
        with open(outside, "w") as f:
            f.write("outside")

        def make(where, name, kind):
            p = os.path.join(where, name)
            if kind in ("file", "exec"):
                with open(p, "w") as f:
                    f.write("content of " + name)
                os.chmod(p, 0o755 if kind == "exec" else 0o644)
            elif kind == "link":
                os.symlink(outside, p)
            elif kind == "dangling":
                os.symlink("/nonexistent/target", p)
            elif kind == "dir":
                os.mkdir(p)
            elif kind == "ours":
                os.symlink(binary, p)
        if case["dir"] != "missing":
            for name, kind in case["existing"]:
                if not os.path.lexists(os.path.join(place, name)):
                    make(place, name, kind)

        def snapshot():
            out = {}
            for root in (work, target, c.path("work", "missing")):
                if not os.path.isdir(root):
                    continue
                for n in os.listdir(root):
                    p = os.path.join(root, n)
                    st_ = os.lstat(p)
                    if os.path.islink(p):
                        out[p] = ("link", os.readlink(p))
                    elif os.path.isdir(p):
                        out[p] = ("dir",)
                    else:
                        out[p] = ("file", open(p, "rb").read(), st_.st_mode, st_.st_ino)
            return out
        # What the configuration says: the last definition of a command decides where it lives
        owner = {}
        provides = {}
        lines = []
        ports = {}
        base = env.port()
        options = list(case["options"])
        where = case["where"]
        sectionOptions, lineOptions = [], []
        for i, o in enumerate(options):
            (sectionOptions if where == "section" or (where == "both" and i % 2) else lineOptions).append(o)
        dirArgs = {"abs": ["-e", target], "rel": ["--executable-directory", "stubs dir"], "eq": ["--executable-directory=" + target], "short": ["-e", "./stubs dir"], "cwd": [], "slash": ["-e", target + "//"],
                   "section": [], "missing": ["-e", c.path("work", "missing")]}[case["dir"]]
        if case["dir"] == "section":
            sectionOptions += ["-e", target]
        seen = set()
        for i, (section, commands) in enumerate(case["sections"]):
            head = "[%s:%d]" % (section, base)
            if section == case["name"]:
                head += "".join(" " + sq(o) for o in sectionOptions + (["-m", "0"] if case["end"] == "max" else []))
            lines.append(head)
            for n in commands:
                lines.append("%s x" % n)
                owner[n] = section
                provides.setdefault(section, set()).add(n)
        name = case["name"]
        serving = bool(provides.get(name))
        firstSection = next((i for i, s in enumerate(case["sections"]) if s[0] == name), None)
        effective = set(lineOptions)
        if serving:
            effective |= set(sectionOptions)
        if case["dir"] == "section" and not serving:
            place = work
        overwrite = any(o in effective for o in ("-o", "--overwrite-client-executables"))
        disable = any(o in effective for o in ("-d", "--disable-client-executables"))
        local = any(o in effective for o in ("-l", "--generate-local-executables"))
        keep = any(o in effective for o in ("-k", "--keep-client-executables")) or not serving
        conf = c.file("conf", "\n".join(lines) + "\n")
        # Repeated sections and shadowed commands: only what the property fixes is modelled
        if len({s[0] for s in case["sections"]}) != len(case["sections"]):
            labels.append("repeated-section")
        before = snapshot()
        expected = dict(before)
        created = []
        failure = None
        unspecified = set()
        for n in sorted(owner):
            p = os.path.join(place, n)
            isLocal = owner[n] == name
            if isLocal and not local and (overwrite or disable) and p in before:
                unspecified.add(p)  # whether a name that gets no link is "requested" to be overwritten is left open
            if disable:
                if p in before and before[p][0] != "dir" and not isLocal:
                    expected.pop(p, None)
                elif p in before and before[p][0] != "dir":
                    expected.pop(p, None)
                continue
            if isLocal and not local:
                continue
            if p in expected and not (overwrite and before[p][0] != "dir"):
                failure = n
                continue
            if case["dir"] == "missing":
                failure = n
                continue
            created.append(p)
            expected[p] = ("link", binary)
        if case["dir"] == "missing" and not owner:
            failure = None
        extra = []
        busy = None
        if case["end"] == "portbusy" and serving:
            import socket
            busy = socket.socket()
            busy.bind(("127.0.0.1", base))
            busy.listen(1)
            c.closers.append(busy.close)
        args = dirArgs + lineOptions
        if case["argv0"] == "-s":
            server = c.proc([b"k8psh", b"-s", b"--config", os.fsencode(conf), b"--name", os.fsencode(name)] + [os.fsencode(a) for a in args], exe=binary, env=environment, cwd=work, stdin="null")
        else:
            server = c.proc([b"/somewhere/k8pshd", b"--config", os.fsencode(conf), b"--name", os.fsencode(name)] + [os.fsencode(a) for a in args], exe=binary, env=environment, cwd=work, stdin="null")

        def compare(actual, wanted, when):
            for p in sorted(set(actual) | set(wanted)):
                if p in unspecified:
                    continue
                if p not in actual:
                    raise Violation("%s: %r is missing, expected %r" % (when, p[len(work):], wanted[p][:2]))
                if p not in wanted:
                    raise Violation("%s: %r (%r) should not be there" % (when, p[len(work):], actual[p][:2]))
                if actual[p] != wanted[p]:
                    raise Violation("%s: %r is %r, expected %r" % (when, p[len(work):], actual[p][:2], wanted[p][:2]))
            if open(outside).read() != "outside":
                raise Violation("%s: the target of a link was changed" % when)

        def removed(state):
            """Nothing of what was made is left."""
            out = dict(state)
            for p in created:
                out.pop(p, None)
            return out
        if created:
            labels.append("created")
        if any(os.path.join(place, n) in before for n in owner):
            labels.append("in-the-way")
        if busy or failure is not None:
            c.finish(server, "the server ends when it cannot start")
            if server.rc == 0:
                raise Violation("the server exited with 0 although it could not create the client executable %r" % failure if not busy else "the server exited with 0 although its port is in use")
            labels.append("start-failed")
            actual = snapshot()
            if busy:
                compare(actual, before, "after the start failed")
            else:
                # Nothing that existed is changed without overwrite/disable; with them the named ones may be gone already
                for p, v in before.items():
                    requested = (overwrite or disable) and os.path.dirname(p) == place and os.path.basename(p) in owner and v[0] != "dir"
                    if actual.get(p) != v and not (requested and (p not in actual or (keep and p in created and actual[p] == ("link", binary)))) and p not in unspecified:
                        raise Violation("after the start failed: %r is %r, was %r" % (p[len(work):], actual.get(p), v[:2]))
                for p in actual:
                    if p not in before and serving and not keep:
                        raise Violation("after the start failed: %r was left behind" % p[len(work):])
                    if p not in before and p not in created:
                        raise Violation("after the start failed: %r should not be there" % p[len(work):])
            return labels
        if not serving:
            labels.append("no-commands")
            c.finish(server, "a container without commands exits")
            if server.rc != 0:
                raise Violation("the start without own commands exited with %s: %r" % (server.rc, bytes(server.err[-300:])))
            compare(snapshot(), expected, "after the start without own commands")
            return labels
        final = expected if keep else removed(expected)
        if early and early[0] < len(created):
            # It is told to stop before it has made its n-th client executable
            labels.append("stopped-early")
            c.finish(server, "the server exits when it is told to while it starts")
            if server.rc not in (0, -early[1]):
                raise Violation("the server, told to stop while it started, exited with %s: %r" % (server.rc, bytes(server.err[-300:])))
            actual = snapshot()
            if keep or server.rc:
                for p in set(actual) | set(before):
                    if p not in unspecified and actual.get(p) not in [before.get(p)] + ([expected.get(p)] if keep or p not in created else [None] if overwrite or disable else []):
                        raise Violation("told to stop while it started: %r is %r, was %r" % (p[len(work):], actual.get(p), before.get(p)))
            else:
                # Names that it had not come to yet may be as they were
                wanted = {p: before[p] if p in before and actual.get(p) == before[p] and p in created else v for p, v in {**{p: None for p in created}, **final}.items()}
                compare(actual, {p: v for p, v in wanted.items() if v}, "after the server was told to stop while it started")
            return labels
        if case["end"] == "max" and firstSection is not None:
            c.finish(server, "a server allowed no connections exits")
        else:
            server.port = base
            from lib.h import catches, listening
            c.wait(lambda: server.rc is not None or (listening(base) and catches(server.pid, signal.SIGTERM)), "the server starts")
            if server.rc is not None:
                raise Violation("the server ended (status %s) instead of serving: %r" % (server.rc, bytes(server.err[-300:])))
            compare(snapshot(), expected, "while serving")
            final = dict(final)
            for i, p in enumerate(created):
                if case["removed"] >> i & 1:
                    # Somebody else removes it
                    os.unlink(p)
                    final.pop(p, None)
                    labels.append("removed-meanwhile")
                if case.get("replaced", 0) >> i & 1:
                    # Somebody else puts another file there, which is theirs
                    temporary = c.path("temporary")
                    make(c.root, "temporary", "ours" if case["by"] == "moved" else case["by"])
                    if case["by"] == "moved":
                        os.replace(temporary, p)
                    else:
                        if os.path.lexists(p):
                            os.unlink(p)
                        os.rename(temporary, p)
                    final[p] = snapshot()[p]
                    labels.append("replaced-meanwhile")
            server.kill({"term": 15, "int": 2, "hup": 1}.get(case["end"], 15))
            c.finish(server, "the server exits after the signal")
        if server.rc != 0:
            raise Violation("the server exited with %s: %r" % (server.rc, bytes(server.err[-300:])))
        compare(snapshot(), final, "after the server exited")
        labels.append("kept" if keep else "removed")
    return labels


def nontrivial(case, labels):
    return "created" in labels or "in-the-way" in labels
