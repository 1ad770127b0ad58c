"""C22: --install leaves an exact, executable copy, whatever was there before."""
import os, shutil, stat

from hypothesis import strategies as st

from lib import h
from lib.engine import Violation

ID = "C22"
LEVEL = "fault_enumeration"
ARTIFACTS = ["k8psh", "k8psh_shim", "agent"]
EXAMPLES = {"quick": 450, "thorough": 1200}
WORKERS = 16
TECHNIQUE = "property-based testing of the real binary: generated destination states, file systems, invocations and injected short or interrupted system calls and full files; content, permissions and the source compared afterwards; shrinking"
RULE = ("a case is what is at the destination (nothing; a file that is shorter, longer, equal, not executable, read-only or running; links to the binary, to another file, dangling; an installed copy; a directory; a missing or unwritable directory, also with a file or link in it), "
        "the file system (same or another), how the option and the path are written, how the binary is invoked, the umask, and injected short / interrupted reads and writes or a file size limit; "
        "all destination states are also enumerated on both file systems; non-trivial if something was at the destination, a fault is injected or the file system differs")
NOTE = "Exhaustive over the listed destination states on two file systems, randomized over their combination with faults. Needs /dev/shm for the second file system."

STATES = ["none", "empty", "shorter", "longer", "equal", "equalNoExec", "other", "readonly", "running", "linkToSource", "linkToCopy", "linkToOther", "dangling", "linkLoop", "installed", "hardlinkOther", "directory", "missingDir", "unwritableDir", "source", "lockedShorter", "lockedLonger", "lockedOther", "lockedReadonly", "lockedLink", "lockedLinkToSource", "lockedDangling"]
FAILING = ("directory", "missingDir", "unwritableDir", "lockedReadonly", "lockedLinkToSource", "lockedDangling")
# In a directory that cannot be written to the file itself may still be written to


def strategy(env):
    return st.fixed_dictionaries({
        "state": st.sampled_from(STATES), "other": st.booleans(), "form": st.sampled_from(["space", "eq"]), "path": st.sampled_from(["absolute", "relative", "dotted", "bare"]),
        "invoke": st.sampled_from(["direct", "symlink", "hardlink"]), "mode": st.sampled_from([0o755, 0o700, 0o555, 0o500, 0o711]), "destMode": st.sampled_from([0o644, 0o600, 0o755, 0o444, 0]),
        "umask": st.sampled_from([0o022, 0o022, 0o077, 0, 0o027]), "name": st.sampled_from(["k8pshd", "k8psh", "x", "with space", "\xe9", "-dash", "=x"]),
        "shim": st.one_of(st.none(), st.none(), st.sampled_from(["read:1000,0,1", "read:8191", "iread:1,0,0", "iwrite:0,1,0", "iread:1,1,1,0 iwrite:1,1,0", "write:4096", "write:0,0,0,0,0,0,0,100", "read:4096 write:0", "read:1,2,3,5000,0"])),
        "limit": st.one_of(st.none(), st.none(), st.none(), st.sampled_from([0, 1, 8191, 8192, 8193, 100000, -1, -4096])), "twice": st.booleans()})


def directed(env):
    base = {"form": "space", "path": "absolute", "invoke": "direct", "mode": 0o755, "destMode": 0o644, "umask": 0o022, "name": "k8pshd", "shim": None, "limit": None, "twice": False}
    return [dict(base, state=s, other=o) for s in STATES for o in (False, True)]


def snapshot(path):
    s = os.stat(path)
    return (open(path, "rb").read(), stat.S_IMODE(s.st_mode), s.st_uid)


def run(case, env):
    labels = [case["state"]]
    with h.Case(env) as c:
        exe = env.bins["k8psh_shim" if case["shim"] else "k8psh"]
        shm = None
        src = c.path("src")
        os.mkdir(src)
        source = os.path.join(src, "k8psh")
        shutil.copyfile(exe, source)
        os.chmod(source, case["mode"])
        if case["other"]:
            shm = "/dev/shm/kv%d-%d" % (os.getuid(), env.caseNumber)
            shutil.rmtree(shm, ignore_errors=True)
            try:
                os.mkdir(shm)
            except OSError:
                shm = None
        try:
            return labels + body(case, env, c, source, shm or c.path("dst"), labels)
        finally:
            if shm:
                os.system("chmod -R u+rwx '%s'" % shm)
                shutil.rmtree(shm, ignore_errors=True)


def body(case, env, c, source, dstDir, labels):
    out = []
    if not os.path.isdir(dstDir):
        os.mkdir(dstDir)
    if os.stat(dstDir).st_dev != os.stat(source).st_dev:
        out.append("another file system")
    content = open(source, "rb").read()
    state = case["state"]
    name = h.b(case["name"])
    dest = os.path.join(os.fsencode(dstDir), name)
    victim = os.path.join(dstDir, "zz-other-file")
    victimContent = b"#!/bin/false\nvictim\n"
    open(victim, "wb").write(victimContent)

    def put(data, mode):
        with open(dest, "wb") as f:
            f.write(data)
        os.chmod(dest, mode)
    if state == "empty":
        put(b"", case["destMode"])
    elif state == "shorter":
        put(b"#!/bin/sh\n" + content[:5000], case["destMode"])
    elif state == "longer":
        put(content + b"extra" * 3000, case["destMode"])
    elif state == "equal":
        put(content, 0o755)
    elif state == "equalNoExec":
        put(content, 0o644)
    elif state == "other":
        put(bytes(255 - x for x in content[:4096]) + content[4096:], case["destMode"])
    elif state == "readonly":
        put(b"old", 0o444)
    elif state == "running":
        shutil.copyfile("/bin/sleep", dest)
        os.chmod(dest, 0o755)
        c.proc([b"sleep", b"60"], exe=dest, env={})
    elif state == "installed":
        if out:
            shutil.copyfile(source, dest)
            os.chmod(dest, 0o755)
        else:
            os.link(source, dest)
    elif state == "linkToSource":
        os.symlink(source, dest)
    elif state == "linkToCopy":
        shutil.copyfile(source, os.path.join(dstDir, "copy"))
        os.chmod(os.path.join(dstDir, "copy"), 0o755)
        os.symlink("copy", dest)
    elif state == "linkToOther":
        os.symlink("zz-other-file", dest)
    elif state == "dangling":
        os.symlink("zz-nothing", dest)
    elif state == "linkLoop":
        os.symlink(name, dest)
    elif state == "hardlinkOther":
        os.link(victim, dest)
    elif state == "directory":
        os.mkdir(dest)
    elif state == "missingDir":
        os.rename(dstDir, dstDir + ".gone")
    elif state == "unwritableDir":
        os.chmod(dstDir, 0o555)
    elif state.startswith("locked"):
        what = state[6:]
        if what in ("Shorter", "Longer", "Other"):
            put({"Shorter": content[:5000], "Longer": content + b"extra" * 3000, "Other": b"old"}[what], case["destMode"] | 0o600)
        elif what == "Readonly":
            put(b"old", 0o555)
        elif what == "Link":
            put(b"old", 0o755)
            os.rename(dest, os.path.join(dstDir, "real"))
            os.chmod(os.path.join(dstDir, "real"), case["destMode"] | 0o600)
            os.symlink("real", dest)
        else:
            os.symlink(source if what == "LinkToSource" else "zz-nothing", dest)
        os.chmod(dstDir, 0o555)
    elif state == "source":
        dest = os.fsencode(source)
        dstDir = os.path.dirname(source)
    # Invocation
    exe = source
    if case["invoke"] == "symlink":
        os.mkdir(c.path("ln"))
        exe = c.path("ln", "k8psh")
        os.symlink(source, exe)
    elif case["invoke"] == "hardlink":
        os.mkdir(c.path("ln"))
        exe = c.path("ln", "k8psh")
        os.link(source, exe)
    before = snapshot(source)
    cwd = c.root
    d = os.fsencode(dstDir)
    base = os.path.basename(dest)
    if case["path"] == "absolute":
        arg = dest
    elif case["path"] == "relative":
        arg = os.path.relpath(dest, os.fsencode(cwd))
    elif case["path"] == "dotted":
        arg = d + b"/./../" + os.path.basename(d) + b"//" + base
    elif state == "missingDir":
        arg = dest
    else:
        cwd, arg = dstDir, base

    def install():
        argv = [b"k8psh"] + ([b"--install", arg] if case["form"] == "space" else [b"--install=" + arg])
        e = {"K8V_SHIM": case["shim"] or ""}
        program = exe
        mask = "umask %03o; " % case["umask"]
        # The shell sets the umask and the limit, then becomes the binary
        script = mask + 'exec "$@"'
        limit = case["limit"]
        wrapper = []
        if limit is not None:
            wrapper = ["/usr/bin/prlimit", "--fsize=%d" % (limit if limit >= 0 else len(content) + limit)]
        cmd = ["/bin/sh", "-c", script, "sh"] + wrapper + [exe]
        p = c.proc([os.fsencode(x) for x in cmd] + argv[1:], exe="/bin/sh", env=e, cwd=cwd)
        c.finish(p, "--install ends")
        return p
    p = install()
    if state in ("none", "other") and case["twice"] and p.rc == 0:
        out.append("installed twice")
        first = p
        p = install()
    if state == "missingDir":
        os.rename(dstDir + ".gone", dstDir)
    after = snapshot(source)
    if after[0] != before[0]:
        raise Violation("the source binary changed: %d bytes before, %d after" % (len(before[0]), len(after[0])))
    if after[1] != before[1]:
        raise Violation("the permissions of the source changed from %o to %o" % (before[1], after[1]))
    if p.rc == 0:
        out.append("succeeded")
        if state in FAILING:
            raise Violation("--install succeeded with %s" % state)
        if not os.path.isfile(dest):
            raise Violation("--install succeeded but there is no file (%s)" % state)
        data = open(dest, "rb").read()
        h.diff(content, data, "the binary and the installed file")
        if not os.access(dest, os.X_OK):
            raise Violation("the installed file is not executable (mode %o)" % os.stat(dest).st_mode)
        q = c.proc([b"k8psh", b"--version"], exe=dest, env={})
        c.finish(q, "the installed binary runs")
        if q.rc != 0 or not bytes(q.out).startswith(b"k8psh "):
            raise Violation("the installed binary does not work: %s %r" % (q.rc, bytes(q.out[:100])))
    else:
        out.append("failed")
        faulty = case["limit"] is not None or case["shim"] and "write:" in case["shim"].replace("iwrite:", "")
        if state not in FAILING and not faulty:
            raise Violation("--install failed with status %s (%s): %r" % (p.rc, state, bytes(p.err[-300:])))
    if state == "hardlinkOther" and open(victim, "rb").read() != victimContent:
        # The other name of a file that was replaced
        out.append("other name of the destination changed")
    return out


def nontrivial(case, labels):
    return case["state"] != "none" or case["shim"] is not None or case["limit"] is not None or "another file system" in labels
