"""Builds everything the checks need from /repo's current working tree.

Artifacts are cached under /verif/build/<hash of the sources and build recipe>, so a changed tree is always rebuilt.
"""
import fcntl, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
NATIVE = os.path.join(VERIF, "native")
BUILD = os.path.join(VERIF, "build")

CXX = "/usr/bin/g++"
CC = "/usr/bin/gcc"
COMMON = ["-std=c++11", "-g", "-DDEBUG", "-pthread", "-I" + SRC, "-w"]
WRAPS = ["fork", "recv", "send", "read", "write", "poll", "accept", "connect", "waitpid", "wait", "symlink", "setsid"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=enum", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]


def _files(root):
    out = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        out += [os.path.join(d, f) for f in sorted(files)]
    return out


def tree_hash(extra=()):
    h = hashlib.sha256()
    for f in _files(SRC) + sorted(extra) + [os.path.abspath(__file__)]:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            data = fh.read()
        h.update(str(len(data)).encode() + b"\0" + data)
    return h.hexdigest()[:24]


class BuildError(Exception):
    pass


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-4000:]))


def _recipes(name, tmp):
    """Yields the commands building artifact `name` into tmp/name."""
    main = os.path.join(SRC, "k8psh.cxx")
    out = os.path.join(tmp, name)
    n = lambda f: os.path.join(NATIVE, f)
    if name == "k8psh":
        return [[CXX] + COMMON + ["-O1", "-static", "-o", out, main]]
    if name == "k8psh_shim":
        return [[CC, "-O1", "-g", "-w", "-c", "-o", out + ".shim.o", n("shim.c")],
                [CXX] + COMMON + ["-O1", "-static", "-o", out, main, out + ".shim.o"] + ["-Wl,--wrap=" + w for w in WRAPS]]
    if name == "k8psh_asan":
        return [[CXX] + COMMON + ["-O1", "-D_GLIBCXX_ASSERTIONS"] + SAN + ["-o", out, main]]
    if name == "probe":
        return [[CXX] + COMMON + ["-O1", "-D_GLIBCXX_ASSERTIONS"] + SAN + ["-o", out, n("probe.cxx")]]
    if name == "fuzz_config":
        return [["/usr/bin/clang++"] + COMMON + ["-O1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize=enum", "-fno-sanitize-recover=undefined",
                 "-o", out, n("fuzz_config.cxx")]]
    if name == "agent":
        return [[CC, "-O1", "-g", "-Wall", "-static", "-o", out, n("agent.c")]]
    raise KeyError(name)


DEPS = {"k8psh": [], "k8psh_shim": ["shim.c"], "k8psh_asan": [], "probe": ["probe.cxx"], "fuzz_config": ["fuzz_config.cxx"], "agent": ["agent.c"]}
ALL = sorted(n for n in DEPS if all(os.path.exists(os.path.join(NATIVE, f)) for f in DEPS[n]))


def get(names):
    """Builds the named artifacts (in parallel) and returns {name: path}."""
    os.makedirs(BUILD, exist_ok=True)
    paths, pending = {}, []
    for name in names:
        key = tree_hash([os.path.join(NATIVE, f) for f in DEPS[name]]) if name != "agent" else hashlib.sha256(open(os.path.join(NATIVE, "agent.c"), "rb").read()).hexdigest()[:24]
        d = os.path.join(BUILD, name + "-" + key)
        paths[name] = os.path.join(d, name)
        if os.path.exists(paths[name]):
            os.utime(d)
        else:
            pending.append((name, d))
    if pending:
        import concurrent.futures
        with open(os.path.join(BUILD, ".lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            with concurrent.futures.ThreadPoolExecutor(4) as ex:
                list(ex.map(lambda nd: _build(*nd), pending))
    return paths


def _build(name, d):
    if os.path.exists(os.path.join(d, name)):
        return
    # Keep at most a few old builds of the same artifact
    old = sorted((e for e in os.listdir(BUILD) if e.startswith(name + "-")), key=lambda e: os.path.getmtime(os.path.join(BUILD, e)))
    for e in old[:-6]:
        shutil.rmtree(os.path.join(BUILD, e), ignore_errors=True)
    tmp = d + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        for cmd in _recipes(name, tmp):
            _run(cmd, tmp)
        os.chmod(os.path.join(tmp, name), 0o755)
        os.rename(tmp, d)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def mined_literals():
    """Integer and string literals of the sources: used only to bias generators towards interesting values."""
    import re
    ints, strs = set(), set()
    for f in _files(SRC):
        try:
            text = open(f, encoding="utf-8", errors="replace").read()
        except OSError:
            continue
        text = re.sub(r"//[^\n]*|/\*.*?\*/", " ", text, flags=re.S)
        for m in re.finditer(r"\b(0[xX][0-9a-fA-F]+|\d+)[uUlL]*\b", text):
            try:
                v = int(m.group(1), 0) if m.group(1)[:2].lower() == "0x" else int(m.group(1))
            except ValueError:
                continue
            ints.add(v)
        for m in re.finditer(r"(\d+)\s*\*\s*(\d+)(?:\s*\*\s*(\d+))?", text):
            v = 1
            for g in m.groups():
                v *= int(g) if g else 1
            ints.add(v)
        for m in re.finditer(r"(\d+)[uUlL]*\s*<<\s*(\d+)", text):
            if int(m.group(2)) < 40:
                ints.add(int(m.group(1)) << int(m.group(2)))
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', text):
            s = m.group(1)
            if 0 < len(s) <= 40 and "\\" not in s and "<<" not in s:
                strs.add(s)
        for m in re.finditer(r"'([^'\\\n])'", text):
            strs.add(m.group(1))
    return sorted(ints), sorted(strs)


if __name__ == "__main__":
    for k, v in get(sys.argv[1:] or ALL).items():
        print(k, v)
