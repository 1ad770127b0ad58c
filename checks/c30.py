"""C30: a client leaves no trace beyond its output."""
import fcntl, os, pty, select, signal, socket, stat, termios, tty
from hypothesis import strategies as st
from lib import gen
from lib.engine import Violation
from lib.h import Case, blob, diff, procState, sq, wholeConfig

ID = "C30"
LEVEL = "exploration"
ARTIFACTS = ["k8psh", "k8psh_shim", "agent"]
EXAMPLES = {"quick": 110, "thorough": 3000}
WORKERS = 16
TECHNIQUE = "stateful property-based testing: generated runs of real clients that share files, pipes, sockets, terminals and inherited descriptors with their caller, against a model of these; everything shared is compared before and after; shrinking"
RULE = ("Each case runs 1 to 4 clients (one after the other or at once) whose standard streams share generated open files with the caller and each other: files at a position or in append mode, pipes, one socket for all three, a terminal, /dev/null; with further descriptors inherited (such as a pipe with tokens in it), in read-only directories, in every ending (any status, killed command, killed or interrupted client, unknown command, missing executable, bad configuration, no server). "
        "Oracle: a model of the shared files: every stream's bytes are at the position where the caller's file was (in append mode at its end, those of several clients after each other or each in order), nothing else in them changed; flags of all shared open files, terminal settings, contents of inherited pipes, all files (also under HOME, TMPDIR and /tmp), the client's session and process group are as before; and no process remains. Non-trivial: a stream is shared by two clients or two streams, or is a file or terminal, or the run ended abnormally.")
ENDS = ["exit"] * 10 + ["signal", "unknown", "missing", "badconf", "noserver", "kill", "int", "term", "early"]


def strategy(env):
    one = st.fixed_dictionaries({"in": gen.data(env, 30000), "out": gen.data(env, 70000), "err": gen.data(env, 9000), "end": st.sampled_from(ENDS), "exit": gen.exitCodes, "mode": st.sampled_from(["stub", "stub", "env", "c", "eq"])})
    return st.fixed_dictionaries({
        "stdin": st.sampled_from(["pipe", "file", "rdwr", "socket", "null", "tty"]), "stdout": st.sampled_from(["file", "append", "pipe", "socket", "tty", "file", "append"]), "stderr": st.sampled_from(["same", "same", "file", "append", "pipe", "null"]),
        "one": st.sampled_from([None, None, None, "socket", "tty"]), "prior": st.tuples(st.integers(0, 3000), st.integers(0, 3000)).map(list), "tokens": st.integers(0, 40), "extra": st.lists(st.sampled_from([3, 4, 5, 7, 9, 15, 63]), max_size=3, unique=True),
        "runs": st.lists(one, min_size=1, max_size=4), "together": st.booleans(), "readonly": st.booleans(), "shim": gen.shimPlan(env, 4),
    })


def directed(env):
    return directedRuns(env) + [{"huge": how} for how in ("rdonly", "rdwr")]


def huge(case, env):
    """The client's input is an endless file, and its command closes its standard input at once: the rest of it must remain."""
    with Case(env) as c:
        port = env.port()
        conf = c.file("conf", wholeConfig(port, ["kv-cmd sh -c 'exec <&-; exec \"$@\"' x " + sq(c.agent)]))
        c.server(conf, port=port)
        path, size = c.path("huge"), 1 << 40
        fd = os.open(path, (os.O_RDWR if case["huge"] == "rdwr" else os.O_RDONLY) | os.O_CREAT, 0o644)
        c.closers.append(lambda: os.close(fd))
        os.truncate(path, size)
        p = c.client("kv-cmd", ["x"], config=conf, stdin=("fd", fd))
        a = c.waitAgent(p)
        c.wait(lambda: p.pid is None or not any(os.path.realpath("/proc/%d/fd/0" % p.pid) == path for _ in [0]), "the client closes its input")
        c.op(a.write(1, b"output"), "the command writes", a)
        a.exit(4)
        c.wait(lambda: p.rc is not None, "the client exits")
        if p.rc != 4:
            raise Violation("the client exited with status %s instead of 4" % p.rc)
        at = os.lseek(fd, 0, 1)
        if at >= size // 2 or os.fstat(fd).st_size != size or os.fstat(fd).st_blocks:
            raise Violation("a command closed its input at once, but nothing (position %d) of the client's input file of %d bytes remains" % (at, size))
    return ["huge"]


def directedRuns(env):
    run1 = {"in": ["text", 300, 0], "out": ["text", 5000, 1], "err": ["text", 700, 2], "end": "exit", "exit": 0, "mode": "stub"}
    base = {"stdin": "pipe", "stdout": "file", "stderr": "same", "one": None, "prior": [50, 20], "tokens": 7, "extra": [3, 4], "runs": [run1], "together": False, "readonly": True, "shim": None}
    out = [dict(base, runs=[dict(run1, end=e)] * 2) for e in sorted(set(ENDS))]
    out += [dict(base, one=o, runs=[dict(run1, end=e), run1]) for o in ("socket", "tty") for e in ("exit", "kill", "signal", "unknown", "early", "int")]
    out += [dict(base, stdin=i, stdout=o, stderr=e, runs=[run1, dict(run1, exit=3)], together=t) for i in ("file", "rdwr", "socket", "tty", "null") for o, e in (("append", "same"), ("file", "append"), ("tty", "same"), ("socket", "file"), ("pipe", "same")) for t in (False, True)]
    return out


class Shared:
    """An open file that the caller shares with its clients."""

    def __init__(self, c, kind, name, prior, writing):
        self.kind, self.path, self.reader, self.got = kind, None, None, bytearray()
        c.closers.append(self.close)
        self.fds = []
        if kind in ("file", "append", "rdwr"):
            self.path = c.path(name)
            self.head, self.tail = blob("rand", prior[0], 3), blob("rand", prior[1], 4)
            with open(self.path, "wb") as f:
                f.write(self.head + self.tail)
            self.fd = os.open(self.path, (os.O_WRONLY | (os.O_APPEND if kind == "append" else 0)) if writing else os.O_RDWR if kind == "rdwr" else os.O_RDONLY)
            os.lseek(self.fd, prior[0], 0)
        elif kind == "pipe":
            r, w = os.pipe()
            self.fd, self.other = (w, r) if writing else (r, w)
        elif kind == "socket":
            x, y = socket.socketpair()
            self.fd, self.other = x.detach(), y.detach()
        elif kind == "tty":
            self.other, self.fd = pty.openpty()
            attributes = termios.tcgetattr(self.fd)
            attributes[1] &= ~termios.OPOST  # output as it is
            attributes[3] &= ~termios.ECHO
            termios.tcsetattr(self.fd, termios.TCSANOW, attributes)
            self.attributes = termios.tcgetattr(self.fd)
        else:
            self.fd = os.open("/dev/null", os.O_RDWR)
        self.fds = [self.fd] + ([self.other] if kind in ("pipe", "socket", "tty") else [])
        self.flags = fcntl.fcntl(self.fd, fcntl.F_GETFL)
        if kind in ("pipe", "socket", "tty"):
            os.set_blocking(self.other, False)
        self.flagsOther = [fcntl.fcntl(f, fcntl.F_GETFL) for f in self.fds]

    def collect(self, c):
        if self.kind in ("pipe", "socket", "tty"):
            self.reader = True
            c.register(self.other, select.EPOLLIN and 1, self.onData)

    def onData(self, mask):
        try:
            data = os.read(self.other, 1 << 17)
        except OSError:
            return
        self.got += data

    def check(self, what):
        flags = fcntl.fcntl(self.fd, fcntl.F_GETFL)
        if flags != self.flags:
            raise Violation("the flags of the open file (%s) that is the client's %s changed from %o to %o" % (self.kind, what, self.flags, flags))
        if self.kind == "tty":
            if termios.tcgetattr(self.fd) != self.attributes:
                raise Violation("the settings of the terminal (%s) changed" % what)

    def content(self):
        if self.path:
            return open(self.path, "rb").read()
        return bytes(self.got)

    def progress(self):
        """The number of bytes that were written to it."""
        if self.kind == "append":
            return os.fstat(self.fd).st_size - len(self.head) - len(self.tail)
        if self.path:
            return os.lseek(self.fd, 0, 1) - len(self.head)
        return len(self.got)

    def close(self):
        for f in self.fds:
            try:
                os.close(f)
            except OSError:
                pass
        self.fds = []


def subsequences(data, parts):
    """Tests if data is an interleaving of the parts, each made of its own byte values."""
    owner = {}
    for i, p in enumerate(parts):
        for x in set(p):
            if x in owner:
                raise AssertionError("byte values are not distinct")
            owner[x] = i
    out = [bytearray() for _ in parts]
    for x in data:
        if x not in owner:
            return None
        out[owner[x]].append(x)
    return out


def own(i, d):
    """The data of stream i with byte values of its own (16 of them), without those a terminal would treat specially."""
    base = 64 + 16 * i
    return bytes(base + (x & 15) for x in blob(*d)) if d[1] else b""


def run(case, env):
    labels = []
    if "huge" in case:
        return huge(case, env)
    with Case(env) as c:
        port, dead = env.port(), env.port()
        while dead == port:
            dead = env.port()
        text = wholeConfig(port, ["kv-cmd " + sq(c.agent), "kv-missing /nonexistent/x", "[dead:%d]" % dead, "kv-dead x"], timeout=5000)
        home, temporary, cwd = c.path("home"), c.path("tmp"), c.path("conf", "cwd")
        for d in (home, temporary, c.path("conf"), cwd, c.path("sconf"), c.path("sconf", "cwd")):
            os.mkdir(d)
        sconf = c.file("sconf/conf", text)
        conf = c.file("conf/conf", text)
        bad = c.file("conf/bad", "x" + text)
        deadConf = c.file("conf/dead", text.replace("5000", "20"))
        c.file("conf/cwd/file", "something")
        watched = [home, temporary, c.path("conf"), c.path("sconf"), c.bin]
        c.server(sconf, port=port)
        if case["readonly"]:
            for d in (cwd, home, temporary, c.path("conf")):
                os.chmod(d, 0o555)
            for f in (conf, bad, deadConf):
                os.chmod(f, 0o444)

        def tree():
            out = {}
            for d in watched:
                for root, dirs, files in os.walk(d):
                    for n in dirs + files:
                        p = os.path.join(root, n)
                        s = os.lstat(p)
                        out[p] = (s.st_mode, s.st_ino, s.st_mtime_ns, s.st_size)
            for d in ("/tmp", "/dev/shm", "/var/tmp"):
                for n in os.listdir(d) if os.path.isdir(d) else ():
                    p = os.path.join(d, n)
                    try:
                        if os.lstat(p).st_uid == os.getuid():
                            out[p] = "there"
                    except OSError:
                        pass  # of another worker, and gone meanwhile
            return out

        def processes():
            out = set()
            for d in os.listdir("/proc"):
                if d.isdigit():
                    try:
                        if os.stat("/proc/" + d).st_uid == os.getuid() and procState(int(d)) not in ("Z", "X", None):
                            out.add(int(d))
                    except OSError:
                        pass
            return out
        runs = case["runs"]
        together = case["together"] and len(runs) > 1 and all(r["end"] == "exit" for r in runs)
        if together:
            labels.append("together")
        stdin = Shared(c, case["one"] or case["stdin"], "in", case["prior"], False)
        if case["one"]:
            labels.append("one-" + case["one"])
            stdout = stderr = stdin
        else:
            stdout = Shared(c, case["stdout"], "out", case["prior"], True)
            stderr = stdout if case["stderr"] == "same" else Shared(c, case["stderr"], "err", case["prior"], True)
        for s in {id(x): x for x in (stdout, stderr)}.values():
            s.collect(c)
        labels += ["in-" + stdin.kind, "out-" + stdout.kind]
        if stderr is stdout:
            labels.append("same")
        # Further descriptors the clients inherit: one end of a pipe that contains something
        tokensR, tokensW = os.pipe()
        c.closers += [lambda: os.close(tokensR), lambda: os.close(tokensW)]
        tokens = blob("rand", case["tokens"], 1)
        os.write(tokensW, tokens) if tokens else None
        high = []
        for i, n in enumerate(case["extra"]):
            if not os.path.exists("/proc/self/fd/%d" % n):
                os.dup2((tokensR, tokensW)[i % 2], n, inheritable=True)
                high.append(n)
                c.closers.append(lambda n=n: os.close(n))
        tokenFlags = [fcntl.fcntl(f, fcntl.F_GETFL) for f in (tokensR, tokensW)]
        # The clients are members of a process group that another process leads
        leader = c.proc(["sleep", "1000"], exe="/bin/sleep", session=False, pre=os.setpgrp, stdout="null", stderr="null")
        before, processesBefore = tree(), processes()
        wantOut, wantErr = [], []

        def launch(r):
            end = r["end"]
            return c.client({"unknown": "kv-unknown", "missing": "kv-missing", "noserver": "kv-dead"}.get(end, "kv-cmd"), ["x"], config={"badconf": bad, "noserver": deadConf}.get(end, conf), mode=r["mode"],
                            exe=env.bins["k8psh_shim"] if case["shim"] else None, env={"K8V_SHIM": case["shim"] or "", "HOME": home, "TMPDIR": temporary},
                            cwd=cwd, stdin=("fd", stdin.fd), stdout=("fd", stdout.fd), stderr=("fd", stderr.fd), passFds=tuple(high),
                            session=False, pre=lambda: os.setpgid(0, leader.pid))

        def serve(i, r, p, a):
            """One exchange; returns after the output has been written."""
            if os.getsid(p.pid) != os.getsid(0) or os.getpgid(p.pid) != leader.pid:
                raise Violation("the client moved to another session or process group")
            out, err = own(2 * i, r["out"]), own(2 * i + 1, r["err"])
            if stdin.kind in ("pipe", "socket", "tty") and not together:
                data = own(2 * i, r["in"])[:3000]
                if stdin.kind == "tty":
                    data += b"\n"
                c.op(a.poll(0), agent=a)
                at = 0
                while at < len(data):
                    # A terminal takes a limited line
                    part = data[at:at + 1000] + (b"\n" if stdin.kind == "tty" and at + 1000 < len(data) else b"")
                    os.write(stdin.other, part)
                    diff(part, c.op(a.read(len(part)), "the command gets its input", a)[1], "input")
                    at += 1000
            # stderr == stdout: one after the other, since the order of two streams is not specified
            c.op(a.write(1, out), "the command writes", a)
            wantOut.append(out)
            if not together:
                c.wait(lambda: stdout.progress() >= expectedOut() or p.rc is not None, "output arrives")
            c.op(a.write(2, err), "the command writes", a)
            wantErr.append(err)
            if r["end"] in ("kill", "int", "term"):
                c.wait(arrived, "output arrives before the client is killed")
            return out, err

        def expectedOut():
            return sum(map(len, wantOut)) + (sum(map(len, wantErr)) if stderr is stdout else 0)

        def arrived():
            if stdout.kind != "null" and stdout.progress() < expectedOut():
                return False
            return stderr is stdout or stderr.kind == "null" or stderr.progress() >= sum(map(len, wantErr))
        failures = 0
        if together:
            batch = []
            for i, r in enumerate(runs):
                p = launch(r)
                batch.append((i, r, p, c.waitAgent(p)))
            for i, r, p, a in batch:
                a.write(1, own(2 * i, r["out"]))
                a.write(2, own(2 * i + 1, r["err"]))
                a.exit(r["exit"])
                wantOut.append(own(2 * i, r["out"]))
                wantErr.append(own(2 * i + 1, r["err"]))
            for i, r, p, a in batch:
                c.wait(lambda: p.rc is not None, "the client exits")
                if p.rc != r["exit"]:
                    raise Violation("a client exited with status %s instead of %d" % (p.rc, r["exit"]))
        else:
            for i, r in enumerate(runs):
                end = r["end"]
                p = launch(r)
                if end in ("unknown", "missing", "badconf", "noserver"):
                    labels.append("failed")
                    failures += 1
                    c.wait(lambda: p.rc is not None, "a client that cannot run its command exits")
                    if p.rc == 0:
                        raise Violation("a client that cannot run its command exited with status 0")
                    continue
                try:
                    a = c.waitAgent(p)
                except Violation as e:
                    c.idle(0.02)
                    raise Violation("%s %r" % (e, stderr.content()[-300:]))
                if end == "early":  # the command is gone before anything is read
                    a.exit(r["exit"])
                    c.wait(lambda: p.rc is not None, "the client exits")
                    if p.rc != r["exit"]:
                        raise Violation("a client exited with status %s instead of %d" % (p.rc, r["exit"]))
                else:
                    serve(i, r, p, a)
                    if end == "exit":
                        a.exit(r["exit"])
                        c.wait(lambda: p.rc is not None, "the client exits")
                        if p.rc != r["exit"]:
                            raise Violation("a client exited with status %s instead of %d" % (p.rc, r["exit"]))
                    elif end == "signal":
                        labels.append("abnormal")
                        failures += 1
                        a.signal(signal.SIGKILL)
                        c.wait(lambda: p.rc is not None, "the client exits when its command was killed")
                    else:
                        labels.append("abnormal")
                        a.termExpected = True
                        p.kill({"kill": 9, "int": 2, "term": 15}[end])
                        c.wait(lambda: p.rc is not None and a.gone, "the client ends when it is killed, and its command too")
                for s, name in ((stdin, "standard input"), (stdout, "standard output"), (stderr, "standard error")):
                    s.check(name)
        c.wait(lambda: processes() <= processesBefore, "no process remains of the clients and their commands")
        for s, name in ((stdin, "standard input"), (stdout, "standard output"), (stderr, "standard error")):
            s.check(name)
        c.waitQuiet(arrived, 5)
        c.idle(0.005)

        def verify(s, parts, name, messages):
            """messages: text of failing clients may be in between, so only the order of the commands' own bytes is compared."""
            if s.kind == "null":
                return
            got = s.content()
            if s.path:
                if s.kind == "append":
                    diff(s.head + s.tail, got[:len(s.head) + len(s.tail)], "what was in the file (append mode) before and now, %s" % name)
                    got = got[len(s.head) + len(s.tail):]
                else:
                    total = sum(map(len, parts))
                    diff(s.head, got[:len(s.head)], "what was in the file before its position and now, %s" % name)
                    if not messages:
                        rest = (s.head + s.tail)[len(s.head) + total:]
                        diff(rest, got[len(s.head) + total:], "what was in the file after the output and now, %s" % name)
                        position = os.lseek(s.fd, 0, 1)
                        if position != len(s.head) + total:
                            raise Violation("the position of the file (%s) is %d instead of %d" % (name, position, len(s.head) + total))
                    got = got[len(s.head):]
                    if not messages:
                        got = got[:total]
            if messages:
                return
            if together:
                split = subsequences(got, parts)
                if split is None:
                    raise Violation("there are bytes in the client's %s that nobody wrote" % name)
                for want, have in zip(parts, split):
                    diff(want, bytes(have), "the output of one of several clients with the same %s" % name)
            else:
                diff(b"".join(parts), got, "the commands' output and the clients' common %s" % name)
        messages = failures > 0
        if stderr is stdout:
            parts = [x for pair in zip(wantOut, wantErr) for x in pair]
            verify(stdout, parts, "output", messages)
        else:
            verify(stdout, wantOut, "output", False)
            verify(stderr, wantErr, "error", messages)
        if [fcntl.fcntl(f, fcntl.F_GETFL) for f in (tokensR, tokensW)] != tokenFlags:
            raise Violation("the flags of an inherited pipe changed")
        os.set_blocking(tokensR, False)
        try:
            left = os.read(tokensR, 1000)
        except BlockingIOError:
            left = b""
        diff(tokens, left, "the contents of a pipe the client inherited, before and after")
        after = tree()
        changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        if changed:
            raise Violation("the client created, changed or removed %r" % changed)
    return labels


def nontrivial(case, labels):
    return "huge" in case or bool(set(labels) & {"together", "same", "abnormal", "failed", "one-socket", "one-tty", "in-file", "in-rdwr", "in-tty", "out-file", "out-append", "out-tty"}) or len(case["runs"]) > 1
