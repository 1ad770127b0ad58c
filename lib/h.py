"""Process harness: scratch cases, servers, clients and agents, driven by one event loop."""
import errno, os, pty, selectors, shutil, signal, socket, stat, struct, subprocess, termios, time, tty

from .engine import Hang, HarnessError, Late, Violation, killAll


def b(s):
    """Case data is JSON: byte strings are kept as str with one character per byte."""
    return s.encode("latin-1")


def u(s):
    return s.decode("latin-1")


def blob(kind, n, seed=0):
    """Deterministic test data of n bytes."""
    if n <= 0:
        return b""
    if kind == "zero":
        return bytes(n)
    if kind == "ff":
        return b"\xff" * n
    if kind == "text":
        line = ("line %d of some text\n" % seed).encode()
        return (line * (n // len(line) + 1))[:n]
    if kind == "crlf":
        return (b"a\r\nb\r\n\x1a\x04\x00" * (n // 9 + 1))[:n]
    if kind == "proto":  # looks like protocol messages
        unit = b"".join(bytes([t]) + struct.pack("<I", l) for t in (8, 5, 4, 7, 3, 6, 0, 255) for l in (0, 1, 65535, 0xffffffff))
        return (unit * (n // len(unit) + 1))[seed % 5:][:n] if n < len(unit) * (n // len(unit) + 1) - 5 else (unit * (n // len(unit) + 2))[seed % 5:][:n]
    if kind == "count":
        m = (n + 3) // 4
        return struct.pack("<%dI" % m, *range(seed, seed + m))[:n]
    import random
    return random.Random(seed * 7919 + n).randbytes(n)


KINDS = ["rand", "count", "zero", "ff", "text", "crlf", "proto"]


def diff(expected, actual, what):
    if expected == actual:
        return
    n = min(len(expected), len(actual))
    at = next((i for i in range(n) if expected[i] != actual[i]), n)
    raise Violation("%s differ at byte %d: expected %d bytes (...%r...), got %d bytes (...%r...)" % (
        what, at, len(expected), bytes(expected[max(0, at - 8):at + 24]), len(actual), bytes(actual[max(0, at - 8):at + 24])))


def sq(s):
    """A configuration string denoting the bytes s (str with one char per byte, no NUL), single quoted."""
    return "'" + s.replace("'", "''") + "'"


class Op:
    __slots__ = ("kind", "done", "value")

    def __init__(self, kind):
        self.kind, self.done, self.value = kind, False, None


class Agent:
    """A running remote command, controlled through its socket."""

    def __init__(self, case, sock):
        self.case, self.sock = case, sock
        self.inbuf = bytearray()
        self.outbuf = bytearray()
        self.ops = []
        self.terms = []       # signals reported
        self.gone = False     # control socket closed (the process has ended)
        self.hello = None
        self.termExpected = False
        self.killed = False   # by us
        sock.setblocking(False)
        case.register(sock, selectors.EVENT_READ, self.onEvent)

    def onEvent(self, mask):
        if mask & selectors.EVENT_WRITE:
            self.flush()
        if mask & selectors.EVENT_READ:
            try:
                data = self.sock.recv(1 << 20)
            except BlockingIOError:
                return
            except ConnectionResetError:
                data = b""
            if not data:
                self.gone = True
                self.goneAt = time.monotonic()
                self.case.unregister(self.sock)
                self.sock.close()
                return
            self.inbuf += data
            while len(self.inbuf) >= 5:
                n = struct.unpack_from("<I", self.inbuf, 1)[0]
                if len(self.inbuf) < 5 + n:
                    break
                kind = chr(self.inbuf[0])
                payload = bytes(self.inbuf[5:5 + n])
                del self.inbuf[:5 + n]
                self.onMessage(kind, payload)

    def onMessage(self, kind, payload):
        if kind == "H":
            self.parseHello(payload)
        elif kind == "T":
            self.terms.append(payload[0])
            self.termAt = time.monotonic()
            if not self.termExpected and not self.case.termsExpected:
                self.case.problems.append("the remote command received signal %d although its client was still there" % payload[0])
        else:
            op = self.ops.pop(0)
            if op.kind != kind:
                raise HarnessError("agent answered %s to %s" % (kind, op.kind))
            if kind in "WEF":
                op.value = struct.unpack("<II", payload)
            elif kind in "GV":
                op.value = struct.unpack("<QI", payload)
            elif kind in "PO":
                op.value = struct.unpack("<I", payload)[0]
            elif kind == "R":
                op.value = (struct.unpack_from("<I", payload)[0], payload[5:])
            elif kind == "I":
                op.value = payload
            op.done = True

    def parseHello(self, p):
        at = 0

        def num():
            nonlocal at
            v = struct.unpack_from("<I", p, at)[0]
            at += 4
            return v

        def string():
            nonlocal at
            n = num()
            s = p[at:at + n]
            at += n
            return s
        self.pid, self.ppid = num(), num()
        self.argv = [string() for _ in range(num())]
        self.environ = [string() for _ in range(num())]
        self.cwd = string()
        self.fds = [(num(), num(), num()) for _ in range(num())]
        self.hello = True

    def flush(self):
        try:
            while self.outbuf:
                n = self.sock.send(memoryview(self.outbuf)[:1 << 18])
                del self.outbuf[:n]
        except BlockingIOError:
            pass
        except (BrokenPipeError, ConnectionResetError):
            self.outbuf.clear()
        if not self.gone:
            self.case.modify(self.sock, selectors.EVENT_READ | (selectors.EVENT_WRITE if self.outbuf else 0))

    def op(self, kind, payload=b"", reply=True):
        op = Op(kind)
        if reply:
            self.ops.append(op)
        if not self.gone:
            self.outbuf += kind.encode() + struct.pack("<I", len(payload)) + payload
            self.flush()
        return op

    def write(self, fd, data, chunk=0):
        return self.op("W", struct.pack("<BI", fd, chunk) + data)

    def writeUntilInput(self, fd, data):
        return self.op("F", bytes([fd]) + data)

    def generate(self, fd, total, data):
        return self.op("G", struct.pack("<BQ", fd, total) + data)

    def verify(self, data):
        return self.op("V", data)

    def read(self, n, chunk=0, delay=0):
        return self.op("R", struct.pack("<III", n, chunk, delay))

    def readAll(self, chunk=0, delay=0):
        return self.read(0xfffffff0, chunk, delay)

    def close(self, fd):
        return self.op("C", bytes([fd]))

    def poll(self, timeout=0):
        return self.op("P", struct.pack("<I", timeout))

    def pollOut(self, fd, timeout=0):
        return self.op("O", struct.pack("<BI", fd, timeout))

    def context(self):
        return self.op("I")

    def sleep(self, us):
        return self.op("S", struct.pack("<I", us))

    def mode(self, m):
        return self.op("M", bytes([m]))

    def echo(self, fd=1, chunk=0):
        return self.op("E", struct.pack("<BI", fd, chunk))

    def exit(self, code):
        return self.op("X", bytes([code]), reply=False)

    def leave(self, code):
        """The process exits with the code, and a child that shares its descriptors takes its place."""
        return self.op("Y", bytes([code]))

    def signal(self, sig):
        return self.op("K", bytes([sig]), reply=False)


class Proc:
    """A child process of the harness with optional pipes."""

    def __init__(self, case, args, exe=None, cwd=None, env=None, stdin="null", stdout="pipe", stderr="pipe", closed=(), session=True, pausedOut=False, lostCwd=False, pre=None, passFds=()):
        self.case = case
        self.out, self.err = bytearray(), bytearray()
        self.outEof = stdout != "pipe"
        self.errEof = stderr != "pipe"
        self.rc = None
        self.inBuf = bytearray()
        self.inClosing = False
        self.inBroken = False
        self.inFd = None
        self.killedByUs = False
        fds, ours = {}, []
        self.files = {}

        def std(spec, number, read):
            if spec == "pipe":
                r, w = os.pipe()
                ours.append((number, w if read else r))
                fds[number] = r if read else w
            elif spec == "socket":
                x, y = socket.socketpair()
                ours.append((number, x.detach()))
                fds[number] = y.detach()
            elif spec == "tty":  # output as it is; input in lines, its end is a ^D
                end, fds[number] = pty.openpty()
                tty.setraw(fds[number])
                if read:
                    self.inTty = True
                    attributes = termios.tcgetattr(fds[number])
                    attributes[3] |= termios.ICANON
                    attributes[6] = [b"\0"] * len(attributes[6])
                    attributes[6][termios.VEOF] = b"\4"
                    termios.tcsetattr(fds[number], termios.TCSANOW, attributes)
                ours.append((number, end))
            elif spec == "null":
                fds[number] = os.open("/dev/null", os.O_RDONLY if read else os.O_WRONLY)
            elif spec == "closed":
                fds[number] = None
            elif isinstance(spec, tuple) and spec[0] == "file":  # ("file", path)
                fds[number] = os.open(spec[1], os.O_RDONLY if read else os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            elif isinstance(spec, tuple) and spec[0] == "fd":  # ("fd", descriptor of the caller)
                fds[number] = os.dup(spec[1])
            elif isinstance(spec, tuple) and spec[0] == "dup":
                fds[number] = os.dup(fds[spec[1]])
            else:
                raise HarnessError("unknown stream %r" % (spec,))
        std(stdin, 0, True)
        std(stdout, 1, False)
        std(stderr, 2, False)
        if stdout in ("socket", "tty"):
            self.outEof = False
        if stderr in ("socket", "tty"):
            self.errEof = False
        closedFds = [n for n in (0, 1, 2) if fds[n] is None]

        def popen():
            kw = dict(executable=exe, cwd=cwd, env=env, close_fds=True, start_new_session=session, pass_fds=passFds)
            if lostCwd:  # its working directory exists no longer when it starts
                return subprocess.Popen(args, stdin=fds[0], stdout=fds[1], stderr=fds[2], preexec_fn=lambda: os.rmdir(os.getcwdb()), **kw)
            if not closedFds:
                return subprocess.Popen(args, stdin=fds[0], stdout=fds[1], stderr=fds[2], preexec_fn=pre, **kw)

            def closing():
                for n in closedFds:
                    os.close(n)
                if pre:
                    pre()
            tmp = os.open("/dev/null", os.O_RDWR)
            try:
                return subprocess.Popen(args, stdin=fds[0] if fds[0] is not None else tmp, stdout=fds[1] if fds[1] is not None else tmp,
                                        stderr=fds[2] if fds[2] is not None else tmp, preexec_fn=closing, **kw)
            finally:
                os.close(tmp)
        try:
            self.popen = popen()
        finally:
            for n in (0, 1, 2):
                if fds[n] is not None:
                    os.close(fds[n])
        self.pid = self.popen.pid
        self.pidfd = os.pidfd_open(self.pid)
        case.register(self.pidfd, selectors.EVENT_READ, self.onExit)
        self.paused = set()
        self.fdOf = {}
        for number, fd in ours:
            os.set_blocking(fd, False)
            self.fdOf[number] = fd
            if number == 0:
                self.inFd = fd
                case.register(fd, 0, self.onStdin)
            elif pausedOut and number in (pausedOut if isinstance(pausedOut, (set, list, tuple)) else (1, 2)):
                self.paused.add(number)
                case.register(fd, 0, lambda mask, n=number: self.onOut(n))
            else:
                case.register(fd, selectors.EVENT_READ, lambda mask, n=number: self.onOut(n))

    # -- events

    def onExit(self, mask):
        self.case.unregister(self.pidfd)
        os.close(self.pidfd)
        self.rc = self.popen.wait()
        self.exitAt = time.monotonic()

    def onOut(self, number, limit=1 << 18):
        fd = self.fdOf.get(number)
        if fd is None:
            return
        try:
            data = os.read(fd, limit)
        except BlockingIOError:
            return
        except ConnectionResetError:
            data = b""
        except OSError as e:
            if e.errno != errno.EIO:  # (the end of a terminal)
                raise
            data = b""
        if not data:
            self.case.unregister(fd)
            os.close(fd)
            del self.fdOf[number]
            if number == 1:
                self.outEof = True
            else:
                self.errEof = True
            return
        if self.sink:
            self.sink(number, data)
        elif number == 1:
            self.out += data
        else:
            self.err += data

    def onStdin(self, mask):
        self.flush()

    # -- actions

    def flush(self):
        if self.inFd is None:
            return
        try:
            while self.inBuf:
                n = os.write(self.inFd, memoryview(self.inBuf)[:self.inChunk or (1 << 17)])
                del self.inBuf[:n]
        except BlockingIOError:
            pass
        except (BrokenPipeError, ConnectionResetError):
            self.inBuf.clear()
            self.inBroken = True
            self.inClosing = True
        if not self.inBuf and self.inClosing:
            self.case.unregister(self.inFd)
            os.close(self.inFd)
            self.inFd = None
        else:
            self.case.modify(self.inFd, selectors.EVENT_WRITE if self.inBuf else 0)

    inChunk = 0
    sink = None  # takes the output instead of out and err
    inTty = False
    inPartial = False

    def send(self, data):
        self.inBuf += data
        if data:
            self.inPartial = not data.endswith(b"\n")
        self.flush()

    def closeStdin(self):
        if self.inTty:  # (the terminal stays)
            self.send(b"\4\4" if self.inPartial else b"\4")
            return
        self.inClosing = True
        self.flush()

    def pause(self, number):
        if number in self.fdOf and number not in self.paused:
            self.paused.add(number)
            self.case.modify(self.fdOf[number], 0)

    def resume(self, number):
        if number in self.paused:
            self.paused.discard(number)
            if number in self.fdOf:
                self.case.modify(self.fdOf[number], selectors.EVENT_READ)

    def closeOut(self, number):
        fd = self.fdOf.pop(number, None)
        if fd is not None:
            self.case.unregister(fd)
            os.close(fd)

    def kill(self, sig=signal.SIGKILL):
        self.killedByUs = True
        try:
            os.kill(self.pid, sig)
        except ProcessLookupError:
            pass

    @property
    def done(self):
        return self.rc is not None and self.outEof and self.errEof

    def cpu(self):
        """Processor time used so far, in seconds."""
        return cpuTime(self.pid)


class Case:
    """A scratch directory, an event loop and everything started for one generated case."""

    def __init__(self, env):
        self.env = env
        self.root = os.path.join(env.scratch, "c%d" % env.caseNumber)
        self.sel = selectors.DefaultSelector()
        self.problems = []
        self.agents = []
        self.procs = []
        self.servers = []
        self.closers = []
        self.spawned = False
        self.taken = 0
        self.termsExpected = False

    def __enter__(self):
        shutil.rmtree(self.root, ignore_errors=True)
        os.mkdir(self.root)
        self.bin = os.path.join(self.root, "b")
        os.mkdir(self.bin)
        self.agent = os.path.join(self.bin, "agent")
        os.link(self.env.bins["agent"], self.agent)
        self.listener = socket.socket(socket.AF_UNIX)
        self.listener.bind(os.path.join(self.bin, "ctl.sock"))
        self.listener.listen(128)
        self.listener.setblocking(False)
        self.register(self.listener, selectors.EVENT_READ, self.onAgent)
        return self

    def __exit__(self, kind, value, tb):
        try:
            for key in list(self.sel.get_map().values()):
                try:
                    self.sel.unregister(key.fileobj)
                except (KeyError, ValueError):
                    pass
            self.sel.close()
            if self.spawned:
                killAll()
            for p in self.procs:
                if p.rc is None:
                    try:
                        os.close(p.pidfd)
                    except OSError:
                        pass
                    p.popen.wait()
                for n, fd in list(p.fdOf.items()):
                    try:
                        if n != 0 or p.inFd is not None:
                            os.close(fd)
                    except OSError:
                        pass
            for a in self.agents:
                if not a.gone:
                    a.sock.close()
            self.listener.close()
            for c in self.closers:
                try:
                    c()
                except OSError:
                    pass
        finally:
            try:
                shutil.rmtree(self.root)
            except OSError:
                subprocess.call(["/bin/chmod", "-R", "u+rwx", self.root])
                shutil.rmtree(self.root, ignore_errors=True)
        if kind is None and self.problems:
            raise Violation("; ".join(self.problems[:3]))
        return False

    # -- event loop

    def register(self, f, mask, callback):
        if mask:
            self.sel.register(f, mask, callback)
        else:
            self.parked = getattr(self, "parked", {})
            self.parked[f if isinstance(f, int) else f.fileno()] = callback

    def modify(self, f, mask):
        parked = getattr(self, "parked", {})
        fd = f if isinstance(f, int) else f.fileno()
        if fd in parked:
            if mask:
                self.sel.register(f, mask, parked.pop(fd))
            return
        try:
            key = self.sel.get_key(f)
        except KeyError:
            return
        if mask:
            if key.events != mask:
                self.sel.modify(f, mask, key.data)
        else:
            self.sel.unregister(f)
            self.parked = parked
            parked[fd] = key.data

    def unregister(self, f):
        fd = f if isinstance(f, int) else f.fileno()
        if getattr(self, "parked", {}).pop(fd, None) is None:
            try:
                self.sel.unregister(f)
            except (KeyError, ValueError):
                pass

    def onAgent(self, mask):
        try:
            s, _ = self.listener.accept()
        except BlockingIOError:
            return
        self.agents.append(Agent(self, s))

    def step(self, timeout):
        for key, mask in self.sel.select(timeout):
            key.data(mask)

    def wait(self, condition, what, timeout=None, problems=True, late=None):
        """Runs the loop until condition() holds; Hang if it does not within the time allowed, Late if it took more than `late` seconds on a machine that is not busy."""
        begin = time.monotonic()
        end = begin + (timeout or self.env.hang)
        poll = 0.002  # some conditions come without an event
        while True:
            if condition():
                if late and time.monotonic() - begin > late:
                    took = time.monotonic() - begin
                    calm = time.monotonic()
                    subprocess.call(["/bin/true"])
                    if time.monotonic() - calm < 0.3:
                        raise Late("took %.1f s: %s" % (took, what))
                return
            if problems and self.problems:
                raise Violation("; ".join(self.problems[:3]))
            left = end - time.monotonic()
            if left <= 0:
                break
            self.step(min(left, poll))
            poll = min(poll * 1.5, 0.1)
        raise Hang("did not happen within %.0f s: %s" % (timeout or self.env.hang, what))

    def waitQuiet(self, condition, timeout):
        """Runs the loop until condition() or the timeout; returns condition()."""
        end = time.monotonic() + timeout
        poll = 0.002
        while not condition():
            left = end - time.monotonic()
            if left <= 0:
                return bool(condition())
            self.step(min(left, poll))
            poll = min(poll * 1.5, 0.1)
        return True

    def idle(self, seconds):
        end = time.monotonic() + seconds
        while True:
            left = end - time.monotonic()
            if left <= 0:
                return
            self.step(left)

    # -- building blocks

    def path(self, *parts):
        return os.path.join(self.root, *parts)

    def file(self, name, content):
        p = self.path(name)
        with open(p, "wb") as f:
            f.write(content if isinstance(content, bytes) else b(content))
        return p

    def proc(self, *args, **kw):
        self.spawned = True
        p = Proc(self, *args, **kw)
        self.procs.append(p)
        return p

    def client(self, command, args=(), config=None, env=None, cwd=None, mode="stub", exe=None, **kw):
        """Starts a client: mode "stub" (invoked under the command's name), "c", "long", "eq" (k8psh with a config option)."""
        exe = exe or self.env.bins["k8psh"]
        e = dict(env or {})
        args = [os.fsencode(x) if isinstance(x, str) else x for x in args]
        command = b(command) if isinstance(command, str) else command
        if mode == "stub":
            e.setdefault("K8PSH_CONFIG", config)
            argv = [command] + args
        elif mode == "stubpath":
            e.setdefault("K8PSH_CONFIG", config)
            argv = [b"/some/dir/" + command] + args
        elif mode == "env":
            e.setdefault("K8PSH_CONFIG", config)
            argv = [b"k8psh", command] + args
        elif mode == "c":
            argv = [b"/x/k8psh", b"-c", os.fsencode(config), command] + args
        elif mode == "long":
            argv = [b"k8psh", b"--config", os.fsencode(config), command] + args
        else:
            argv = [b"k8psh", b"--config=" + os.fsencode(config), command] + args
        p = self.proc(argv, exe=exe, env=e, cwd=cwd or self.root, **kw)
        return p

    def server(self, config, name="srv", args=(), env=None, cwd=None, port=None, exe=None, argv0="k8pshd", ready=True, **kw):
        exe = exe or self.env.bins["k8psh"]
        kw.setdefault("stdin", "null")
        kw.setdefault("stdout", ("file", self.path("server%d.out" % len(self.servers))))
        kw.setdefault("stderr", ("file", self.path("server%d.err" % len(self.servers))))
        argv = [argv0] + (["--config", config] if config is not None else []) + (["--name", name] if name is not None else []) + list(args)
        argv = [os.fsencode(x) if isinstance(x, str) else x for x in argv]
        p = self.proc(argv, exe=exe, env=dict(env or {}), cwd=cwd or self.root, **kw)
        p.port = port
        self.servers.append(p)
        if ready and port:
            self.waitReady(p)
        return p

    def waitReady(self, server, timeout=None):
        end = time.monotonic() + (timeout or self.env.hang)
        while server.rc is None and not listening(server.port):
            if time.monotonic() > end:
                raise Hang("the server did not start listening on its port within %.0f s" % (timeout or self.env.hang))
            self.step(0.001)
        if server.rc is None:
            # Client executables and signal handlers come after the listening socket
            end = time.monotonic() + 0.5
            while time.monotonic() < end and server.rc is None and not catches(server.pid, signal.SIGTERM):
                self.step(0.001)
        if server.rc is not None:
            raise Violation("the server ended (status %s) instead of serving: %r" % (server.rc, self.serverLog(server)))

    def serverLog(self, server):
        i = self.servers.index(server)
        out = b""
        for kind in ("out", "err"):
            try:
                out += open(self.path("server%d.%s" % (i, kind)), "rb").read()[-600:]
            except OSError:
                pass
        return out

    def waitAgent(self, client=None, index=None, what="the remote command starts", late=None):
        """Waits for the next agent (by index) to report in."""
        if index is None:
            index = self.taken
            self.taken += 1

        def ready():
            return len(self.agents) > index and self.agents[index].hello
        if client is not None:
            self.wait(lambda: ready() or client.rc is not None, what, late=late)
            if not ready():
                # The agent may have reported between the last loop steps
                self.waitQuiet(ready, 0.05)
            if not ready():
                raise Violation("the client ended (status %s) without the remote command having started: %r" % (client.rc, bytes(client.err[-300:])))
        else:
            self.wait(ready, what)
        return self.agents[index]

    def op(self, op, what="the remote command's operation completes", agent=None, timeout=None):
        self.wait(lambda: op.done or (agent is not None and agent.gone), what, timeout)
        if not op.done:
            raise Violation("the remote command ended unexpectedly (%s)" % what)
        return op.value

    def finish(self, client, what="the client exits after its remote command has ended", timeout=None, late=None):
        self.wait(lambda: client.done, what, timeout, late=late)
        return client.rc


def listening(port):
    """Tests, without connecting, if a socket is listening on the port."""
    s = socket.socket()
    try:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind(("127.0.0.1", port))
        return False
    except OSError as e:
        if e.errno == errno.EADDRINUSE:
            return True
        raise
    finally:
        s.close()


def catches(pid, sig):
    try:
        for line in open("/proc/%d/status" % pid):
            if line.startswith("SigCgt:"):
                return bool(int(line.split()[1], 16) >> (sig - 1) & 1)
    except OSError:
        pass
    return False


def procState(pid):
    try:
        return open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()[0]
    except OSError:
        return None


def cpuTime(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (FileNotFoundError, ProcessLookupError):
        return 0.0


def childrenOf(pid):
    """(pid, state) of the direct children of a process, among the processes we can see."""
    out = []
    try:
        for t in os.listdir("/proc/%d/task" % pid):
            for c in open("/proc/%d/task/%s/children" % (pid, t)).read().split():
                out.append((int(c), procState(int(c))))
    except OSError:
        pass
    return out


def openFds(pid):
    """{fd: target} of one of our own processes, or None if it is gone."""
    out = {}
    try:
        for f in os.listdir("/proc/%d/fd" % pid):
            try:
                out[int(f)] = os.readlink("/proc/%d/fd/%s" % (pid, f))
            except FileNotFoundError:
                pass  # Closed meanwhile
    except (FileNotFoundError, ProcessLookupError):
        return None
    return out


def wholeConfig(port, commands, name="srv", base=None, timeout=8000, options="", hosts=None):
    """Configuration text with one section; commands are ready-made lines."""
    lines = []
    if base is not None:
        lines.append("baseDirectory = " + sq(base))
    lines.append("connectTimeoutMs = %d" % timeout)
    lines.append("[%s:%d] %s" % (name, port, options))
    lines += commands
    return "\n".join(lines) + "\n"
