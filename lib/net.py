"""Protocol messages, raw connections (fake client / fake server) and a proxy, all on the case's event loop."""
import selectors, socket, struct

WORKING_DIRECTORY, ENVIRONMENT, ARGUMENT, START, STDIN, STDOUT, STDERR, TERMINATE, EXIT = range(9)


def msg(kind, payload=b""):
    return bytes([kind]) + struct.pack("<I", len(payload)) + payload


def exitMsg(code):
    return bytes([EXIT]) + struct.pack("<I", code & 0xffffffff)


def parse(data, directionFromClient):
    """Splits a byte stream into (kind, payload) messages; returns (messages, rest)."""
    out, at = [], 0
    while len(data) - at >= 5:
        kind, n = data[at], struct.unpack_from("<I", data, at + 1)[0]
        if kind == EXIT or kind == TERMINATE:
            out.append((kind, n))
            at += 5
            continue
        if kind > 8 or len(data) - at - 5 < n:
            break
        out.append((kind, bytes(data[at + 5:at + 5 + n])))
        at += 5 + n
    return out, bytes(data[at:])


def reset(sock):
    """Closes the connection with a reset."""
    sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    sock.close()


class Conn:
    """A raw connection."""

    def __init__(self, case, sock, cap=None):
        self.case, self.sock = case, sock
        sock.setblocking(False)
        sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.inbuf, self.outbuf = bytearray(), bytearray()
        self.eof = False
        self.wasReset = False
        self.closed = False
        self.reading = True
        self.splits = None     # cyclic list of write sizes
        self.splitAt = 0
        case.register(sock, selectors.EVENT_READ, self.onEvent)
        case.closers.append(self.close)

    @classmethod
    def connect(cls, case, port):
        s = socket.socket()
        s.connect(("127.0.0.1", port))
        return cls(case, s)

    def onEvent(self, mask):
        if mask & selectors.EVENT_WRITE:
            self.flush()
        if mask & selectors.EVENT_READ and not self.closed:
            try:
                data = self.sock.recv(1 << 18)
            except BlockingIOError:
                return
            except OSError:
                data = b""
                self.wasReset = True
            if not data:
                self.eof = True
                self.update()
            self.inbuf += data

    def update(self):
        if self.closed:
            return
        mask = (selectors.EVENT_READ if self.reading and not self.eof else 0) | (selectors.EVENT_WRITE if self.outbuf else 0)
        self.case.modify(self.sock, mask)

    def flush(self):
        if self.closed:
            return
        try:
            while self.outbuf:
                n = len(self.outbuf)
                if self.splits:
                    n = self.splits[self.splitAt % len(self.splits)] or n
                    self.splitAt += 1
                n = self.sock.send(memoryview(self.outbuf)[:min(n, 1 << 18)])
                del self.outbuf[:n]
                if self.splits and self.splitAt > 2000:
                    self.splits = None
        except BlockingIOError:
            pass
        except OSError:
            self.outbuf.clear()
            self.wasReset = True
        self.update()

    def send(self, data):
        self.outbuf += data
        self.flush()

    def shutdown(self):
        try:
            self.sock.shutdown(socket.SHUT_WR)
        except OSError:
            pass

    def close(self, rst=False):
        if self.closed:
            return
        self.closed = True
        self.case.unregister(self.sock)
        if rst:
            reset(self.sock)
        else:
            self.sock.close()

    def pauseReading(self):
        self.reading = False
        self.update()

    def resumeReading(self):
        self.reading = True
        self.update()

    def messages(self):
        return parse(self.inbuf, False)[0]

    # server messages as seen by a fake client

    def collect(self):
        """(stdout, stderr, exit code or None, other messages)"""
        out, err, code, other = bytearray(), bytearray(), None, []
        for kind, payload in self.messages():
            if kind == STDOUT:
                out += payload
            elif kind == STDERR:
                err += payload
            elif kind == EXIT:
                code = payload
            else:
                other.append((kind, payload))
        return bytes(out), bytes(err), code, other


class Listener:
    """A fake server: accepts connections as Conn objects."""

    def __init__(self, case, port, backlog=16):
        self.case = case
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(("127.0.0.1", port))
        self.sock.listen(backlog)
        self.sock.setblocking(False)
        self.conns = []
        self.onConn = None
        case.register(self.sock, selectors.EVENT_READ, self.onAccept)
        case.closers.append(self.close)
        self.closed = False

    def onAccept(self, mask):
        try:
            s, _ = self.sock.accept()
        except (BlockingIOError, ConnectionAbortedError):
            return
        conn = Conn(self.case, s)
        self.conns.append(conn)
        if self.onConn:
            self.onConn(conn)

    def close(self):
        if not self.closed:
            self.closed = True
            self.case.unregister(self.sock)
            self.sock.close()


class Proxy:
    """Forwards connections to the real server in generated pieces, optionally cutting them.

    up / down: cyclic lists of piece sizes (0: everything available) for client->server / server->client
    delay: every how many pieces to let the loop run on (pieces are forwarded one per loop step)
    cut: (direction "up"/"down", bytes after which to cut, "fin"/"rst"/"half")
    """

    def __init__(self, case, port, target, up=(0,), down=(0,), cut=None, gapMs=0):
        self.case, self.target = case, target
        self.plan = {"up": list(up) or [0], "down": list(down) or [0]}
        self.cut = cut
        self.gap = gapMs
        self.pairs = []
        self.cutDone = False
        self.listener = Listener(case, port)
        self.listener.onConn = self.onConn
        self.passed = {"up": 0, "down": 0}
        self.record = {"up": bytearray(), "down": bytearray()}
        self.busy = False

    def onConn(self, client):
        server = Conn.connect(self.case, self.target)
        pair = {"client": client, "server": server, "n": {"up": 0, "down": 0}, "fin": {"up": False, "down": False}}
        self.pairs.append(pair)
        for conn, direction, other in ((client, "up", server), (server, "down", client)):
            original = conn.onEvent

            def onEvent(mask, conn=conn, direction=direction, other=other, original=original, pair=pair):
                original(mask)
                self.pump(pair, conn, direction, other)
            self.case.unregister(conn.sock)
            conn.onEvent = onEvent
            self.case.register(conn.sock, selectors.EVENT_READ, onEvent)

    def pump(self, pair, conn, direction, other):
        import time
        pieces = 0
        while conn.inbuf and not other.closed and not self.cutDone:
            plan = self.plan[direction]
            n = plan[pair["n"][direction] % len(plan)] if pair["n"][direction] < 1500 else 0
            pair["n"][direction] += 1
            n = min(n or len(conn.inbuf), len(conn.inbuf))
            if self.cut and self.cut[0] == direction:
                left = self.cut[1] - self.passed[direction]
                n = min(n, left)
            if n > 0:
                piece = bytes(conn.inbuf[:n])
                del conn.inbuf[:n]
                self.record[direction] += piece
                self.passed[direction] += n
                # Push the piece out by itself
                other.send(piece)
                pieces += 1
                if self.gap and pieces % 2 and pair["n"][direction] < 100:
                    time.sleep(self.gap / 1000.0)
            if self.cut and self.cut[0] == direction and self.passed[direction] >= self.cut[1]:
                self.doCut(pair)
                return
        if conn.eof and not conn.inbuf and not pair["fin"][direction] and not other.closed:
            pair["fin"][direction] = True
            if conn.wasReset:
                other.close(rst=True)
            elif not other.outbuf:
                other.shutdown()
                if pair["fin"]["up"] and pair["fin"]["down"]:
                    conn.close()
                    other.close()
            else:
                pair["fin"][direction] = False

    def doCut(self, pair):
        self.cutDone = True
        mode = self.cut[2]
        for conn in (pair["client"], pair["server"]):
            conn.flush()
            conn.close(rst=mode == "rst")
        self.listener.close()


def request(command, args=(), cwd=b"", env=()):
    """What a client sends first."""
    return msg(WORKING_DIRECTORY, cwd) + b"".join(msg(ARGUMENT, x) for x in args) + b"".join(msg(ENVIRONMENT, x) for x in env) + msg(START, command)


def rawStart(case, port, command, args=(), cwd=b"", env=(), extra=b""):
    """A fake client that has requested the command (extra is sent in the same go)."""
    conn = Conn.connect(case, port)
    conn.send(request(command, args, cwd, env) + extra)
    return conn
