"""C20: the client obeys the server's message stream and nothing else."""
import os
from hypothesis import strategies as st
from lib import gen, net
from lib.engine import Violation
from lib.h import Case, b, blob, diff, sq

ID = "C20"
LEVEL = "exploration"
ARTIFACTS = ["k8psh", "k8psh_shim", "agent"]
EXAMPLES = {"quick": 450, "thorough": 8000}
RULE = ("Each case runs the real client against a scripted server that sends a generated sequence of messages (data of any size for both streams, repeated and interleaved closing of streams, closing of the input) in generated pieces and pauses, ended by an exit code, a disconnect, a reset, a message cut anywhere, an unknown or misdirected message, or data for a closed stream, possibly followed by more; the client's input is fed meanwhile. "
        "Oracle: the outputs are exactly the payloads received before the end, streams are closed when told, exit status is the announced one, at once, else abnormal; the client's own stream parses into one directory, the arguments, the granted variables, one start, the input, one end marker. Non-trivial: at least two messages before the end, or an abnormal end.")


def strategy(env):
    message = st.one_of(st.tuples(st.just("out"), gen.data(env, 150000, 1)), st.tuples(st.just("err"), gen.data(env, 150000, 1)), st.tuples(st.just("out"), gen.data(env, 30, 1)), st.tuples(st.just("err"), gen.data(env, 30, 1)),
                        st.tuples(st.sampled_from(["outclose", "errclose", "inclose"])), st.tuples(st.sampled_from(["pause", "in", "slow", "sync"]), gen.data(env, 100000, 1))).map(list)
    end = st.one_of(st.tuples(st.just("exit"), gen.exitCodes), st.tuples(st.just("exit"), gen.exitCodes), st.tuples(st.just("exit"), gen.exitCodes), st.tuples(st.just("fin")), st.tuples(st.just("rst")),
                    st.tuples(st.just("kind"), st.one_of(st.sampled_from([0, 1, 2, 3, 7, 9, 10, 16, 127, 128, 255]), st.integers(9, 255)), st.sampled_from([0, 1, 5, 100])),
                    st.tuples(st.just("cut"), st.sampled_from(["out", "err", "exit", "in", "outclose"]), st.integers(1, 70000), st.integers(0, 70000)),
                    st.tuples(st.just("reopen"), st.sampled_from(["out", "err"]), gen.data(env, 3000, 1))).map(list)
    piece = st.one_of(st.integers(1, 20), st.integers(1, 70000), st.just(0), st.just(0))
    return st.fixed_dictionaries({
        "messages": st.lists(message, max_size=8), "end": end, "pieces": st.lists(piece, min_size=1, max_size=6), "after": st.sampled_from(["", "", "out", "garbage", "exit"]),
        "args": st.lists(gen.argText(env), max_size=4), "env": st.lists(st.tuples(st.sampled_from(["A", "B", "C", "D"]), st.sampled_from(["req", "opt", "inh"]), st.one_of(st.none(), gen.rawBytes())).map(list), max_size=4, unique_by=lambda e: e[0]),
        "dir": st.sampled_from(["", "d", "d/e f"]), "stdin": st.sampled_from(["pipe", "pipe", "null", "socket"]), "shim": gen.shimPlan(env, 4), "eof": st.booleans(), "name": gen.commandName(),
    })


def directed(env):
    # Single messages that are longer than any buffer
    base = {"pieces": [0], "after": "", "args": [], "env": [], "dir": "", "stdin": "pipe", "shim": None, "eof": False, "name": "kv-cmd"}
    return [dict(base, messages=[["out", ["rand", 20000000, 1]], ["err", ["rand", 30, 1]]], end=["exit", 3]),
            dict(base, messages=[["err", ["rand", 17000000, 1]], ["out", ["rand", 30, 1]], ["outclose"], ["err", ["count", 1500000, 3]]], end=["exit", 0]),
            dict(base, messages=[["out", ["count", 5000000, 1]], ["err", ["rand", 5000000, 1]]], end=["cut", "out", 9000000, 8000000])]


def run(case, env):
    labels = [case["end"][0]]
    with Case(env) as c:
        port = env.port()
        base = c.path("base")
        os.makedirs(os.path.join(base, "d/e f"))
        prefix = {"req": "", "opt": "?", "inh": "="}
        conf = c.file("conf", "baseDirectory = %s\nconnectTimeoutMs = 5000\n[x:%d]\n%s %s %s\n" % (sq(base), port, case["name"], " ".join("%s%s=" % (prefix[k], n) for n, k, v in case["env"]), sq("/bin/exe") + " conf-arg"))
        listener = net.Listener(c, port)
        args = [b(a) for a in case["args"]]
        environment = {n: b(v) for n, k, v in case["env"] if v is not None}
        environment["OTHER"] = "never"
        if case["shim"]:
            environment["K8V_SHIM"] = case["shim"]
        p = c.client(case["name"], args, config=conf, env=environment, cwd=os.path.join(base, case["dir"]), stdin=case["stdin"], exe=env.bins["k8psh_shim"] if case["shim"] is not None else None)
        c.wait(lambda: listener.conns or p.rc is not None, "the client connects")
        if not listener.conns:
            raise Violation("the client ended (status %s): %r" % (p.rc, bytes(p.err[-300:])))
        conn = listener.conns[0]
        conn.splits = [x for x in case["pieces"]]
        c.wait(lambda: any(m[0] == net.START for m in net.parse(conn.inbuf, True)[0]) or p.rc is not None, "the client requests the command")
        out, err, sent = bytearray(), bytearray(), bytearray()
        closed = set()
        inClosed = False
        eofSent = case["stdin"] == "null"

        def flushed():
            c.wait(lambda: not conn.outbuf or p.rc is not None, "the client reads what the server sends")

        def alive():
            if p.rc is not None:
                raise Violation("the client ended (status %s) without having been told to: %r" % (p.rc, bytes(p.err[-300:])))
        for m in case["messages"]:
            if m[0] in ("out", "err"):
                if m[0] in closed:
                    continue
                d = blob(*m[1])
                if m[0] == "out":
                    out += d
                else:
                    err += d
                conn.send(net.msg(net.STDOUT if m[0] == "out" else net.STDERR, d))
            elif m[0] in ("outclose", "errclose"):
                closed.add(m[0][:3])
                conn.send(net.msg(net.STDOUT if m[0] == "outclose" else net.STDERR))
            elif m[0] == "inclose":
                inClosed = True
                conn.send(net.msg(net.STDIN))
            elif m[0] == "pause":
                flushed()
                c.idle(0.01)
            elif m[0] == "in":
                if p.inFd is not None and not p.inClosing:
                    sent += blob(*m[1])
                    p.send(blob(*m[1]))
            elif m[0] == "slow":
                conn.pauseReading()
                c.idle(0.005)
                conn.resumeReading()
            else:
                flushed()
                c.wait(lambda: (len(p.out) >= len(out) and len(p.err) >= len(err)) or p.rc is not None, "the client outputs what it received")
                alive()
                diff(bytes(out), bytes(p.out), "payloads and the client's stdout")
                diff(bytes(err), bytes(p.err), "payloads and the client's stderr")
                for name in closed:
                    c.wait(lambda: p.outEof if name == "out" else p.errEof, "the client closes the stream it was told to close")
                if "out" not in closed and p.outEof or "err" not in closed and p.errEof:
                    raise Violation("the client closed a stream it was not told to close")
                labels.append("sync")
        if case["eof"] and p.inFd is not None:
            p.closeStdin()
            eofSent = True
        if eofSent and not inClosed:
            c.wait(lambda: p.rc is not None or any(m == (net.STDIN, b"") for m in net.parse(conn.inbuf, True)[0]), "the client sends the end of its input")
        alive()
        if case["end"][0] != "exit" or case["end"][0] == "exit" and not inClosed and not eofSent:
            # All input arrives while the client is running
            if not inClosed:
                c.wait(lambda: p.rc is not None or len(b"".join(x for k, x in net.parse(conn.inbuf, True)[0] if k == net.STDIN)) >= len(sent), "the client's input arrives at the server")
        e = case["end"]
        trailing = {"": b"", "out": net.msg(net.STDOUT, b"late") + net.msg(net.STDERR, b"late"), "garbage": b"\xff" * 20, "exit": net.exitMsg(7)}[case["after"]]
        code = None
        exact = True
        if e[0] == "exit":
            code = e[1]
            conn.send(net.exitMsg(code) + trailing)
        elif e[0] == "fin":
            flushed()
            conn.close()
            exact = eofSent and not inClosed  # closing with unread data resets the connection
        elif e[0] == "rst":
            flushed()
            conn.close(rst=True)
            exact = False
        elif e[0] == "kind":
            conn.send(bytes([e[1]]) + e[2].to_bytes(4, "little") + b"z" * e[2] + trailing)
        elif e[0] == "cut":
            m = {"out": net.msg(net.STDOUT, b"c" * e[2]), "err": net.msg(net.STDERR, b"c" * e[2]), "exit": net.exitMsg(0), "in": net.msg(net.STDIN), "outclose": net.msg(net.STDOUT)}[e[1]]
            m = m[:max(1, min(e[3], len(m) - 1))]
            if e[1] in closed:
                pass
            conn.send(m)
            flushed()
            conn.shutdown()
            exact = None if e[1] in ("out", "err") else True
        elif e[0] == "reopen":
            if e[1] not in closed:
                conn.send(net.msg(net.STDOUT if e[1] == "out" else net.STDERR))
            conn.send(net.msg(net.STDOUT if e[1] == "out" else net.STDERR, blob(*e[2])) + (net.exitMsg(0) if case["after"] == "exit" else b""))
        c.finish(p, "the client ends at once (%s)" % e[0], late=None if "dsend" in (case["shim"] or "") or "drecv" in (case["shim"] or "") else 3)
        if code is not None:
            if p.rc != code:
                raise Violation("the client exited with %s, the announced code is %d" % (p.rc, code))
        elif p.rc == 0:
            raise Violation("the client exited with 0 although no exit code arrived (%s)" % e[0])
        errOut = bytes(p.err)
        if code is not None:
            diff(bytes(out), bytes(p.out), "payloads and the client's stdout")
            diff(bytes(err), errOut, "payloads and the client's stderr")
        else:
            # The client may report its failure after the payloads; a reset may lose what was not yet read
            cut = b"c" * e[2] if e[0] == "cut" and e[1] == "out" else b""
            cutErr = b"c" * e[2] if e[0] == "cut" and e[1] == "err" else b""
            if exact is False:
                if not bytes(out).startswith(bytes(p.out)):
                    raise Violation("the client's stdout is not what was received")
                n = 0
                while n < min(len(err), len(errOut)) and err[n] == errOut[n]:
                    n += 1
            else:
                if not (bytes(p.out).startswith(bytes(out)) and (bytes(out) + cut).startswith(bytes(p.out))):
                    diff(bytes(out), bytes(p.out), "payloads and the client's stdout")
                if not errOut.startswith(bytes(err)):
                    diff(bytes(err), errOut, "payloads and the client's stderr")
        # What the client sent
        conn.onEvent(1) if not conn.closed and not conn.eof else None
        messages, rest = net.parse(conn.inbuf, True)
        kinds = [k for k, x in messages]
        if any(k not in (net.WORKING_DIRECTORY, net.ENVIRONMENT, net.ARGUMENT, net.START, net.STDIN) for k in kinds) or (rest and rest[0] not in (net.STDIN,)):
            raise Violation("the client sent a malformed stream: kinds %r, rest %r" % (kinds[:20], rest[:20]))
        if rest and code is None and not inClosed and e[0] == "exit":
            raise Violation("the client's stream ends within a message: %r" % rest[:20])
        start = kinds.index(net.START)
        before, after = messages[:start], messages[start + 1:]
        if [x for k, x in before if k == net.ARGUMENT] != args:
            raise Violation("the client sent arguments %r, expected %r" % ([x for k, x in before if k == net.ARGUMENT], args))
        dirs = [x for k, x in before if k == net.WORKING_DIRECTORY]
        if len(dirs) != 1 or os.path.normpath(b"/" + dirs[0]) != os.path.normpath(b"/" + case["dir"].encode()):
            raise Violation("the client sent directories %r, expected %r" % (dirs, case["dir"]))
        wanted = sorted((n.encode() + b"=" + b(v)) for n, k, v in case["env"] if v is not None and k != "inh")
        if sorted(x for k, x in before if k == net.ENVIRONMENT) != wanted:
            raise Violation("the client sent variables %r, expected %r" % (sorted(x for k, x in before if k == net.ENVIRONMENT), wanted))
        if messages[start][1] != b(case["name"]):
            raise Violation("the client requested %r" % messages[start][1])
        if any(k != net.STDIN for k in kinds[start + 1:]) or any(k == net.STDIN for k in kinds[:start]):
            raise Violation("the client sent messages in a wrong order: %r" % kinds[:20])
        data = b"".join(x for k, x in after)
        if not bytes(sent).startswith(data):
            diff(bytes(sent), data, "the client's input and what it sent")
        ends = [i for i, (k, x) in enumerate(after) if not x]
        if len(ends) > 1 or (ends and ends[0] != len(after) - 1):
            raise Violation("the client sent data or another end marker after its end marker")
        if ends and not eofSent and not inClosed:
            raise Violation("the client sent the end marker although its input is open")
        if eofSent and not inClosed and not rest:
            diff(bytes(sent), data, "the client's input and what it sent")
            if not ends:
                raise Violation("the client did not send the end marker")
        if code is None:
            labels.append("abnormal")
        if len(case["messages"]) > 1:
            labels.append("several")
    return labels


def nontrivial(case, labels):
    return "abnormal" in labels or "several" in labels
