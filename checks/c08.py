"""C08: data is relayed promptly in both directions and the exchange never stalls."""
import fcntl, os, signal, time
from hypothesis import strategies as st
from lib import gen
from lib.engine import Hang, Violation
from lib.h import Case, blob, childrenOf, diff, sq, wholeConfig

ID = "C08"
LEVEL = "exploration"
ARTIFACTS = ["k8psh", "k8psh_shim", "agent"]
EXAMPLES = {"quick": 90, "thorough": 2000}
RULE = ("Each case is a generated dialogue: steps that send an amount to the client's input and require the command to read exactly that before anything else happens, steps in which the command writes and the client's output must show it before anything else happens, "
        "floods of input the command does not read yet (output must go on), pairs of small pieces, bursts that are there completely when the client (the server) gets to read them, commands that write without end until they get their input while their output is read slowly, stalled output streams resumed later, long idle times (enumerated: 33 s, thorough 130 s, in each state of the exchange, and beyond the connect timeout), and the end of the command with the client's input open or closed; both processes stay alive and nothing is closed in between. Optional system-call plans without delays. "
        "Oracle: every step completes with exactly its data; no direction is systematically slow (the fastest of at least five steps under 0.4 s, that of 30 pairs of small pieces under 25 ms). Non-trivial: at least two steps with different directions.")


def strategy(env):
    full = st.tuples(st.sampled_from(["rand", "count"]), st.one_of(st.sampled_from([65535, 65536, 8187, 8192, 131070, 131072, 196605]), gen.sizes(env, 200000, 1)), st.integers(0, 9)).map(list)
    step = st.one_of(
        st.tuples(st.just("in"), gen.data(env, 70000, 1)), st.tuples(st.just("in"), gen.data(env, 20, 1)),
        st.tuples(st.just("out"), gen.data(env, 140000, 1), st.sampled_from([1, 1, 2])), st.tuples(st.just("out"), gen.data(env, 20, 1), st.sampled_from([1, 1, 2])),
        st.tuples(st.just("flood"), gen.data(env, 600000, 1)), st.tuples(st.just("floodOut"), st.tuples(st.sampled_from(["rand", "count"]), st.integers(100000, 900000), st.integers(0, 9)).map(list), gen.data(env, 140000, 1), st.sampled_from([1, 2])), st.tuples(st.just("drain")), st.tuples(st.just("pause"), st.sampled_from([1, 2])), st.tuples(st.just("close"), st.sampled_from([0, 1, 2])),
        st.tuples(st.just("idle"), st.sampled_from([1, 10])),
        # All of it is there when the client (the server) gets to read it
        st.tuples(st.just("steady"), st.sampled_from([1, 1, 2]), gen.data(env, 70000, 1), gen.data(env, 300, 1), st.integers(4, 12)),
        st.tuples(st.just("pieces"), st.sampled_from(["in", "out"])), st.tuples(st.just("burst"), full), st.tuples(st.just("outBurst"), full, st.sampled_from([1, 2])),
    ).map(list)
    pingpong = st.tuples(st.integers(5, 40), gen.data(env, 300, 1), gen.data(env, 300, 1), st.sampled_from([1, 2])).map(lambda t: [x for i in range(t[0]) for x in (["in", t[1]], ["out", t[2], t[3]])])
    return st.fixed_dictionaries({"debug": gen.rarely,
        "steps": st.one_of(st.lists(step, max_size=12), st.lists(step, max_size=12), pingpong), "end": st.sampled_from(["open", "open", "eof"]), "exit": gen.exitCodes,
        "in": st.sampled_from(["pipe", "pipe", "socket"]), "out": st.sampled_from(["pipe", "socket"]), "cshim": gen.shimPlan(env), "sshim": gen.shimPlan(env),
    })


def directed(env):
    # Nothing happens for longer than any timeout one could think of, in each state of the exchange
    base = {"end": "open", "exit": 5, "in": "pipe", "out": "pipe", "cshim": None, "sshim": None, "steps": []}
    long = ["idle", 33000 if env.tier == "quick" else 130000]
    some, much = ["rand", 100, 1], ["rand", 1400000, 2]
    talk = [["in", some], ["out", some, 1]]
    return [
        {"exchanges": 70000, "fd": 1 + env.seed % 2},
        dict(base, steps=[["pieces", "in"]]), dict(base, steps=[["pieces", "out"]]), dict(base, steps=[["pieces", "out"], ["pieces", "in"]], out="socket", **{"in": "socket"}),
        dict(base, ct=200, steps=talk + [["idle", 1000]] + talk + [["close", 1], ["idle", 1000], ["in", some]]),
        dict(base, ct=0, steps=talk + [["idle", 300]] + talk, end="eof"),
        dict(base, ct=30000, steps=talk + [long] + talk),  # (the default)
        dict(base, ct=3000, steps=[["pause", 1], ["out", much, 1], long] + talk),
        dict(base, steps=[["pause", 2], ["out", much, 2], ["flood", ["rand", 6000000, 2]], long] + talk),
        dict(base, steps=[["flood", ["rand", 6000000, 2]], long, ["drain"]] + talk),
        dict(base, ct=20000, steps=talk + [["close", 1], ["close", 2], long, ["in", some]]),
        dict(base, steps=[["close", 0], ["close", 2], long, ["out", some, 1]]),
    ]


def noDelay(plan):
    if plan is None:
        return None
    return " ".join(x for x in plan.split(" ") if not x.startswith("d"))


def inTransit(port):
    """The number of bytes in the connections of a port."""
    n = 0
    for line in open("/proc/net/tcp").read().splitlines()[1:]:
        x = line.split()
        if x[3] == "01" and "%04X" % port in (x[1][-4:], x[2][-4:]):
            n += sum(int(y, 16) for y in x[4].split(":"))
    return n


def exchanges(case, env):
    """So many exchanges of one byte that no counter of messages is left out."""
    with Case(env) as c:
        port = env.port()
        conf = c.file("conf", wholeConfig(port, ["kv-cmd " + sq(c.agent)]))
        c.server(conf, port=port)
        p = c.client("kv-cmd", config=conf, stdin="pipe")
        a = c.waitAgent(p)
        op = a.echo(case["fd"])
        buf = p.out if case["fd"] == 1 else p.err
        for i in range(case["exchanges"]):
            p.send(b"x" if i % 3 else b"y")
            c.wait(lambda: len(buf) > i or p.rc is not None, "exchange %d completes" % i)
            if len(buf) != i + 1 or buf[i] != (120 if i % 3 else 121):
                raise Violation("exchange %d is answered by %r (client's status %s)" % (i, bytes(buf[i:i + 50]), p.rc))
        p.closeStdin()
        c.op(op, agent=a)
        a.exit(4)
        if c.finish(p) != 4:
            raise Violation("the client exited with %s, the command with 4" % p.rc)
    return ["many exchanges", "two-way"]


def run(case, env):
    if "exchanges" in case:
        return exchanges(case, env)
    labels = []
    with Case(env) as c:
        port = env.port()
        conf = c.file("conf", wholeConfig(port, ["kv-cmd " + sq(c.agent)], timeout=case.get("ct", 8000)))
        shimmed = env.bins["k8psh_shim"]
        cs, ss = noDelay(case["cshim"]), noDelay(case["sshim"])
        server = c.server(conf, port=port, exe=shimmed if ss is not None else None, env={"K8V_SHIM": ss or "", **gen.debug(case)})
        p = c.client("kv-cmd", config=conf, stdin=case["in"], stdout=case["out"], exe=shimmed if cs is not None else None, env={"K8V_SHIM": cs or ""})
        a = c.waitAgent(p, late=3)
        sent, read = bytearray(), 0
        wrote = {1: bytearray(), 2: bytearray()}
        paused, closed, pendingWrites = set(), set(), []
        latency = {"in": [], "out": []}
        directions = set()
        flood = 0

        def shown(n):
            return p.out if n == 1 else p.err

        def drain():
            nonlocal read
            n = len(sent) - read
            if n and 0 not in closed:
                status, d = c.op(a.read(n), "the command reads what was sent to it, everything still open", a)
                diff(bytes(sent[read:read + n]), d, "the client's input and what the command read")
                if status:
                    raise Violation("the command got end-of-file or an error (%d) while the client's input is open" % status)
                read += n

        def resume():
            for n in list(paused):
                p.resume(n)
                paused.discard(n)
            for o in pendingWrites:
                c.op(o, "the command's write completes once its output is consumed", a)
            pendingWrites.clear()
        for s in case["steps"]:
            if p.rc is not None:
                raise Violation("the client ended (status %s) in the middle of the dialogue: %r" % (p.rc, bytes(p.err[-300:])))
            t0 = time.monotonic()
            if s[0] == "burst":
                if 0 in closed:
                    continue
                if paused:
                    resume()
                drain()
                try:
                    fcntl.fcntl(p.inFd, 1031, 1 << 18)  # F_SETPIPE_SZ
                except OSError:
                    pass
                os.kill(p.pid, signal.SIGSTOP)
                sent += blob(*s[1])
                p.send(blob(*s[1]))
                c.waitQuiet(lambda: not p.inBuf, 0.02)
                os.kill(p.pid, signal.SIGCONT)
                drain()
                labels.append("burst")
            elif s[0] == "outBurst":
                handlers = [x[0] for x in childrenOf(server.pid)]
                if s[2] in closed or len(handlers) != 1:
                    continue
                if paused:
                    resume()
                wrote[s[2]] += blob(*s[1])
                os.kill(handlers[0], signal.SIGSTOP)
                o = a.write(s[2], blob(*s[1]))
                c.waitQuiet(lambda: o.done, 0.02)
                os.kill(handlers[0], signal.SIGCONT)
                c.wait(lambda: len(shown(s[2])) >= len(wrote[s[2]]) or p.rc is not None, "what the command wrote becomes readable from the client, everything still open")
                c.op(o, "the command's write completes", a)
                labels.append("burst")
            elif s[0] == "steady":
                if s[1] in closed or 0 in closed or s[1] not in p.fdOf:
                    continue
                if paused:
                    resume()
                drain()
                # The command goes on writing until it gets its input, and the reader of the output is the slowest part
                d = blob(*s[2]) * (70000 // s[2][1] + 1)
                p.pause(s[1])
                o = a.writeUntilInput(s[1], d)
                begin = last = time.monotonic()
                asked, most, look = None, 0, begin
                while not o.done and p.rc is None:
                    now = time.monotonic()
                    if now > look:
                        look, most = now + 0.1, max(most, inTransit(port))
                    if now > begin + 0.1 and asked is None:
                        asked = len(shown(s[1]))
                        sent += blob(*s[3])
                        p.send(blob(*s[3]))
                    if asked is not None and len(shown(s[1])) > asked + 2 * most + 3000000:
                        raise Violation("the command does not get its input as long as it writes output (%d more bytes)" % (len(shown(s[1])) - asked))
                    if now > last + env.hang:
                        raise Hang("there is neither output nor does the command get its input")
                    if now > begin + 15:
                        return labels + ["slow"]
                    n = len(shown(s[1]))
                    p.onOut(s[1], 65536)
                    if len(shown(s[1])) > n:
                        last = now
                    c.idle(max(0.0005, begin + len(shown(s[1])) / s[4] / 1e6 - now) if s[1] in p.fdOf else 0.001)
                p.resume(s[1])
                total, error = c.op(o, agent=a)
                if error:
                    raise Violation("writing fails with error %d" % error)
                wrote[s[1]] += (d * (total // len(d) + 1))[:total]
                c.wait(lambda: len(shown(s[1])) >= len(wrote[s[1]]) or p.rc is not None, "what the command wrote becomes readable from the client, everything still open")
                drain()
                labels.append("steady")
            elif s[0] == "in":
                if 0 in closed:
                    continue
                if paused:
                    resume()
                sent += blob(*s[1])
                p.send(blob(*s[1]))
                drain()
                latency["in"].append(time.monotonic() - t0)
                directions.add("in")
            elif s[0] == "out" or s[0] == "floodOut":
                if s[0] == "floodOut":
                    s = ["out"] + s[2:] + [s[1]]
                    if 0 not in closed and flood <= 3:
                        # Much input is on its way that the command does not read
                        flood += 1
                        sent += blob(*s[3])
                        p.send(blob(*s[3]))
                        c.waitQuiet(lambda: not p.inBuf, 1)
                        c.idle(0.02)
                        labels.append("flood")
                        t0 = time.monotonic()
                if s[2] in closed:
                    continue
                d = blob(*s[1])
                if paused:
                    if s[2] not in paused or sum(map(len, wrote.values())) - len(p.out) - len(p.err) + len(d) > 1500000:
                        resume()
                    else:
                        wrote[s[2]] += d
                        pendingWrites.append(a.write(s[2], d))
                        labels.append("stalled")
                        continue
                wrote[s[2]] += d
                o = a.write(s[2], d)
                c.wait(lambda: len(shown(s[2])) >= len(wrote[s[2]]) or p.rc is not None, "what the command wrote becomes readable from the client, everything still open")
                c.op(o, "the command's write completes", a)
                latency["out"].append(time.monotonic() - t0)
                directions.add("out")
            elif s[0] == "flood":
                if 0 in closed or flood > 3:
                    continue
                flood += 1
                sent += blob(*s[1])
                p.send(blob(*s[1]))
                labels.append("flood")
            elif s[0] == "pieces":
                if closed or cs or ss:
                    continue
                resume()
                drain()
                # Small pieces right after each other (once the connection is in a steady state)
                fastest = []
                for i in range(50):
                    # (also something in the other direction, before and after)
                    for again in range(2):
                        if s[1] == "out":
                            sent += b"x"
                            read += 1
                            p.send(b"x")
                            c.op(a.read(1), "the command reads what was sent to it, everything still open", a)
                        else:
                            wrote[1] += b"x"
                            c.op(a.write(1, b"x"), agent=a)
                            c.wait(lambda: len(shown(1)) >= len(wrote[1]) or p.rc is not None, "what the command wrote becomes readable from the client, everything still open")
                    begin = time.monotonic()
                    if s[1] == "out":
                        ops = [a.write(n, b"a") for n in (1, 2)]
                        wrote[1] += b"a"
                        wrote[2] += b"a"
                        c.wait(lambda: len(shown(1)) >= len(wrote[1]) and len(shown(2)) >= len(wrote[2]) or p.rc is not None, "what the command wrote becomes readable from the client, everything still open")
                    else:
                        ops = [a.read(2)]
                        sent += b"ab"
                        read += 2
                        p.send(b"a")
                        c.idle(0.002)
                        p.send(b"b")
                    for o in ops:
                        c.op(o, agent=a)
                    if s[1] == "in":
                        diff(b"ab", ops[0].value[1], "the client's input and what the command read")
                    if i >= 20:
                        fastest.append(time.monotonic() - begin)
                    if len(fastest) >= 5 and min(fastest) < 0.015:
                        break
                if min(fastest) > 0.025:
                    raise Violation("every one of %d pairs of small pieces took at least %.0f ms (%s)" % (len(fastest), min(fastest) * 1000, s[1]))
                labels.append("pieces")
            elif s[0] == "drain":
                if paused:
                    resume()
                drain()
            elif s[0] == "pause":
                if s[1] not in closed:
                    p.pause(s[1])
                    paused.add(s[1])
            elif s[0] == "close":
                if paused:
                    resume()
                if s[1] not in closed and len(closed) < 2:
                    if s[1] == 0:
                        drain()
                    closed.add(s[1])
                    c.op(a.close(s[1]), agent=a)
                    if s[1]:
                        c.wait(lambda: p.outEof if s[1] == 1 else p.errEof, "the client closes the stream its command closed")
                        labels.append("close")
            else:
                c.idle(s[1] / 1000)
        resume()
        if case["end"] == "eof":
            p.closeStdin()
            if 0 not in closed:
                status, d = c.op(a.readAll(), "the command reads end-of-file", a)
                diff(bytes(sent[read:]), d, "the client's input and what the command read")
        a.exit(case["exit"])
        c.finish(p, "the client exits after its command ended (client input %s)" % case["end"], late=3)
        diff(bytes(wrote[1]), bytes(p.out), "the command's stdout and the client's")
        diff(bytes(wrote[2]), bytes(p.err), "the command's stderr and the client's")
        if p.rc != case["exit"]:
            raise Violation("the client exited with %s, the command with %d" % (p.rc, case["exit"]))
        for d, l in latency.items():
            if len(l) >= 5 and min(l) > 0.4:
                raise Violation("every one of %d %sput steps took at least %.2f s" % (len(l), d, min(l)))
    labels += ["steps-%s" % d for d in directions] + ["two-way"] * (len(directions) == 2) + ["long-dialogue"] * (len(case["steps"]) > 20)
    return labels


def nontrivial(case, labels):
    return "two-way" in labels
