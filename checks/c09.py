"""C09: when the client goes away the remote command is told to terminate."""
from hypothesis import strategies as st
from lib import gen, net
from lib.engine import Violation
from lib.h import Case, blob, diff, sq, wholeConfig

ID = "C09"
LEVEL = "fault_enumeration"
ARTIFACTS = ["k8psh", "k8psh_shim", "agent"]
EXAMPLES = {"quick": 130, "thorough": 2500}
RULE = ("Each case brings an exchange into a generated state (amounts of unread input, unconsumed output with a stalled client, streams closed by the command in any combination, end of the client's input, a command that is blocked, sleeping, reading or writing) and then loses the client: "
        "the real client killed by a signal or by a closed output; or a raw connection closed, reset, half-closed (while still reading), cut within a message, or sending the terminate message; another command of the same server runs meanwhile. "
        "Oracle: no signal before the loss, SIGTERM afterwards, and never for the other command, which then completes normally. Non-trivial: data in flight, or a closed stream, or a cut within a message.")

STATE = ["flood", "stall", "close0", "close1", "close2", "eof", "out", "in", "idle"]


def strategy(env):
    step = st.one_of(
        st.tuples(st.just("flood"), gen.data(env, 500000, 1)), st.tuples(st.just("flood"), st.tuples(st.sampled_from(["rand", "count"]), st.integers(600000, 9000000), st.integers(0, 9)).map(list)), st.tuples(st.just("in"), gen.data(env, 30000, 1)), st.tuples(st.just("out"), gen.data(env, 100000, 1), st.sampled_from([1, 2])),
        st.tuples(st.just("stall"), gen.data(env, 12000000, 3000000), st.sampled_from([1, 2])), st.tuples(st.just("close"), st.sampled_from([0, 1, 2])), st.tuples(st.just("close"), st.sampled_from([0, 1, 2])),
        st.tuples(st.just("eof")), st.tuples(st.just("idle"), st.sampled_from([1, 20, 300])),
    ).map(list)
    allClosed = st.permutations([0, 1, 2]).map(lambda l: [["close", n] for n in l])
    loss = st.one_of(st.tuples(st.just("kill"), st.sampled_from([9, 9, 15, 2, 1])), st.tuples(st.just("pipe"), st.sampled_from([1, 2])),
                     st.tuples(st.just("fin")), st.tuples(st.just("rst")), st.tuples(st.just("half")), st.tuples(st.just("terminate")),
                     st.tuples(st.just("cut"), st.sampled_from([0, 1, 2, 4, 5, 7]), st.integers(1, 70000), st.integers(1, 70010), st.sampled_from(["fin", "rst"])),
                     st.tuples(st.just("floodclose"), gen.data(env, 300000, 1), st.sampled_from(["fin", "rst"]))).map(list)
    return st.fixed_dictionaries({"debug": gen.rarely,
        "steps": st.one_of(st.lists(step, max_size=5), st.tuples(st.lists(step, max_size=3), allClosed).map(lambda t: t[0] + t[1])),
        "loss": loss, "mode": st.sampled_from([0, 0, 1]), "other": st.booleans(), "sshim": gen.shimPlan(env, 4), "busy": st.sampled_from(["", "read", "sleep"]), "now": st.booleans(),
    })


def run(case, env):
    labels = [case["loss"][0]]
    loss = case["loss"]
    real = loss[0] in ("kill", "pipe")
    with Case(env) as c:
        port = env.port()
        conf = c.file("conf", wholeConfig(port, ["kv-cmd " + sq(c.agent), "kv-other " + sq(c.agent)]))
        plan = case["sshim"]
        if plan is not None:
            plan = " ".join(x for x in plan.split(" ") if not x.startswith("d"))
        c.server(conf, port=port, exe=env.bins["k8psh_shim"] if plan is not None else None, env={"K8V_SHIM": plan or "", **gen.debug(case)})
        other = c.client("kv-other", config=conf, stdin="pipe") if case["other"] else None
        oa = c.waitAgent(other) if other else None
        if real:
            p = c.client("kv-cmd", config=conf, stdin="pipe")
        else:
            p = net.rawStart(c, port, b"kv-cmd")
        a = c.waitAgent(p if real else None)
        c.op(a.mode(case["mode"]), agent=a)
        closed, eof, stalled = set(), False, False
        inflight = 0

        def send(data):
            if real:
                p.send(data)
            else:
                p.send(b"".join(net.msg(net.STDIN, data[i:i + 65535]) for i in range(0, len(data), 65535)))
        for s in case["steps"]:
            if s[0] in ("flood", "in"):
                if eof or 0 in closed:
                    continue
                send(blob(*s[1]))
                if s[0] == "in" and not inflight and not stalled:
                    c.op(a.read(s[1][1]), "the command reads its input", a)
                else:
                    inflight += s[1][1]
                    labels.append("in-flight")
            elif s[0] == "out":
                if s[2] in closed or stalled:
                    continue
                c.op(a.write(s[2], blob(*s[1])), "the command writes", a)
            elif s[0] == "stall":
                if s[2] in closed or stalled or loss[0] in ("half", "pipe"):
                    continue
                stalled = True
                labels.append("stalled")
                if real:
                    p.pause(s[2])
                else:
                    p.pauseReading()
                a.write(s[2], blob(*s[1]))
                c.idle(0.05)
            elif s[0] == "close":
                if not stalled and s[1] not in closed:
                    closed.add(s[1])
                    c.op(a.close(s[1]), agent=a)
                    labels.append("closed")
            elif s[0] == "eof":
                if not eof:
                    eof = True
                    if real:
                        p.closeStdin()
                    else:
                        p.send(net.msg(net.STDIN))
            else:
                c.idle(s[1] / 1000)
        if len(closed) == 3:
            labels.append("all-closed")
        if not stalled and case["busy"] == "read" and 0 not in closed:
            a.readAll()
        elif not stalled and case["busy"] == "sleep":
            a.sleep(20000000)
        if not case["now"]:
            c.idle(0.02)
        if a.gone or a.terms:
            raise Violation("the remote command ended or got a signal %r before its client went away" % a.terms)
        if real and p.rc is not None:
            raise Violation("the client ended by itself (status %s): %r" % (p.rc, bytes(p.err[-300:])))
        # Lose the client
        a.termExpected = True
        if loss[0] == "kill":
            p.kill(loss[1])
        elif loss[0] == "pipe":
            n = loss[1]
            if n in closed or stalled or case["busy"]:
                p.kill(9)
            else:
                p.closeOut(n)
                a.write(n, b"x" * 100)
        elif loss[0] == "fin":
            p.close()
        elif loss[0] == "rst":
            p.close(rst=True)
        elif loss[0] == "half":
            if p.outbuf:
                c.waitQuiet(lambda: not p.outbuf, 5)
            p.shutdown()
        elif loss[0] == "terminate":
            # Behind unread data the message may not arrive, as the server reads on only when the client does
            if stalled:
                p.resumeReading()
            p.send(bytes([net.TERMINATE]) + bytes(4))
        elif loss[0] == "floodclose":
            if not eof:
                send(blob(*loss[1]))
                labels.append("in-flight")
            p.close(rst=loss[2] == "rst")
        elif loss[0] == "cut":
            m = net.msg(net.STDIN, b"q" * loss[2])
            p.send(m[:max(1, min(loss[3] if loss[1] > 5 else loss[1], len(m) - 1))])
            labels.append("cut")
            p.close(rst=loss[4] == "rst")
        c.wait(lambda: 15 in a.terms or a.gone, "the remote command is told to terminate after its client went away (%s)" % loss[0])
        if 15 not in a.terms:
            raise Violation("the remote command ended without receiving SIGTERM")
        if any(t != 15 for t in a.terms):
            raise Violation("the remote command got signals %r" % a.terms)
        if other:
            other.send(b"ping")
            diff(b"ping", c.op(oa.read(4), "the other command goes on", oa)[1], "input of the other command")
            c.op(oa.write(1, b"pong"), agent=oa)
            oa.exit(33)
            c.finish(other, "the other client finishes")
            diff(b"pong", bytes(other.out), "output of the other command")
            if other.rc != 33:
                raise Violation("the other client exited with %s instead of 33" % other.rc)
    return labels


def nontrivial(case, labels):
    return any(l in labels for l in ("in-flight", "stalled", "closed", "cut"))
