"""C01: remote output reaches the client byte for byte."""
import os
from hypothesis import strategies as st
from lib import gen
from lib.engine import Violation
from lib.h import Case, blob, diff, sq, wholeConfig

ID = "C01"
LEVEL = "exploration"
ARTIFACTS = ["k8psh", "k8psh_shim", "agent"]
EXAMPLES = {"quick": 110, "thorough": 2500}
RULE = ("Each case is a generated script of writes (descriptor, content kind, size biased to buffer edges and to integers found in the sources, write size), closes and pauses of the remote command's stdout and stderr, in some cases with the command's end somewhere among them (a process it leaves behind carries on), "
        "with a generated consumer (pipe, socket, file or terminal; paused at first or not), stdin state, invocation mode, exit code and optional system-call plan (partial transfers, EINTR) for client and server; real client and server run it. "
        "Non-trivial: at least two operations writing at least 2 bytes in total; distinct by case.")
ASSUMPTIONS = ["Linux loopback; the command's writes are observed by the command itself"]


def strategy(env):
    op = st.one_of(
        st.tuples(st.just("w"), st.sampled_from([1, 1, 2]), gen.data(env), st.one_of(st.just(0), gen.sizes(env, 70000, 1))),
        st.tuples(st.just("w"), st.sampled_from([1, 2]), gen.data(env, 3000), st.one_of(st.just(0), st.integers(1, 3000))),
        st.tuples(st.just("c"), st.sampled_from([1, 2])),
        st.tuples(st.just("s"), st.sampled_from([0, 500, 3000, 20000])),
        st.tuples(st.just("big"), st.sampled_from([1, 2]), st.tuples(st.sampled_from(["rand", "count"]), st.sampled_from([500000, 1500000, 3000000]), st.integers(0, 9)).map(list), st.just(0)),
    ).map(list)
    few = st.lists(op, min_size=0, max_size=8)
    many = st.lists(st.tuples(st.just("w"), st.sampled_from([1, 2]), gen.data(env, 300), st.integers(0, 20)).map(list), min_size=5, max_size=40)
    ops = st.one_of(few, few, many)
    return st.fixed_dictionaries({"debug": gen.rarely,
        "ops": ops, "exit": gen.exitCodes, "mode": st.sampled_from(["stub", "c", "eq", "long", "stubpath"]),
        "out": st.sampled_from(["pipe", "pipe", "pipe", "socket", "file", "tty"]), "err": st.sampled_from(["pipe", "pipe", "pipe", "socket", "file", "tty"]),
        "pause": st.sampled_from([0, 0, 0, 1, 2, 3]), "stdin": st.sampled_from(["null", "open", "data"]),
        "cshim": gen.shimPlan(env), "sshim": gen.shimPlan(env), "lock": st.booleans(),
        "leave": st.one_of(st.none(), st.none(), st.none(), st.integers(0, 8)), "late": st.sampled_from([0, 0, 30, 300]),
    })


def directed(env):
    # More than any 32 bit counter can hold
    return [{"gigabytes": 4.3 if env.tier == "quick" else 9, "stream": n} for n in (1, 2)]


def huge(case, env):
    total, n = int(case["gigabytes"] * 1e9), case["stream"]
    block = blob("rand", (1 << 20) - 3, 77)
    twice = block * 2
    at, wrong = [0], []
    with Case(env) as c:
        port = env.port()
        conf = c.file("conf", wholeConfig(port, ["kv-cmd " + sq(c.agent)]))
        c.server(conf, port=port)
        p = c.client("kv-cmd", config=conf)

        def sink(number, data):
            if number != n:
                wrong.append("%d bytes come out of stream %d" % (len(data), number))
            elif len(data) > len(block) or twice[at[0] % len(block):][:len(data)] != data:
                wrong.append("the output differs between bytes %d and %d" % (at[0], at[0] + len(data)))
            at[0] += len(data)
        p.sink = sink
        a = c.waitAgent(p)
        op = a.generate(n, total, block)
        while not op.done and not a.gone and not wrong:
            before = at[0]
            c.wait(lambda: op.done or a.gone or wrong or at[0] >= before + 100000000, "output is relayed")
        if not wrong:
            if op.done and op.value != (total, 0):
                raise Violation("the command's writes failed: %s" % (op.value,))
            a.exit(9)
            rc = c.finish(p)
            if rc != 9:
                raise Violation("the client exited with %s, the command with 9" % rc)
            if at[0] != total:
                raise Violation("the command wrote %d bytes, the client %d" % (total, at[0]))
        if wrong:
            raise Violation(wrong[0])
    return ["gigabytes"]


def expected(case):
    out, closed = {1: bytearray(), 2: bytearray()}, set()
    for op in case["ops"]:
        if op[0] in ("w", "big") and op[1] not in closed:
            out[op[1]] += blob(*op[2])
        elif op[0] == "c":
            closed.add(op[1])
    return out


def run(case, env):
    if "gigabytes" in case:
        return huge(case, env)
    labels = []
    with Case(env) as c:
        port = env.port()
        conf = c.file("conf", wholeConfig(port, ["kv-cmd " + sq(c.agent)]))
        shimmed = env.bins["k8psh_shim"]
        c.server(conf, port=port, exe=shimmed if case["sshim"] is not None else None, env={"K8V_SHIM": case["sshim"] or "", **gen.debug(case)})
        kinds = {}
        for n, k in ((1, "out"), (2, "err")):
            kinds[n] = ("file", c.path("f%d" % n)) if case[k] == "file" else case[k]
        paused = {n for n in (1, 2) if case["pause"] & n and not isinstance(kinds[n], tuple)}
        p = c.client("kv-cmd", config=conf, mode=case["mode"], stdin="null" if case["stdin"] == "null" else "pipe", stdout=kinds[1], stderr=kinds[2],
                     exe=shimmed if case["cshim"] is not None else None, env={"K8V_SHIM": case["cshim"] or ""}, pausedOut=paused)
        if case["stdin"] == "data":
            p.send(b"some input that is never read\n")
        a = c.waitAgent(p)
        closed, written = set(), {1: bytearray(), 2: bytearray()}
        pending = []
        lockstep = case["lock"] and not paused
        leave = case.get("leave")
        if leave is not None:
            leave = min(leave, len(case["ops"]))

        def depart():
            # The command ends, but a process it started still holds its output streams
            pending.append((a.leave(case["exit"]), None, ["leave"]))
            if case["late"]:
                pending.append((a.sleep(case["late"] * 1000), None, ["s"]))
            labels.append("left")

        for index, op in enumerate(case["ops"]):
            o = None
            if index == leave:
                depart()
            if op[0] in ("w", "big") and op[1] not in closed:
                d = blob(*op[2])
                o = a.write(op[1], d, op[3] if len(d) <= 4000 * max(op[3], 1) else 0)
                pending.append((o, len(d), op))
                written[op[1]] += d
            elif op[0] == "c" and op[1] not in closed:
                closed.add(op[1])
                o = a.close(op[1])
                pending.append((o, None, op))
            elif op[0] == "s":
                pending.append((a.sleep(op[1]), None, op))
            if lockstep and o is not None:
                c.wait(lambda: o.done or a.gone, "the command's write completes while its output is consumed")
                if op[0] == "c":
                    # The stream closes at the client while the command goes on
                    if kinds[op[1]] in ("pipe", "socket", "tty"):
                        c.wait(lambda: p.outEof if op[1] == 1 else p.errEof, "the client closes its stream after the command closed it")
                        diff(bytes(written[op[1]]), bytes(p.out if op[1] == 1 else p.err), "client stream %d at its close" % op[1])
                        labels.append("close-seen")
        if paused:
            c.idle(0.02)
            for n in paused:
                p.resume(n)
        if leave == len(case["ops"]):
            depart()
        last = pending[-1][0] if pending else a.poll(0)
        c.wait(lambda: last.done or a.gone, "the command's writes complete while its output is consumed")
        a.exit(case["exit"] if leave is None else case["exit"] ^ 21)
        rc = c.finish(p)
        for o, n, op in pending:
            if n is not None and (not o.done or o.value != (n, 0)):
                raise Violation("the command's write of %d bytes to descriptor %d failed: %s" % (n, op[1], o.value))
        got = {1: bytes(p.out), 2: bytes(p.err)}
        for n in (1, 2):
            if isinstance(kinds[n], tuple):
                got[n] = open(kinds[n][1], "rb").read()
        want = expected(case)
        diff(bytes(want[1]), got[1], "the command's stdout and the client's")
        diff(bytes(want[2]), got[2], "the command's stderr and the client's")
        if rc != case["exit"]:
            raise Violation("the client exited with %s, the command with %d" % (rc, case["exit"]))
        total = len(want[1]) + len(want[2])
        labels += ["stdout"] * bool(want[1]) + ["stderr"] * bool(want[2]) + ["both"] * bool(want[1] and want[2]) + ["big"] * (total > 65536) + ["huge"] * (total > 1000000)
        labels += ["paused"] * bool(paused) + ["closed%d" % n for n in closed] + ["shim"] * bool(case["sshim"] or case["cshim"]) + ["lockstep"] * lockstep
        if total >= 2:
            labels.append("data")
    return labels


def nontrivial(case, labels):
    return "gigabytes" in case or "data" in labels and len(case["ops"]) >= 2
