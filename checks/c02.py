"""C02: client stdin reaches the remote command byte for byte, then end-of-file."""
from hypothesis import strategies as st
from lib import gen
from lib.engine import Violation
from lib.h import blob as original
from lib.h import Case, diff, sq, wholeConfig

ID = "C02"
LEVEL = "exploration"
ARTIFACTS = ["k8psh", "k8psh_shim", "agent"]
EXAMPLES = {"quick": 220, "thorough": 2500}
RULE = ("Each case is a generated sequence of input chunks (kind, size biased to buffer edges and source integers, pause, write size) given to the client through a pipe, socket, file or terminal (in lines, ended by ^D), a reading plan of the remote command "
        "(amounts, read sizes, delays, output in between), the moment the input ends (with the last byte, or after everything was read), and optional system-call plans for client and server. "
        "Oracle: concatenation of the chunks; end-of-file exactly after it. Non-trivial: at least 2 bytes of input delivered in at least one chunk and compared.")


def strategy(env):
    chunk = st.tuples(gen.data(env, 200000, 1), st.sampled_from([0, 0, 0, 500, 5000]), st.one_of(st.just(0), gen.sizes(env, 70000, 1))).map(list)
    small = st.tuples(gen.data(env, 40, 1), st.sampled_from([0, 0, 1000]), st.just(0)).map(list)
    big = st.tuples(st.tuples(st.sampled_from(["rand", "count"]), st.sampled_from([400000, 1500000, 3000000]), st.integers(0, 9)).map(list), st.just(0), st.just(0)).map(list)
    read = st.one_of(
        st.tuples(st.just("r"), gen.sizes(env, 100000, 1), st.one_of(st.just(0), gen.sizes(env, 66000, 1)), st.sampled_from([0, 0, 200])),
        st.tuples(st.just("s"), st.sampled_from([500, 5000, 30000])),
        st.tuples(st.just("w"), st.sampled_from([1, 2]), gen.sizes(env, 70000, 1)),
    ).map(list)
    return st.fixed_dictionaries({"debug": gen.rarely,
        "chunks": st.one_of(st.lists(chunk, max_size=5), st.lists(chunk, max_size=5), st.lists(small, min_size=3, max_size=40), st.lists(st.one_of(chunk, big), min_size=1, max_size=3)),
        "reads": st.lists(read, max_size=5), "finalChunk": st.one_of(st.just(0), gen.sizes(env, 66000, 1)),
        "in": st.sampled_from(["pipe", "pipe", "pipe", "pipe", "socket", "file", "tty"]), "held": st.booleans(), "early": st.booleans(),
        "mode": st.sampled_from(["stub", "c"]), "exit": gen.exitCodes, "cshim": gen.shimPlan(env), "sshim": gen.shimPlan(env),
    })


def directed(env):
    # More than any 32 bit counter can hold
    return [{"gigabytes": 4.3 if env.tier == "quick" else 9}]


def huge(case, env):
    total = int(case["gigabytes"] * 1e9)
    block = original("rand", (1 << 20) - 3, 77)
    with Case(env) as c:
        port = env.port()
        conf = c.file("conf", wholeConfig(port, ["kv-cmd " + sq(c.agent)]))
        c.server(conf, port=port)
        p = c.client("kv-cmd", config=conf, stdin="pipe")
        a = c.waitAgent(p)
        op = a.verify(block)
        left = total
        while left and not op.done and not a.gone and not p.inBroken:
            n = min(left, len(block))
            p.send(block if n == len(block) else block[:n])
            left -= n
            c.wait(lambda: not p.inBuf or op.done or a.gone, "the command reads the input sent to it")
        p.closeStdin()
        count, error = c.op(op, "the command reads the remaining input and then end-of-file", a)
        if (count, error) != (total, 0):
            raise Violation("of %d bytes of input, the command read %d%s" % (total, count, "" if not error else ", then other data" if error == 0xffffffff else ", then got error %d" % error))
        a.exit(9)
        rc = c.finish(p)
        if rc != 9:
            raise Violation("the client exited with %s, the command with 9" % rc)
    return ["data", "gigabytes"]


def lines(data, partial):
    """The data in lines that a terminal accepts."""
    data = data.replace(b"\4", b"D")
    return b"".join(data[i:i + 1000] + (b"" if partial and len(data) < 50 else b"\n") for i in range(0, len(data), 1000))


def run(case, env):
    if "gigabytes" in case:
        return huge(case, env)
    labels = []
    if case["in"] == "tty":
        def blob(*what, original=original):
            return lines(original(*what), not case["held"])
    else:
        blob = original
    data = b"".join(blob(*ch[0]) for ch in case["chunks"])
    with Case(env) as c:
        port = env.port()
        conf = c.file("conf", wholeConfig(port, ["kv-cmd " + sq(c.agent)]))
        shimmed = env.bins["k8psh_shim"]
        c.server(conf, port=port, exe=shimmed if case["sshim"] is not None else None, env={"K8V_SHIM": case["sshim"] or "", **gen.debug(case)})
        stdin = case["in"]
        if stdin == "file":
            stdin = ("file", c.file("input", data))
        p = c.client("kv-cmd", config=conf, mode=case["mode"], stdin=stdin, exe=shimmed if case["cshim"] is not None else None, env={"K8V_SHIM": case["cshim"] or ""})
        held = case["held"] and case["in"] != "file"

        def feed():
            for d, pause, size in case["chunks"]:
                d = blob(*d)
                if size and len(d) // size < 300:
                    for i in range(0, len(d), size):
                        p.send(d[i:i + size])
                        c.step(0)
                else:
                    p.send(d)
                if pause:
                    c.idle(pause / 1e6)
            if not held:
                p.closeStdin()
        if case["in"] != "file" and case["early"]:
            feed()
        a = c.waitAgent(p)
        total, ops, wrote = 0, [], {1: 0, 2: 0}
        for r in case["reads"]:
            if r[0] == "r":
                n = min(r[1], len(data) - total)
                if n > 0:
                    chunk = r[2] if n <= 2000 * max(1, r[2]) else 0
                    ops.append((n, a.read(n, chunk, r[3] if chunk == 0 or n // chunk < 200 else 0)))
                    total += n
            elif r[0] == "s":
                a.sleep(r[1])
            else:
                a.write(r[1], b"o" * r[2])
                wrote[r[1]] += r[2]
        rest = len(data) - total
        chunk = case["finalChunk"] if rest <= 2000 * max(1, case["finalChunk"]) else 0
        if held and rest:
            ops.append((rest, a.read(rest, chunk)))
        probe = a.poll(30) if held else None
        if case["in"] != "file" and not case["early"]:
            feed()
        got = b""
        for n, op in ops:
            status, d = c.op(op, "the command reads the input sent to it", a)
            if status != 0:
                raise Violation("the command read %d of %d bytes and then got %s although the client's input %s" % (len(d), n, "end-of-file" if status == 1 else "error %d" % (status - 2), "is still open" if held else "had more"))
            got += d
        if held:
            revents = c.op(probe, agent=a)
            if revents:
                raise Violation("the command's stdin polls as %#x after all input so far was read, while the client's input is still open" % revents)
            p.closeStdin()
            labels.append("held")
        status, d = c.op(a.readAll(chunk), "the command reads the remaining input and then end-of-file", a)
        got += d
        diff(data, got, "the client's input and what the command read")
        if status != 1:
            raise Violation("the command got error %d instead of end-of-file" % (status - 2))
        a.exit(case["exit"])
        rc = c.finish(p)
        if rc != case["exit"]:
            raise Violation("the client exited with %s, the command with %d" % (rc, case["exit"]))
        if (len(p.out), len(p.err)) != (wrote[1], wrote[2]):
            raise Violation("output of the command changed by its input: %d/%d bytes written, %d/%d received" % (wrote[1], wrote[2], len(p.out), len(p.err)))
    labels += [case["in"]] + ["big"] * (len(data) > 65536) + ["huge"] * (len(data) > 1000000) + ["chunks"] * (len(case["chunks"]) > 1) + ["shim"] * bool(case["cshim"] or case["sshim"]) + ["empty"] * (not data)
    if len(data) > 1:
        labels.append("data")
    return labels


def nontrivial(case, labels):
    return "data" in labels
