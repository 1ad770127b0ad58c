"""C07: a remote command may stop reading its input without affecting the run."""
import time
from hypothesis import strategies as st
from lib import gen
from lib.engine import Hang, Violation
from lib.h import Case, blob, childrenOf, cpuTime, diff, sq, wholeConfig

ID = "C07"
LEVEL = "exploration"
ARTIFACTS = ["k8psh", "k8psh_shim", "agent"]
EXAMPLES = {"quick": 90, "thorough": 2000}
RULE = ("Each case: the client gets generated amounts of input (before, during and after), the remote command reads a generated part of it, then closes its stdin, stops reading or exits, writes generated output afterwards and exits with a generated code; "
        "optional system-call plans. Checked: output and exit code exact, no signal to the command, client does not fail; while the command goes on quietly the client's and the server's processor time is measured. "
        "Non-trivial: input was left unread.")


def strategy(env):
    return st.fixed_dictionaries({"debug": gen.rarely,
        "first": gen.data(env, 400000), "read": st.one_of(st.just(0), gen.sizes(env, 70000)), "action": st.sampled_from(["close", "close", "ignore", "exit"]),
        "between": st.one_of(st.none(), gen.data(env, 200000)), "later": st.lists(gen.data(env, 200000, 1), max_size=4),
        "outBefore": gen.data(env, 70000), "outAfter": gen.data(env, 200000), "errAfter": gen.data(env, 70000),
        "end": st.sampled_from(["open", "eof", "eofEarly"]), "exit": gen.exitCodes, "quiet": st.sampled_from([0, 0, 0, 0, 1]), "settle": st.booleans(),
        "in": st.sampled_from(["pipe", "pipe", "file", "socket"]), "cshim": gen.shimPlan(env, 4), "sshim": gen.shimPlan(env, 4),
    })


def run(case, env):
    labels = [case["action"], case["in"]]
    first = blob(*case["first"])
    with Case(env) as c:
        port = env.port()
        conf = c.file("conf", wholeConfig(port, ["kv-cmd " + sq(c.agent)]))
        shimmed = env.bins["k8psh_shim"]
        server = c.server(conf, port=port, exe=shimmed if case["sshim"] is not None else None, env={"K8V_SHIM": case["sshim"] or "", **gen.debug(case)})
        stdin = case["in"]
        if stdin == "file":
            stdin = ("file", c.file("input", first + b"".join(blob(*d) for d in case["later"])))
        p = c.client("kv-cmd", config=conf, stdin=stdin, exe=shimmed if case["cshim"] is not None else None, env={"K8V_SHIM": case["cshim"] or ""})
        isFile = case["in"] == "file"

        def failed():
            if p.rc is not None and not exiting:
                raise Violation("the client ended (status %s) while its command was still running: %r" % (p.rc, bytes(p.err[-300:])))
        exiting = False
        if not isFile:
            p.send(first)
        a = c.waitAgent(p)
        if case["end"] == "eofEarly" and not isFile:
            p.closeStdin()
        out, err = blob(*case["outBefore"]), b""
        if out:
            a.write(1, out)
        n = min(case["read"], len(first))
        if n:
            status, d = c.op(a.read(n), "the command reads part of its input", a)
            diff(first[:n], d, "the client's input and what the command read")
        unread = len(first) > n or bool(case["later"])
        after = blob(*case["outAfter"])
        errData = blob(*case["errAfter"])
        if case["action"] == "exit":
            w = a.write(1, after)
            e = a.write(2, errData)
            exiting = True
            a.exit(case["exit"])
        else:
            if case["action"] == "close":
                c.op(a.close(0), agent=a)
            if case["between"] and not isFile and not p.inClosing:
                p.send(blob(*case["between"]))
                unread = True
            w = a.write(1, after)
            e = a.write(2, errData)
            for d in case["later"]:
                if not isFile and not p.inClosing:
                    p.send(blob(*d))
                    if case["settle"]:
                        c.idle(0.003)
            if case["end"] == "eof" and not isFile:
                p.closeStdin()
            c.op(w, "the command's writes complete after it stopped reading", a)
            c.op(e, "the command's writes complete after it stopped reading", a)
            c.wait(lambda: len(p.out) >= len(out) + len(after) and len(p.err) >= len(errData) or p.rc is not None, "output written after input was no longer read arrives")
            failed()
            if case["quiet"]:
                c.idle(0.1)

                def busy(seconds):
                    """Who uses the processor meanwhile."""
                    pids = {"client": [p.pid], "server": [server.pid] + [x[0] for x in childrenOf(server.pid)]}
                    t0, before = time.monotonic(), {who: sum(map(cpuTime, l)) for who, l in pids.items()}
                    c.idle(seconds)
                    span = time.monotonic() - t0
                    used = {who: sum(map(cpuTime, l)) - before[who] for who, l in pids.items()}
                    return ["%s used %.2f s of processor time in %.2f s" % (who, used[who], span) for who in pids if used[who] > 0.4 * span]
                # Once more, longer, before drawing a conclusion
                if busy(1.0) and not p.inBuf:
                    again = busy(2.0)
                    if again:
                        raise Violation("while waiting for the command the %s" % " and the ".join(again))
                labels.append("quiet")
            failed()
            exiting = True
            a.exit(case["exit"])
        c.finish(p)
        diff(out + after, bytes(p.out), "the command's stdout and the client's")
        if bytes(p.err) != errData:
            diff(errData, bytes(p.err), "the command's stderr and the client's")
        if p.rc != case["exit"]:
            raise Violation("the client exited with %s, the command with %d" % (p.rc, case["exit"]))
    labels += ["unread"] * unread + ["later"] * bool(case["later"]) + ["surplus-large"] * (len(first) - n > 140000) + ["output"] * bool(after)
    return labels


def nontrivial(case, labels):
    return "unread" in labels
