"""C04: arguments arrive verbatim, after the configured executable."""
import os
from hypothesis import strategies as st
from lib import gen
from lib.engine import Violation
from lib.h import Case, b, sq, u, wholeConfig

ID = "C04"
LEVEL = "exploration"
ARTIFACTS = ["k8psh", "k8psh_shim", "agent"]
EXAMPLES = {"quick": 300, "thorough": 2500}
RULE = ("Each case: generated client arguments (any bytes but NUL: empty, option-like, quoting and shell characters, text from the sources, up to 128 KiB each, up to 140000 of them), generated configured arguments, "
        "form of the configured executable (absolute, relative to the working directory, found through the command's PATH, defaulting to the command name), invocation mode (under the command's name, by a path, k8psh with a config option in each spelling or K8PSH_CONFIG) and system-call plans. "
        "Oracle: argv as reported by the started program. Non-trivial: at least one client or configured argument.")


def strategy(env):
    arg = gen.argText(env)
    args = st.one_of(st.lists(arg, max_size=8), st.lists(arg, max_size=8), st.lists(st.text("ab -=", max_size=6), min_size=10, max_size=60),
                     st.tuples(st.sampled_from([100, 255, 256, 257, 700, 1638, 1639, 3000]), st.text("xy z", max_size=3)).map(lambda t: [t[1] + str(i % 7) for i in range(t[0])]))
    return st.fixed_dictionaries({"debug": gen.rarely,
        "args": args, "conf": st.lists(st.one_of(arg, st.sampled_from(["A=b", "=x", "a=", "--x=y"])), max_size=5), "exe": st.sampled_from(["abs", "abs", "rel", "path", "name"]),
        "mode": st.sampled_from(["stub", "stubpath", "env", "c", "long", "eq"]), "name": gen.commandName(), "cshim": gen.shimPlan(env), "sshim": gen.shimPlan(env), "vars": st.integers(0, 2),
    })


def directed(env):
    base = {"conf": ["conf"], "exe": "abs", "mode": "stub", "name": "kv-cmd", "cshim": None, "sshim": None, "vars": 0}
    cases = [["%d" % (i % 977) for i in range(100000)], [""] * 140000, ["x" * 131071] * 10, ["y" * n for n in range(65530, 65541)], ["z" * 131071, "", "-" * 131070]]
    return [dict(base, args=args, mode=mode) for args, mode in zip(cases, ["stub", "c", "stub", "eq", "long"])]


def run(case, env):
    labels = [case["exe"], case["mode"]]
    args, total = [], 0
    for x in case["args"]:
        total += len(x) + 9
        if total < 1500000:
            args.append(x)
    conf = list(case["conf"])
    with Case(env) as c:
        port = env.port()
        name = case["name"]
        words = []
        if case["exe"] == "abs":
            words = [c.agent]
        elif case["exe"] == "rel":
            words = ["b/agent"]
        elif case["exe"] == "path":
            words = ["agent"]
        else:
            os.link(c.agent, os.path.join(c.bin, name))
            # Without an executable the first configured argument would become the executable
            conf = []
        variables = ["V%d=some value" % i for i in range(case["vars"])] + ["PATH=" + c.bin]
        line = " ".join([sq(name)] + [sq(v) for v in variables] + [sq(w) for w in words + conf])
        text = wholeConfig(port, [line], base=c.root)
        cf = c.file("conf", text)
        shimmed = env.bins["k8psh_shim"]
        c.server(cf, port=port, exe=shimmed if case["sshim"] is not None else None, env={"K8V_SHIM": case["sshim"] or "", **gen.debug(case)})
        p = c.client(name, [b(x) for x in args], config=cf, mode=case["mode"], exe=shimmed if case["cshim"] is not None else None, env={"K8V_SHIM": case["cshim"] or ""})
        a = c.waitAgent(p)
        a.exit(0)
        want = [b(x) for x in (words or [name]) + conf + args]
        if a.argv != want:
            at = next((i for i in range(min(len(want), len(a.argv))) if want[i] != a.argv[i]), min(len(want), len(a.argv)))
            raise Violation("argv differs at %d: expected %d arguments %r, got %d arguments %r" % (
                at, len(want), [x[:80] for x in want[at:at + 3]], len(a.argv), [x[:80] for x in a.argv[at:at + 3]]))
        c.finish(p)
        if p.rc != 0 or p.out or p.err:
            raise Violation("the client ended with %s and output %r %r" % (p.rc, bytes(p.out[:200]), bytes(p.err[:200])))
    labels += ["args"] * bool(args) + ["conf"] * bool(conf) + ["many"] * (len(args) >= 100) + ["long"] * any(len(x) > 8000 for x in args) + ["empty"] * ("" in args)
    labels += ["option-like"] * bool(args and args[0].startswith("-")) + ["shim"] * bool(case["cshim"] or case["sshim"])
    return labels


def nontrivial(case, labels):
    return "args" in labels or "conf" in labels
