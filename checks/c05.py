"""C05: the remote command's environment is exactly what the configuration grants."""
import os
from hypothesis import strategies as st
from lib import gen
from lib.engine import Violation
from lib.h import Case, b, sq, u, wholeConfig
from lib.model import expand
from lib.net import ARGUMENT, ENVIRONMENT, START, WORKING_DIRECTORY, Conn, msg

ID = "C05"
LEVEL = "exploration"
ARTIFACTS = ["k8psh", "k8psh_shim", "agent"]
EXAMPLES = {"quick": 140, "thorough": 3000}
RULE = ("Each case: generated section-wide and per-command variables over a small pool of (colliding, prefix-sharing) names with the forms NAME=, ?NAME=, =NAME= and generated defaults (empty, literal, references to other variables with and without default), "
        "generated client and server environments (including unconfigured names, empty and long values), run through the real client (sometimes with a different client configuration) or a raw connection that sends arbitrary variables. "
        "Oracle: reference model of the grant rules; compared with the complete environment the started program reports. Non-trivial: at least two configured variables and at least one value from the client or the server.")

NAMES = ["A", "B", "AB", "A_B", "A.B", "a", "LONG_NAME_1", "X Y", "PATH", "HOME", "PWD", "OLDPWD", "K8PSH_NAME", "K8PSH_CONFIG", "SHLVL", "LANG"]


def strategy(env):
    name = st.one_of(st.sampled_from(NAMES[:4]), st.sampled_from(NAMES))
    ref = st.tuples(name, st.sampled_from(["${%s}", "x${%s}y", "${%s:-d}", "${%s:-}", "$%s", "${%s", "${A}${%s}", "${%s:-${B}}", "${ %s }"])).map(lambda t: t[1] % t[0])
    value = st.one_of(st.just(""), ref, ref, gen.rawBytes(0, 12), st.sampled_from(["v", "=", "a=b", "?", "=x=", "${", "$", "default value"]))
    plain = st.one_of(gen.rawBytes(0, 12), st.just(""), ref, st.sampled_from(["v1", "v2", "a=b", "=", "\n", "\xff"]), gen.sizes(env, 70000).map(lambda n: "l" * n))
    var = st.tuples(st.sampled_from(["", "", "?", "="]), name, value).map(list)
    environment = st.dictionaries(st.one_of(name, name, st.sampled_from(["UNCONFIGURED", "K8PSH_NAME", "LD_X", "A B", "AA", "TERM"])), plain, min_size=2, max_size=8)
    return st.fixed_dictionaries({
        "section": st.lists(var, max_size=4), "command": st.lists(var, max_size=6), "client": environment, "server": environment,
        "via": st.sampled_from(["client", "client", "client", "raw"]), "clientConfig": st.one_of(st.none(), st.none(), st.lists(var, max_size=4)), "twice": st.booleans(),
        "cshim": gen.shimPlan(env, 4), "sshim": gen.shimPlan(env, 4), "opts": st.sampled_from(["", "", "-k", "--keep-client-executables"]), "background": st.integers(0, 3).map(lambda n: n == 0),
    })


def granted(variables, received, serverEnv):
    values = {}
    for prefix, name, default in variables:
        if prefix == "=":
            values[name] = serverEnv.get(name) if default == "" else expand(default, values, serverEnv)
        elif name in received:
            values[name] = received[name]
        elif default == "" and prefix == "?":
            values[name] = values[name] if values.get(name) is not None else serverEnv.get(name)
        else:
            values[name] = expand(default, values, serverEnv)
    return {n: v for n, v in values.items() if v is not None}


def directed(env):
    base = {"section": [["", "S", "s"], ["=", "T", ""]], "clientConfig": None, "twice": False, "cshim": None, "sshim": None, "opts": "", "background": False}
    many = [[("", "?", "=")[i % 3], "VARIABLE%d" % i, "" if i % 2 else "d%d" % i] for i in range(3000)]
    client = {"VARIABLE%d" % i: "c%d" % i for i in range(0, 3000, 4)}
    server = {"VARIABLE%d" % i: "s%d" % i for i in range(0, 3000, 5)}
    return [dict(base, command=many, client=client, server=server, via=via) for via in ("client", "raw")] + [
        dict(base, command=[["", "L" * 50000, "x" * 60000], ["?", "M", "d"], ["=", "N", ""]], client={"M": "m" * 130000, "S": "t" * 100000}, server={"N": "n" * 131000, "T": "u" * 65536}, via="client")]


def run(case, env):
    variables = case["section"] + case["command"]
    labels = [case["via"]]
    with Case(env) as c:
        port = env.port()

        def config(section, command):
            return "[srv:%d] %s %s\nkv-cmd %s %s\n" % (port, " ".join(sq("%s%s=%s" % tuple(v)) for v in section), case["opts"] if section or not case["opts"].startswith("-k") else "",
                                                         " ".join(sq("%s%s=%s" % tuple(v)) for v in command), sq(c.agent))
        cf = c.file("conf", config(case["section"], case["command"]))
        ccf = cf
        clientVariables = variables
        if case["clientConfig"] is not None and case["via"] == "client":
            ccf = c.file("cconf", config([], case["clientConfig"]))
            clientVariables = case["clientConfig"]
            labels.append("other-client-config")
        shimmed = env.bins["k8psh_shim"]
        serverEnv = {b(k): b(v) for k, v in case["server"].items()}
        senv = dict(serverEnv)
        if case["sshim"]:
            senv[b"K8V_SHIM"] = b(case["sshim"])
        if case["background"]:
            s = c.server(cf, port=port, exe=shimmed if case["sshim"] else None, env=senv, args=["-b", "-p", c.path("pid")], ready=False)
            c.wait(lambda: s.rc is not None and os.path.exists(c.path("pid")) and os.path.getsize(c.path("pid")) > 0, "the server goes to the background")
            labels.append("background")
            if s.rc:
                raise Violation("the background server did not start (status %s): %r" % (s.rc, c.serverLog(s)))
        else:
            c.server(cf, port=port, exe=shimmed if case["sshim"] else None, env=senv)
        for again in range(2 if case["twice"] else 1):
            clientEnv = dict(case["client"])
            if again:
                # Another client of the same server, without the first one's variables
                clientEnv = {k: v for i, (k, v) in enumerate(sorted(clientEnv.items())) if i % 2}
            received = {}
            if case["via"] == "client":
                cenv = {b(k): b(v) for k, v in clientEnv.items()}
                if case["cshim"]:
                    cenv[b"K8V_SHIM"] = b(case["cshim"])
                p = c.client("kv-cmd", config=ccf, env=cenv, mode="c", exe=shimmed if case["cshim"] else None)
                asked = {n for prefix, n, _ in clientVariables if prefix != "="}
                received = {n: v for n, v in clientEnv.items() if n in asked}
            else:
                conn = Conn.connect(c, port)
                data = msg(WORKING_DIRECTORY, b"")
                for k, v in clientEnv.items():
                    data += msg(ENVIRONMENT, b(k) + b"=" + b(v))
                    received[k] = v
                conn.send(data + msg(START, b"kv-cmd"))
                p = None
            a = c.waitAgent(p)
            want = granted(variables, received, case["server"])
            got = {}
            for e in a.environ:
                n, eq, v = u(e).partition("=")
                if n in got:
                    raise Violation("variable %r appears twice in the command's environment" % n)
                got[n] = v
            if got != want:
                diffs = ["%s: expected %s, got %s" % (n, repr(want.get(n))[:100], repr(got.get(n))[:100]) for n in sorted(set(want) | set(got)) if want.get(n) != got.get(n)]
                raise Violation("the command's environment differs: " + "; ".join(diffs[:4]))
            a.exit(0)
            if p:
                c.finish(p)
                if p.rc != 0:
                    raise Violation("the client ended with %s" % p.rc)
            else:
                c.wait(lambda: conn.collect()[2] is not None, "the exit code arrives")
                conn.close()
    names = [v[1] for v in variables]
    labels += ["dup"] * (len(set(names)) < len(names)) + ["vars"] * (len(variables) >= 2) + ["from-client"] * any(n in received for n in names) + ["from-server"] * any(n in case["server"] for n in names)
    labels += ["reference"] * any("${" in v[2] for v in variables)
    return labels


def nontrivial(case, labels):
    return "vars" in labels and ("from-client" in labels or "from-server" in labels)
