"""Requests to k8psh's own functions, answered by a sanitized process (native/probe.cxx)."""
import os, select, struct, subprocess, time

from .engine import Hang, HarnessError, Violation


class Probe:
    def __init__(self, env):
        self.env = env
        self.popen = None
        self.environment = None
        self.cwd = None

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.errPath = os.path.join(self.env.scratch, "probe.err")
        with open(self.errPath, "wb") as err:
            self.popen = subprocess.Popen([self.env.bins["probe"], str(r1), str(w2)], pass_fds=(r1, w2), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err,
                                          cwd=self.env.scratch, env={"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=2000", "UBSAN_OPTIONS": "print_stacktrace=1"})
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        os.set_blocking(self.w, False)
        os.set_blocking(self.r, False)
        self.environment = self.cwd = None
        self.calls = 0

    def stop(self):
        if self.popen:
            self.popen.kill()
            self.popen.wait()
            os.close(self.w)
            os.close(self.r)
            self.popen = None

    def failed(self, op, fields, why):
        text = open(self.errPath, "rb").read()[-20000:].decode("latin-1")
        lines = [l for l in text.splitlines() if "ERROR" in l and "Sanitizer" in l or "runtime error" in l or "ssertion" in l or l.strip().startswith("#") and "k8psh" in l]
        self.stop()
        cls = Hang if why.startswith("no answer") else Violation
        raise cls("%s: %s of %r: %s" % (why, {"l": "loading", "s": "substitution", "n": "normalizing", "r": "relativizing"}.get(op, op), [f[:200] for f in fields[:3]], "; ".join(lines[:6])[:800]))

    def raw(self, op, fields):
        """Returns (fine, [strings])."""
        if self.popen is None:
            self.start()
        fields = [f if isinstance(f, bytes) else f.encode("latin-1") for f in fields]
        body = op.encode() + b"".join(struct.pack("<I", len(f)) + f for f in fields)
        out = memoryview(struct.pack("<I", len(body)) + body)
        data = bytearray()
        end = time.monotonic() + self.env.hang * 2
        while len(data) < 4 or len(data) < 4 + struct.unpack_from("<I", data)[0]:
            left = end - time.monotonic()
            if left <= 0:
                self.failed(op, fields, "no answer")
            rs, ws, _ = select.select([self.r], [self.w] if out else [], [], left)
            if ws:
                try:
                    out = out[os.write(self.w, out):]
                except BlockingIOError:
                    pass
                except BrokenPipeError:
                    self.failed(op, fields, "crash")
            if rs:
                try:
                    more = os.read(self.r, 1 << 20)
                except BlockingIOError:
                    continue
                if not more:
                    self.popen.wait()
                    self.failed(op, fields, "crash (status %s)" % self.popen.returncode)
                data += more
        strings, at = [], 5
        while at < len(data):
            n = struct.unpack_from("<I", data, at)[0]
            strings.append(bytes(data[at + 4:at + 4 + n]).decode("latin-1"))
            at += 4 + n
        self.calls += 1
        if self.calls % 2000 == 0:
            try:
                if os.path.getsize(self.errPath) > 10000000:
                    self.stop()
            except OSError:
                pass
        return data[4:5] == b"k", strings

    def call(self, op, *fields):
        return self.raw(op, list(fields))

    def must(self, op, *fields):
        ok, strings = self.raw(op, list(fields))
        if not ok:
            raise Violation("%s of %r failed: %s" % (op, [f[:200] for f in fields], strings))
        return strings[0] if strings else None

    def setEnvironment(self, variables):
        if self.popen is None:
            self.start()
        variables = dict(variables)
        if variables != self.environment:
            self.must("v", *[x for kv in sorted(variables.items()) for x in kv])
            self.environment = variables

    def chdir(self, path):
        if self.popen is None:
            self.start()
        if path != self.cwd:
            if not self.call("w", path)[0]:
                raise HarnessError("chdir " + path)
            self.cwd = path

    def load(self, text, working="", hosts=()):
        """None if rejected, else {base, timeout, commands: {name: command}, hosts: {host: commands or None}}."""
        ok, s = self.raw("l", [text, working] + list(hosts))
        if not ok:
            return None
        it = iter(s)

        def commands():
            out = {}
            for _ in range(int(next(it))):
                key = next(it)
                c = {"name": next(it), "host": next(it), "port": int(next(it))}
                c["options"] = [next(it) for _ in range(int(next(it)))]
                c["env"] = [[next(it), next(it)] for _ in range(int(next(it)))]
                c["exe"] = [next(it) for _ in range(int(next(it)))]
                if key in out:
                    raise Violation("command %r listed twice" % key)
                out[key] = c
            return out
        r = {"base": next(it), "timeout": int(next(it)), "commands": commands()}
        r["hosts"] = {h: (commands() if next(it) == "1" else None) for h in hosts}
        return r


def of(env):
    if "probe" not in env.cache:
        env.cache["probe"] = Probe(env)
    return env.cache["probe"]
