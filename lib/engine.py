"""Drives one check: forks workers that search generated cases with Hypothesis, shrinks and confirms failures, writes evidence.

A check module (checks/cXX.py) provides
    ID, TITLE, RULE (how cases are made and what makes one non-trivial), LEVEL ("exploration" / "fault_enumeration")
    ARTIFACTS           names for lib.build
    EXAMPLES            {"quick": n, "thorough": n}: generated cases per worker
    strategy(env)       Hypothesis strategy of JSON-able cases
    run(case, env)      runs a case against the code; raises Violation / Hang; returns labels (iterable of strings)
    nontrivial(case, labels) -> bool
    directed(env)       optional: list of cases (enumerated, split between the workers) run before the random ones
"""
import resource, argparse, fcntl, hashlib, importlib, json, mmap, os, random, select, shutil, signal, socket, sys, time, traceback

from . import build

VERIF = build.VERIF
FINDINGS = os.path.join(VERIF, "known_findings.txt")


class Violation(Exception):
    """The code broke the property for this case."""


class Hang(Violation):
    """Something that must happen did not happen within the (generous) time allowed."""


class Late(Violation):
    """Something took seconds that takes milliseconds. Counts only if it does so every time the same case is run."""


class Stopped(KeyboardInterrupt):
    pass


class HarnessError(Exception):
    """The harness itself failed: never reported as a violation."""


def canonical(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


NO_SHRINK = "KV_NOSHRINK" in os.environ  # for experiments


class Env:
    """What a worker hands to the strategy and to run()."""

    def __init__(self, worker, workers, tier, seed, bins, scratch, uid):
        self.worker, self.workers, self.tier, self.seed, self.bins, self.scratch, self.uid = worker, workers, tier, seed, bins, scratch, uid
        self.hang = 8.0            # seconds until something that should happen counts as not happening
        self.caseNumber = 0
        self.ints, self.strs = build.mined_literals()
        # A range of ports of its own
        self._width = max(64, 22300 // workers)
        self._low = 10240 + worker * self._width % 22300
        self._port = self._low + (uid // 64 * 37 + seed * 11) % self._width
        self._ephemeral = 0
        self.shrinking = False
        self.confirming = False
        self.cache = {}
        self.replay = False

    def ephemeralPort(self):
        """A port that the kernel also uses as the local port of connections, and that nothing uses at the moment."""
        low, high = map(int, open("/proc/sys/net/ipv4/ip_local_port_range").read().split())
        width = (high - low) // self.workers  # not those of the other workers
        while True:
            self._ephemeral += 1
            port = low + width * self.worker + (self.uid // 64 * 37 + self.seed * 11 + self._ephemeral) % width
            s = socket.socket()
            try:
                s.bind(("127.0.0.1", port))
                return port
            except OSError:
                continue
            finally:
                s.close()

    def port(self):
        while True:
            self._port += 1
            if self._port >= self._low + self._width:
                self._port = self._low
            s = socket.socket()
            try:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                s.bind(("127.0.0.1", self._port))
                s.close()
                s = socket.socket()
                s.bind(("127.0.0.1", self._port))  # also not in use by connections
                return self._port
            except OSError:
                continue
            finally:
                s.close()


def _usersOfProcesses():
    users = set()
    for entry in os.listdir("/proc"):
        if entry.isdigit():
            try:
                users.add(os.stat("/proc/" + entry).st_uid)
            except OSError:
                pass
    return users


def _drop(uid):
    os.setgroups([])
    os.setresgid(uid, uid, uid)
    os.setresuid(uid, uid, uid)
    if os.getuid() != uid or os.geteuid() != uid or uid < 20000:
        raise HarnessError("could not become unprivileged")
    # stay inspectable by ourselves (descriptor listings of our own processes)


def killAll():
    """Kills every process of this (unprivileged, private) user except the caller."""
    if os.getuid() < 20000 or os.geteuid() < 20000:
        raise HarnessError("refusing to kill as a privileged user")
    try:
        os.kill(-1, signal.SIGKILL)
    except ProcessLookupError:
        pass


def loadFindings(id):
    """Known findings: lines `known: property=<id> key=<key> <what fails>`."""
    out = []
    try:
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("known: property=%s " % id):
                rest = line.split(" ", 2)[2]
                key, what = rest.split(" ", 1)
                out.append((key[4:], what))
    except FileNotFoundError:
        pass
    return out


def runCase(mod, case, env):
    """Runs a case; lateness must show in each of three runs (a busy machine is not a violation)."""
    for last in (False, False, True):
        try:
            return mod.run(case, env)
        except Late:
            if last:
                raise
            env.caseNumber += 1


class Worker:
    def __init__(self, mod, env, channel, stop, budgetEnd, scale):
        self.mod, self.env, self.channel, self.stop, self.budgetEnd, self.scale = mod, env, channel, stop, budgetEnd, scale
        self.evaluations = 0
        self.distinct = set()
        self.labels = {}
        self.samples = []
        self.failures = []
        self.wallStopped = False
        self.examples = 0
        self.unconfirmed = []
        self.errors = []

    def execute(self, case):
        """Runs one case, with bookkeeping."""
        for attempt in range(4):
            self.env.caseNumber += 1
            try:
                labels = runCase(self.mod, case, self.env)
                break
            except OSError:
                # Such as a port taken by another process in the meantime
                if attempt == 3:
                    raise
                time.sleep(0.2 * attempt)
        labels = sorted(set(labels or ()))
        self.evaluations += 1
        nontrivial = bool(self.mod.nontrivial(case, labels))
        if nontrivial:
            digest = hashlib.sha256(canonical(case).encode()).hexdigest()[:16]
            if digest not in self.distinct:
                self.distinct.add(digest)
                if len(self.samples) < 3 or (len(self.samples) < 6 and self.evaluations % 50 == 0):
                    text = canonical(case)
                    self.samples.append(case if len(text) < 3000 else text[:3000] + "...")
        for l in labels:
            self.labels[l] = self.labels.get(l, 0) + 1
        return labels

    def guarded(self, case):
        if self.stop[0]:
            raise Stopped()
        if not self.env.shrinking and time.monotonic() > self.budgetEnd:
            self.wallStopped = True
            raise Stopped()
        try:
            self.execute(case)
        except Violation as e:
            self.failures.append((canonical(getattr(e, "case", case)), str(e)))
            if not self.env.shrinking:
                self.env.shrinking = True
                self.env.hang = 3.0
                self.shrinkEnd = time.monotonic() + 60
            raise
        if self.env.shrinking and time.monotonic() > self.shrinkEnd + 30:
            raise Stopped()

    def confirm(self):
        """Re-runs the smallest failing case (then the first) without the library."""
        self.env.shrinking = False
        self.env.confirming = True
        first = self.failures[0]
        last = self.failures[-1]
        candidates = []
        for f in [last, min(self.failures, key=lambda f: len(f[0])), first]:
            if f[0] not in [c[0] for c in candidates]:
                candidates.append(f)
        for text, message in candidates:
            for attempt in range(6):
                if self.stop[0]:
                    return None
                self.env.hang = 20.0
                self.env.caseNumber += 1
                try:
                    runCase(self.mod, json.loads(text), self.env)
                except Violation as e:
                    return json.loads(text), str(e), attempt + 1
        return None

    def main(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        import hypothesis.internal.conjecture.engine as engine
        engine.MAX_SHRINKING_SECONDS = 60

        PHASES = [Phase.generate] if NO_SHRINK else [Phase.generate, Phase.shrink]
        total = max(1, int(self.mod.EXAMPLES[self.env.tier] * self.scale))
        found = None
        try:
            directed = list(self.mod.directed(self.env)) if hasattr(self.mod, "directed") else []
            for i, case in enumerate(directed):
                if i % self.env.workers != self.env.worker:
                    continue
                self.env.shrinking = False
                try:
                    self.guarded(case)
                except Violation:
                    result = self.confirm()
                    if result:
                        found = result
                        break
                    self.reset()
            rounds = 0
            while not found and rounds < 4:
                rounds += 1
                remaining = total - self.examples

                if remaining <= 0:
                    break

                @settings(max_examples=remaining, deadline=None, database=None, derandomize=False, report_multiple_bugs=False, print_blob=False,
                          phases=PHASES, suppress_health_check=list(HealthCheck), verbosity=hypothesis.Verbosity.quiet)
                @hypothesis.seed(self.env.seed * 1000003 + self.env.worker * 101 + rounds)
                @given(self.mod.strategy(self.env))
                def test(case):
                    self.examples += 1
                    self.guarded(case)

                try:
                    test()
                    break
                except Stopped:
                    if not self.failures:
                        raise
                except Violation:
                    pass
                except Exception as e:
                    if not self.failures:
                        raise
                if self.failures:
                    found = self.confirm()
                    if not found:
                        self.unconfirmed.append(self.failures[0])
                        self.reset()
        except Stopped:
            if self.failures and not self.stop[0] and not found:
                found = self.confirm()
        return found

    def reset(self):
        self.failures = []
        self.env.shrinking = False
        self.env.confirming = False
        self.env.hang = 8.0


def workerMain(mod, env, write, stop, budgetEnd, scale):
    result = {"worker": env.worker}
    w = None
    try:
        os.makedirs(env.scratch, exist_ok=True)
        os.chown(env.scratch, env.uid, env.uid)
        os.chmod(env.scratch, 0o755)
        bindir = os.path.join(env.scratch, "bin")
        os.makedirs(bindir)
        os.chmod(bindir, 0o755)
        bins = {}
        for name, path in env.bins.items():
            bins[name] = os.path.join(bindir, name)
            shutil.copy(path, bins[name])
            os.chmod(bins[name], 0o755)
        os.chown(bindir, env.uid, env.uid)
        for name in bins:
            os.chown(bins[name], env.uid, env.uid)
        env.bins = bins
        os.umask(0o022)
        os.chdir(env.scratch)
        _drop(env.uid)
        import ctypes
        ctypes.CDLL(None).prctl(4, 1, 0, 0, 0)  # PR_SET_DUMPABLE, lost with the change of user
        os.environ.clear()
        os.environ["PATH"] = "/usr/bin:/bin"
        os.environ["HOME"] = env.scratch
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        signal.signal(signal.SIGPIPE, signal.SIG_IGN)
        # A background job may have been started with signals ignored or blocked, which the processes under test would inherit
        for s in (signal.SIGHUP, signal.SIGINT, signal.SIGQUIT, signal.SIGTERM, signal.SIGUSR1, signal.SIGUSR2, signal.SIGALRM, signal.SIGCHLD, signal.SIGCONT, signal.SIGTSTP, signal.SIGTTIN, signal.SIGTTOU):
            if signal.getsignal(s) == signal.SIG_IGN:
                signal.signal(s, signal.SIG_DFL)
        signal.pthread_sigmask(signal.SIG_SETMASK, ())
        w = Worker(mod, env, write, stop, budgetEnd, scale)
        if hasattr(mod, "prepare"):
            mod.prepare(env)
        found = w.main()
        if found:
            stop[0] = 1
            result["violation"] = {"case": found[0], "message": found[1], "attempts": found[2]}
    except BaseException as e:
        result["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]
        if isinstance(e, Stopped):
            result.pop("error")
    if w:
        result.update(evaluations=w.evaluations, distinct=sorted(w.distinct), labels=w.labels, samples=w.samples, wallStopped=w.wallStopped,
                      unconfirmed=[(c[:3000], m) for c, m in w.unconfirmed])
    try:
        if os.getuid() >= 20000:
            killAll()
            os.chdir("/")
            shutil.rmtree(env.scratch, ignore_errors=True)
    except BaseException:
        pass
    with os.fdopen(write, "w") as f:
        json.dump(result, f)
    os._exit(0)


def replayCase(mod, env, case, write):
    """Runs inside a worker process: the replay of one case."""


def main(argv):
    start = time.monotonic()
    p = argparse.ArgumentParser()
    p.add_argument("id")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    p.add_argument("--replay")
    p.add_argument("--repeat", type=int, default=5)
    p.add_argument("--scale", type=float, default=1.0)
    p.add_argument("--workers", type=int, default=0)
    p.add_argument("--wall", type=float, default=0)
    p.add_argument("--verbose", action="store_true")
    a = p.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    mod = importlib.import_module("checks." + a.id.lower())
    try:
        bins = build.get(mod.ARTIFACTS)
    except build.BuildError as e:
        print("BUILD FAILED\n%s" % e, file=sys.stderr)
        return 3
    built = time.monotonic()
    workers = a.workers or getattr(mod, "WORKERS", 32)
    # Private, unprivileged user ids, distinct for simultaneously running checks (also for ones that do not share /tmp)
    lockDir = "/tmp"
    base, lock = None, None
    first = int(os.environ["KV_SLOT"]) if os.environ.get("KV_SLOT") else int.from_bytes(os.urandom(2), "little") % 400
    used = _usersOfProcesses()
    for n in [(first + i) % 400 for i in range(400)]:
        if any(21000 + n * 64 <= u < 21000 + n * 64 + 64 for u in used):
            continue
        lock = open(os.path.join(lockDir, ".kv-slot-%d" % n), "w")
        try:
            fcntl.flock(lock, fcntl.LOCK_EX | fcntl.LOCK_NB)
            base = 21000 + n * 64
            break
        except OSError:
            lock.close()
    if base is None:
        print("no free slot", file=sys.stderr)
        return 3
    stop = mmap.mmap(-1, 1)
    wall = a.wall or {"quick": getattr(mod, "WALL", 150), "thorough": getattr(mod, "WALL_THOROUGH", 1500)}[a.tier]
    replay = json.load(open(a.replay))["case"] if a.replay else None
    if replay is not None:
        workers = 1
        case = replay
        class Replay:
            pass
        r = Replay()
        for k in dir(mod):
            if not k.startswith("__"):
                setattr(r, k, getattr(mod, k))
        r.directed = lambda env: [case] * a.repeat
        r.EXAMPLES = {"quick": 0, "thorough": 0}
        mod = r

    reads, pids = {}, []
    for i in range(workers):
        rd, wr = os.pipe()
        uid = base + i
        scratch = "/tmp/kv%d" % uid
        shutil.rmtree(scratch, ignore_errors=True)
        env = Env(i, workers, a.tier, a.seed, dict(bins), scratch, uid)
        env.replay = replay is not None
        sys.stdout.flush(), sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                for other in reads:
                    os.close(other)
                lock.close()
                os.setsid()
                workerMain(mod, env, wr, stop, built + wall, 0 if replay is not None else a.scale)
            finally:
                os._exit(70)
        os.close(wr)
        reads[rd] = b""
        pids.append(pid)
    # Collect
    hard = time.monotonic() + wall + 400
    open_ = set(reads)
    while open_ and time.monotonic() < hard:
        for fd in select.select(list(open_), [], [], 1.0)[0]:
            data = os.read(fd, 1 << 20)
            if not data:
                open_.discard(fd)
            reads[fd] += data
    for pid in pids:
        if open_:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.waitpid(pid, 0)
    for i in range(workers):
        shutil.rmtree("/tmp/kv%d" % (base + i), ignore_errors=True)
    results, broken = [], []
    for fd, data in reads.items():
        try:
            results.append(json.loads(data))
        except ValueError:
            broken.append("worker gave no result")
    broken += [r["error"] for r in results if "error" in r]
    violations = [r["violation"] for r in results if "violation" in r]
    known = loadFindings(a.id)
    reported = []
    seenKnown = set()
    for v in violations:
        key = hashlib.sha256(canonical(v["case"]).encode()).hexdigest()[:16]
        if key in [k for k, _ in known]:
            seenKnown.add(key)
        else:
            reported.append((key, v))
    distinct = set()
    labels = {}
    evaluations = 0
    samples = []
    for r in results:
        distinct.update(r.get("distinct", []))
        evaluations += r.get("evaluations", 0)
        samples += r.get("samples", [])
        for k, n in r.get("labels", {}).items():
            labels[k] = labels.get(k, 0) + n
    wallS = time.monotonic() - start
    evidence = {
        "property": a.id, "tier": a.tier, "seed": a.seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(distinct), "rule": mod.RULE,
            "samples": samples[:8] if samples else ["none"],
            "classes": dict(sorted(labels.items())), "workers": workers, "generated_cases_per_worker": mod.EXAMPLES[a.tier],
            "stopped_by_wall_limit": any(r.get("wallStopped") for r in results),
            "unconfirmed": [u for r in results for u in r.get("unconfirmed", [])][:5],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())),
        "wall_s": round(wallS, 2), "violations": len(reported),
    }
    if replay is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.id + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
    for key, what in known:
        print("KNOWN-FINDING: property=%s %s" % (a.id, what))
    for key, v in reported:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (a.id, key))
        if replay is None:
            with open(path, "w") as f:
                json.dump({"property": a.id, "tier": a.tier, "seed": a.seed, "message": v["message"], "case": v["case"]}, f, indent=1)
        else:
            path = a.replay
        print("%s\n  case: %s" % (v["message"], canonical(v["case"])[:2000]))
        print("VIOLATION property=%s replay=%s" % (a.id, path))
        break
    print("%s: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)%s" % (a.id, evaluations, len(distinct), wallS, built - start, ", wall limit" if evidence["coverage"]["stopped_by_wall_limit"] else ""))
    if a.verbose:
        print(json.dumps(evidence["coverage"]["classes"], indent=1))
    for u in evidence["coverage"]["unconfirmed"]:
        print("unconfirmed: %s\n  case: %s" % (u[1][:500], u[0][:1000]), file=sys.stderr)
    if reported:
        return 1
    if broken:
        print("%d workers failed; the first one:\n%s" % (len(broken), broken[0][-3000:]), file=sys.stderr)
        return 3
    if replay is None and evaluations == 0:
        print("no cases ran", file=sys.stderr)
        return 3
    return 0
