"""Common machinery of the checks: sharded exhaustive enumeration, violations, known findings, evidence."""
import json, os, pickle, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_NPROC", "8"))


class CaseTimeout(BaseException):
    """The code under test did not answer in time (BaseException: it must not be caught by it)."""


class Violation(Exception):
    """Raised (or returned) by a case: the property does not hold."""
    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key      # identifies a class of failures that may be a recorded finding


def alarm(seconds):
    # again every 5 s: the code under test may be waiting in the clean-up of what was interrupted
    signal.setitimer(signal.ITIMER_REAL, seconds, 5 if seconds else 0)


def _onAlarm(signum, frame):
    raise CaseTimeout()


class Shard:
    """What one worker process accumulates."""
    def __init__(self, index, count, thorough, seed):
        self.index, self.count, self.thorough, self.seed = index, count, thorough, seed
        self.counters = {}
        self.samples = []
        self.violations = []
        self.findings = {}
        self.hashes = set()
        self.cases = 0
        self.caseLimit = 20.0

    def add(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def distinct(self, obj):
        """Count obj among the distinct things (states) seen."""
        self.hashes.add(hash(obj))

    def sample(self, obj, every=1):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def mine(self, iterable):
        """This worker's part of an enumeration, which all workers generate identically."""
        for i, item in enumerate(iterable):
            if i % self.count == self.index:
                yield item

    def full(self):
        return len(self.violations) >= 3

    def run(self, case, func, *args, **kwargs):
        """Run func on one case; whatever goes wrong in it is a violation described by the case."""
        self.cases += 1
        alarm(self.caseLimit)
        try:
            func(*args, **kwargs)
        except CaseTimeout:
            self.violations.append(dict(message="no answer within %g s" % self.caseLimit, case=case))
        except Violation as v:
            if v.key is not None:
                f = self.findings.setdefault(v.key, dict(count=0, message=str(v), case=case))
                f["count"] += 1
            else:
                self.violations.append(dict(message=str(v), case=case))
        except Exception as e:
            self.violations.append(dict(message="unexpected %s: %s" % (type(e).__name__, e), case=case,
                                        traceback=traceback.format_exc()))
        finally:
            alarm(0)


def _work(worker, shard, fd):
    signal.signal(signal.SIGALRM, _onAlarm)
    os.setpgid(0, 0)        # with whatever processes it starts, which end with it
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass
    try:
        worker(shard)
    except BaseException as e:
        alarm(0)
        shard.violations.append(dict(message="unexpected %s outside of a case: %s" % (type(e).__name__, e), case=None,
                                     traceback=traceback.format_exc()))
    data = pickle.dumps((shard.counters, shard.samples, shard.violations, shard.findings, shard.hashes, shard.cases))
    with os.fdopen(fd, "wb") as f:
        f.write(data)
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(0)


class Check:
    def __init__(self, pid, level, tier, seed):
        self.pid, self.level, self.tier, self.seed = pid, level, tier, seed
        self.thorough = tier == "thorough"
        self.counters, self.samples, self.violations, self.findings = {}, [], [], {}
        self.hashes = set()
        self.cases = 0
        self.coverage = {}
        self.assumptions = []
        self.t0 = time.time()

    def add(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sharded(self, worker, nproc=None):
        """Run worker(shard) in nproc processes and merge what they found."""
        nproc = nproc or NPROC
        sys.stdout.flush(); sys.stderr.flush()
        children = []
        for i in range(nproc):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for _, fd in children:
                    os.close(fd)
                _work(worker, Shard(i, nproc, self.thorough, self.seed), w)
            os.close(w)
            children.append((pid, r))
        for pid, r in children:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            _, status = os.waitpid(pid, 0)
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            if not data:
                self.violations.append(dict(message="a worker process died (status %d)" % status, case=None))
                continue
            self.merge(*pickle.loads(data))

    def inline(self, worker):
        """Run worker in this process only."""
        shard = Shard(0, 1, self.thorough, self.seed)
        old = signal.signal(signal.SIGALRM, _onAlarm)
        worker(shard)
        signal.signal(signal.SIGALRM, old)
        self.merge(shard.counters, shard.samples, shard.violations, shard.findings, shard.hashes, shard.cases)

    def merge(self, counters, samples, violations, findings, hashes, cases):
        for k, v in counters.items():
            self.add(k, v)
        self.samples += samples[: max(0, 5 - len(self.samples))]
        self.violations += violations
        for k, f in findings.items():
            if k in self.findings:
                self.findings[k]["count"] += f["count"]
            else:
                self.findings[k] = f
        self.hashes |= hashes
        self.cases += cases

    def finish(self):
        listed = knownFindings().get(self.pid, {})
        violations = list(self.violations)
        for key, f in sorted(self.findings.items()):
            if key in listed:
                print("KNOWN-FINDING: property=%s key=%s %s (%d cases, such as %s)" %
                      (self.pid, key, listed[key], f["count"], json.dumps(f["case"], default=str)[:300]))
            else:
                violations.append(dict(message=f["message"], case=f["case"], key=key))
        evidence = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                        coverage=self.coverage, assumptions=self.assumptions,
                        wall_s=round(time.time() - self.t0, 2), violations=len(violations))
        if self.findings:
            evidence["coverage"]["known_finding_cases"] = {k: f["count"] for k, f in self.findings.items()}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)
        print("%s %s: %s in %.1f s" % (self.pid, self.tier, json.dumps(
            {k: v for k, v in self.coverage.items() if isinstance(v, (int, bool))}), time.time() - self.t0))
        if violations:
            replayDir = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(replayDir, exist_ok=True)
            for i, v in enumerate(violations[:5]):
                path = os.path.join(replayDir, "%s-%d.json" % (self.pid, i))
                with open(path, "w") as f:
                    json.dump(dict(property=self.pid, **v), f, indent=1, default=str)
                print("  %s" % v["message"][:600])
                print("  case: %s" % json.dumps(v["case"], default=str)[:600])
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        return 0


def knownFindings():
    found = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                fields = line[len("finding:"):].split(None, 2)
                pid = fields[0].split("=", 1)[1]
                key = fields[1].split("=", 1)[1]
                found.setdefault(pid, {})[key] = fields[2] if len(fields) > 2 else ""
    return found
