"""Shared plumbing for the runtime monitors in /verif/checks.

A check builds a Monitor(pid, level), feeds it observations and calls finish().
Verdicts: held on everything observed -> exit 0; violated -> exit 1 and VIOLATION
lines; a defect of the harness itself -> exit 2 (never a VIOLATION line).
"""
import contextlib
import hashlib
import io
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import subprocess
import sys
import time
import traceback
from pathlib import Path

ROOT = Path(os.environ.get("VERIF_ROOT", "/verif"))
REPO = Path("/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
QUICK = TIER != "thorough"
SCRATCH = Path(os.environ.get("VERIF_SCRATCH", "/tmp/vmon.manual"))
NPROC = int(os.environ.get("VERIF_PROCS", "8"))
T0 = time.time()
# time budget for the open-ended part of a check (seconds of wall clock)
BUDGET = float(os.environ.get("VERIF_BUDGET", "0") or 0)


def rng(*salt):
    h = hashlib.sha256(repr((SEED,) + salt).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def elapsed():
    return time.time() - T0


class Monitor:
    def __init__(self, pid, level="exploration", rule=""):
        self.pid, self.level, self.rule = pid, level, rule
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.counts = {}
        self.violations = []
        self.known_hits = {}
        self.assumptions = []
        self.known = [
            k
            for k in load_known()
            if k["property"] == pid and k.get("status") == "known"
        ]

    def observe(self, key=None, n=1, sample=None):
        """Record n oracle evaluations; key identifies the case (None = trivial)."""
        self.evaluations += n
        if key is not None:
            self.keys.add(key if isinstance(key, str) else json.dumps(key, default=str))
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def violation(self, mechanism, message, replay=None):
        """mechanism: short stable key naming what failed (matched against known findings)."""
        for k in self.known:
            if k["mechanism"] == mechanism:
                self.known_hits.setdefault(mechanism, []).append(message)
                return
        self.violations.append((mechanism, message, replay))

    def merge(self, part):
        self.evaluations += part.get("evaluations", 0)
        self.keys.update(part.get("keys", []))
        for s in part.get("samples", []):
            if len(self.samples) < 6:
                self.samples.append(s)
        for k, v in part.get("counts", {}).items():
            self.count(k, v)
        for v in part.get("violations", []):
            self.violation(*v)

    def part(self):
        vs = list(self.violations)
        for m, msgs in self.known_hits.items():
            vs += [(m, x, None) for x in msgs[:3]]
        return dict(
            evaluations=self.evaluations,
            keys=sorted(self.keys),
            samples=self.samples,
            counts=self.counts,
            violations=vs,
        )

    def require(self, name, minimum):
        """A monitor that observed (almost) nothing gives no verdict: harness error."""
        if self.counts.get(name, 0) < minimum and not self.violations:
            raise HarnessError(
                f"monitor observed only {self.counts.get(name, 0)} '{name}' events (<{minimum})"
            )

    def finish(self, extra=None):
        ev_dir = ROOT / "evidence"
        ev_dir.mkdir(exist_ok=True)
        cov = dict(
            evaluations=self.evaluations,
            distinct_nontrivial=len(self.keys),
            rule=self.rule,
            samples=self.samples[:6],
            observed=self.counts,
        )
        if extra:
            cov.update(extra)
        json.dump(
            dict(
                property=self.pid,
                tier="quick" if QUICK else "thorough",
                seed=SEED,
                level=self.level,
                coverage=cov,
                assumptions=self.assumptions,
                wall_s=round(elapsed(), 2),
                violations=len(self.violations),
            ),
            open(ev_dir / f"{self.pid}.json", "w"),
            indent=1,
            default=str,
        )
        for m, msgs in sorted(self.known_hits.items()):
            print(f"KNOWN-FINDING: property={self.pid} {m}: {msgs[0][:300]}")
        print(
            f"[{self.pid}] tier={TIER} seed={SEED} evaluations={self.evaluations} "
            f"distinct={len(self.keys)} counts={self.counts} wall={elapsed():.1f}s"
        )
        if self.violations:
            rdir = ev_dir / "replay"
            rdir.mkdir(exist_ok=True)
            by = {}
            for m, msg, rep in self.violations:
                by.setdefault(m, []).append((msg, rep))
            for i, (m, lst) in enumerate(sorted(by.items())[:20]):
                p = rdir / f"{self.pid}-{i}.txt"
                with open(p, "w") as f:
                    f.write(f"property {self.pid}  mechanism {m}  ({len(lst)} occurrences)\n")
                    f.write(f"rerun: VERIF_SEED={SEED} VERIF_TIER={TIER} {' '.join(sys.argv)}\n\n")
                    for msg, rep in lst[:5]:
                        f.write(msg + "\n")
                        if rep:
                            f.write(str(rep) + "\n")
                        f.write("-" * 60 + "\n")
                print(f"{m}: {lst[0][0][:600]}")
                print(f"VIOLATION property={self.pid} replay={p}")
            sys.stdout.flush()
            sys.exit(1)
        sys.exit(0)


class HarnessError(Exception):
    pass


def load_known():
    p = ROOT / "known_findings.jsonl"
    out = []
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def main(fn):
    """Run a check's main; harness exceptions -> exit 2."""
    try:
        fn()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("HARNESS-ERROR (no verdict)")
        sys.stdout.flush()
        sys.exit(2)


# --------------------------------------------------------------------------
# Isolated execution: each task runs in a forked child so NRPy's global
# registries start in the state the parent had at fork time.
class TaskFailure(Exception):
    pass


def _child(fn, arg, wfd, mem_gb):
    try:
        os.setsid()
        if mem_gb:
            lim = int(mem_gb * 2**30)
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        devnull = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get("VERIF_DEBUG"):
            os.dup2(devnull, 1)
        try:
            res = ("ok", fn(arg))
        except BaseException as e:  # noqa
            res = ("exc", type(e).__name__, str(e), traceback.format_exc())
        data = pickle.dumps(res)
        with os.fdopen(wfd, "wb") as f:
            f.write(data)
    finally:
        # helper processes the task left behind would keep our result pipe open
        me = os.getpid()
        for p in os.listdir("/proc"):
            if p.isdigit() and int(p) != me:
                with contextlib.suppress(OSError):
                    if os.getsid(int(p)) == me:
                        os.kill(int(p), signal.SIGKILL)
        os._exit(0)


def run_isolated(fn, args, procs=None, timeout=300, mem_gb=0, deadline=None):
    """Yield (index, status, payload): status in ok / exc / timeout / died."""
    procs = procs or NPROC
    pending = list(enumerate(args))
    pending.reverse()
    running = {}
    sys.stdout.flush()
    sys.stderr.flush()
    while pending or running:
        while pending and len(running) < procs:
            if deadline and elapsed() > deadline:
                pending.clear()
                break
            i, a = pending.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                _child(fn, a, w, mem_gb)
            os.close(w)
            running[r] = [i, pid, time.time(), []]
        if not running:
            break
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for r in ready:
            buf = os.read(r, 1 << 20)
            if buf:
                running[r][3].append(buf)
            else:
                i, pid, _, chunks = running.pop(r)
                os.close(r)
                _, st = os.waitpid(pid, 0)
                with contextlib.suppress(OSError):
                    os.killpg(pid, signal.SIGKILL)
                data = b"".join(chunks)
                if data:
                    res = pickle.loads(data)
                    if res[0] == "ok":
                        yield i, "ok", res[1]
                    else:
                        yield i, "exc", res[1:]
                else:
                    yield i, "died", st
        now = time.time()
        for r in list(running):
            i, pid, t, _ = running[r]
            if now - t > timeout:
                with contextlib.suppress(OSError):
                    os.killpg(pid, signal.SIGKILL)
                with contextlib.suppress(OSError):
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                running.pop(r)
                yield i, "timeout", timeout


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def sh(cmd, cwd=None, env=None, timeout=300, inp=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(
            cmd,
            cwd=cwd,
            env=e,
            input=inp,
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            timeout=timeout,
            shell=isinstance(cmd, str),
        )
        return p.returncode, p.stdout.decode("latin-1"), p.stderr.decode("latin-1")
    except subprocess.TimeoutExpired as ex:
        return (
            -999,
            (ex.stdout or b"").decode("latin-1"),
            (ex.stderr or b"").decode("latin-1") + "\nTIMEOUT",
        )


def scratch(name):
    d = SCRATCH / name
    d.mkdir(parents=True, exist_ok=True)
    return d


SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98:print_stacktrace=1",
    "LSAN_OPTIONS": "exitcode=97",
}


class SlowCase(BaseException):
    pass


@contextlib.contextmanager
def time_limit(seconds):
    """Abandon a single generated case that makes SymPy crawl (counted, not judged)."""

    def h(signum, frame):
        raise SlowCase()

    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
