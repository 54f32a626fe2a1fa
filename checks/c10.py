"""C10: a run restarted from a checkpoint continues exactly as if it had never stopped, whatever interrupted it."""
import os
import re
import shutil
from pathlib import Path
import vlib
from vlib import Monitor, run_isolated, rng, scratch, sh, QUICK
import bhah
import waveproj as W

SYSCALLS = "write,pwrite64,writev,openat,creat,rename,renameat,renameat2,fsync,fdatasync,ftruncate,close"
STEPS = 14
FIELDS = dict(BEGIN=4, STEP=4, WBEGIN=3, WCP=8, RCP=7)


def cp_name(cf):
    return "checkpoint-conv_factor%.2f.dat" % cf


def parse(p):
    ev = []
    if p.exists():
        t = p.read_text(errors="replace")
        for ln in t[: t.rfind("\n") + 1].splitlines():
            if len(ln.split()) == FIELDS.get(ln.split(" ")[0]):
                ev.append(ln.split())
    return ev


class Prog:
    """One built program and its reference (uninterrupted) trajectory."""

    def __init__(self, d, cf, threads):
        self.d, self.cf, self.threads = Path(d), cf, threads

    def run(self, wd, log, kill_step=None, strace=None, fsize=None, leaks=False, cf=None, timeout=120):
        env = dict(MON_LOG=str(log), OMP_NUM_THREADS=str(self.threads))
        env["ASAN_OPTIONS"] = vlib.SAN_ENV["ASAN_OPTIONS"].replace("detect_leaks=1", f"detect_leaks={int(leaks)}")
        env["UBSAN_OPTIONS"], env["LSAN_OPTIONS"] = vlib.SAN_ENV["UBSAN_OPTIONS"], vlib.SAN_ENV["LSAN_OPTIONS"]
        if kill_step is not None:
            env["MON_KILL_STEP"] = str(kill_step)
        cmd = [str(self.d / "prog"), "prog.par", repr(self.cf if cf is None else cf)]
        if strace:
            cmd = ["strace", "-f", "-y", "-qq", "-o", "strace.out"] + strace + cmd
        if fsize:
            cmd = ["bash", "-c", f"{'trap \"\" XFSZ; ' if fsize[1] else ''}ulimit -f {fsize[0]}; exec \"$@\"", "x"] + cmd
        return sh(cmd, cwd=str(wd), env=env, timeout=timeout)


def due(t, dt, every):
    x = abs(round(t / every) * every - t) / dt if every > 0 else 0
    return True if x < 0.5 - 1e-6 else (False if x > 0.5 + 1e-6 else None)


class Judge:
    """Follows a history of runs in one directory and checks every logged event against the reference."""

    def __init__(self, m, case, ref):
        self.m, self.case, self.ref = m, case, ref
        self.good = None  # nn of the newest checkpoint known complete
        self.maybe = None  # nn of a checkpoint whose write was interrupted
        self.hist = []

    def bad(self, mech, msg):
        self.m.violation(mech, f"{self.case}; history {self.hist}: {msg}")

    def run(self, what, ev, rc, err, fault, must_finish=False):
        self.hist.append(what)
        m = self.m
        rep = bhah.san_report(rc if not fault else max(rc, 0), err)
        if rep:
            self.bad("sanitizer", rep)
            return False
        restart = next((e for e in ev if e[0] == "RCP"), None)
        prev = None
        ok = True
        if restart:
            m.count("restarts" if restart[1] == "1" else "fresh starts")
            nn = int(restart[2])
            if restart[1] == "1":
                if self.good is None and self.maybe is None:
                    self.bad("restart:from-nothing", f"restarted at iteration {nn} although no checkpoint was completed")
                lo = self.good if self.good is not None else 0
                hi = self.maybe if self.maybe is not None else lo
                if not lo <= nn <= max(hi, lo):
                    self.bad("restart:stale", f"restarted at iteration {nn}; the newest complete checkpoint is of iteration {self.good}" + (f" ({self.maybe} was being written)" if self.maybe else ""))
                    ok = False
                if nn in self.ref["h"] and restart[6] != self.ref["h"][nn]:
                    self.bad("restart:fields", f"fields read from the checkpoint of iteration {nn} differ from those of the uninterrupted run")
                    ok = False
                if int(restart[5]) != nn or abs(float(restart[4]) - float(restart[3])) > 0:
                    self.bad("restart:t0", f"after a restart at {nn}, t_0 = {restart[4]} and nn_0 = {restart[5]}")
                prev = nn
            else:
                if self.good is not None:
                    self.bad("restart:ignored", f"started from scratch although the checkpoint of iteration {self.good} was complete")
                prev = 0
        first_w = True
        for e in ev:
            if e[0] in ("BEGIN", "STEP"):
                nn, t, h = int(e[1]), float(e[2]), e[3]
                m.observe()
                m.count("steps compared", e[0] == "STEP")
                want = prev if e[0] == "BEGIN" else (prev + 1 if prev is not None else None)
                if want is not None and nn != want:
                    self.bad("iteration-count", f"{e[0]} iteration {nn}, expected {want}")
                    ok = False
                prev = nn
                if nn not in self.ref["h"]:
                    self.bad("iteration-range", f"iteration {nn} does not occur in the uninterrupted run (last {max(self.ref['h'])})")
                    ok = False
                elif h != self.ref["h"][nn] or abs(t - self.ref["t"][nn]) > 1e-11 * max(1, abs(t)):
                    self.bad("fields", f"{e[0]} iteration {nn}: fields or time (t={t}, uninterrupted {self.ref['t'][nn]}) differ from the uninterrupted run")
                    ok = False
                if not ok:
                    return False
            elif e[0] == "WBEGIN":
                self.pending = int(e[1])
            elif e[0] == "WCP":
                nn, t, dt, every, same, changed = int(e[1]), float(e[2]), float(e[3]), float(e[4]), e[5] == "1", e[6] == "1"
                m.count("checkpoint calls")
                if not same:
                    self.bad("write:alters-state", f"write_checkpoint changed the evolved fields at iteration {nn}")
                if not fault:
                    dd = due(t, dt, every)
                    if dd is False and changed:
                        self.bad("write:not-due", f"checkpoint written at t={t} (every {every}, dt {dt})")
                    if dd is True and not changed and not (first_w and restart and restart[1] == "1"):
                        self.bad("write:missing", f"no checkpoint written at t={t} (every {every}, dt {dt})")
                if changed:
                    m.count("checkpoints written")
                    self.good, self.maybe = nn, None
                first_w = False
        if ev and ev[-1][0] == "WBEGIN":
            m.count("writes interrupted")
            self.maybe = int(ev[-1][1])
        if must_finish:
            steps = [int(e[1]) for e in ev if e[0] == "STEP"]
            last = steps[-1] if steps else prev
            if rc != 0 or last != max(self.ref["h"]):
                self.bad("not-finished", f"the undisturbed run ended with status {rc} at iteration {last} of {max(self.ref['h'])}; {err[-300:]}")
                return False
        return ok


def config(r, k):
    coords = r.choice([("Spherical",), ("SinhSpherical",), ("Cylindrical",), ("Cartesian",), ("SymTP",), ("Spherical", "Cartesian"), ("SinhCylindrical", "SinhSpherical"), ("Cartesian", "Spherical", "Cylindrical")])
    if k % 3 == 0 and len(coords) == 1:
        coords = coords + (("Cartesian",) if coords[0] != "Cartesian" else ("Spherical",))
    simd = r.random() < 0.5
    Nxx = {}
    for cs in coords:
        Nxx[cs] = [8, 4, 4] if "Spher" in cs else ([8, 8, 8] if "Cart" in cs else [8, 4, 6])
    mol = r.choice(["RK4", "RK4", "Euler", "RK2 Heun", "RK3 Ralston", "SSPRK3", "RK3", "RK2 MP", "DP5", "L6"] if not QUICK else ["RK4", "RK4", "Euler", "RK2 Heun", "SSPRK3", "RK3"])
    return dict(coords=coords, Nxx=Nxx, mol=mol, simd=simd, pre=simd or r.random() < 0.4, fd=r.choice([2, 4]))


def project(task):
    k, seed = task
    m = Monitor("C10")
    r = rng("ckpt", seed, k)
    cfg = config(r, k)
    threads = r.choice([1, 2, 3])
    d = scratch(f"ckpt{k}")
    case = f"{cfg} threads {threads}"
    W.generate(d / "p", **cfg)
    flags = bhah.SAN + (" -mavx2 -mfma" if cfg["simd"] else "")
    rc, log = W.build(d / "p", flags=flags)
    if rc:
        m.violation("build", f"{case}: {log[-1500:]}")
        return m.part()
    P = Prog(d / "p", 1.0, threads)
    base = d / "p" / "prog.par"

    def fresh(name, **kw):
        wd = d / name
        shutil.rmtree(wd, ignore_errors=True)
        wd.mkdir()
        shutil.copy(base, wd)
        W.set_par(wd, **kw)
        return wd

    # reference: uninterrupted run
    wd = fresh("ref", t_final=1e-12, checkpoint_every=1e9, diagnostics_output_every=1e9)
    rc, o, e = P.run(wd, wd / "log")
    ev = parse(wd / "log")
    dt = next(float(x[3]) for x in ev if x[0] == "WCP")
    every = dt * r.choice([1.0, 2.0, 2.6, 3.3])
    pars = dict(t_final=dt * (STEPS - 0.5), checkpoint_every=every, diagnostics_output_every=dt * r.choice([3.0, 100.0]), outer_bc_type=r.choice(["radiation", "extrapolation"]))
    wd = fresh("ref", **pars)
    rc, o, e = P.run(wd, wd / "log", leaks=True)
    ev = parse(wd / "log")
    ref = dict(h={}, t={})
    for x in ev:
        if x[0] in ("BEGIN", "STEP"):
            if int(x[1]) in ref["h"] and ref["h"][int(x[1])] != x[3]:
                m.violation("state-changed-between-steps", f"{case}: fields changed between the end of step {x[1]} and the next step")
            ref["h"][int(x[1])], ref["t"][int(x[1])] = x[3], float(x[2])
    J = Judge(m, case, ref)
    J.run("uninterrupted", ev, rc, e, False, must_finish=True)
    if len(ref["h"]) < STEPS or len(set(ref["h"].values())) < STEPS:
        m.violation("reference", f"{case}: the uninterrupted run made only {len(ref['h'])} steps, {len(set(ref['h'].values()))} distinct states; status {rc} {e[-800:]}")
        return m.part()
    size = (wd / cp_name(1.0)).stat().st_size if (wd / cp_name(1.0)).exists() else 0
    m.observe(case, sample=f"{case}: {len(ref['h'])} steps, checkpoint {size} bytes")
    if not size:
        m.violation("write:missing", f"{case}: the run left no {cp_name(1.0)}")
        return m.part()
    # which system calls touch the checkpoint
    wd = fresh("tr", **pars)
    P1 = Prog(d / "p", 1.0, 1)
    rc, o, e = P1.run(wd, wd / "log", strace=["-e", "trace=" + SYSCALLS])
    points = []
    if rc == 0 and (wd / "strace.out").exists():
        cnt = {}
        for ln in (wd / "strace.out").read_text(errors="replace").splitlines():
            mm = re.match(r"(?:\d+ +)?(\w+)\((.*)", ln)
            if mm:
                cnt[mm[1]] = cnt.get(mm[1], 0) + 1
                if "checkpoint" in mm[2].split("= ")[0][:400] and "mon" not in mm[1]:
                    points.append((mm[1], cnt[mm[1]], "O_RDONLY" in mm[2]))
    points = [p[:2] for p in points if not p[2]]
    m.count("checkpoint system calls", len(points))
    nhist = 7 if QUICK else 60
    for hno in range(nhist):
        wd = fresh(f"h{hno}", **pars)
        J = Judge(m, case, ref)
        good = True
        for rn in range(r.randint(1, 3)):
            log = wd / f"log{rn}"
            kind = r.choice(["kill", "syskill", "syskill", "syserr", "fsize"])
            if not points and kind.startswith("sys"):
                kind = "fsize"
            if kind == "kill":
                s = r.randrange(1, STEPS - 1)
                rc, o, e = P.run(wd, log, kill_step=s)
                what = f"killed at step {s}"
            elif kind == "fsize":
                lim = r.randrange(8, max(9, size // 1024))  # (KiB) the monitor's own log stays below
                ign = r.random() < 0.6
                rc, o, e = P.run(wd, log, fsize=(lim, ign))
                what = f"files limited to {lim} KiB" + ("" if ign else " (SIGXFSZ)")
            else:
                # the trace was taken from scratch; in a restarted run the same counts still hit somewhere
                call, n = r.choice(points)
                if rn:
                    n = r.randint(1, n)
                act = "signal=KILL" if kind == "syskill" else "error=" + r.choice(["ENOSPC", "EIO", "EDQUOT"])
                rc, o, e = P1.run(wd, log, strace=["-e", "trace=" + SYSCALLS, "-e", f"inject={call}:{act}:when={n}"])
                what = f"{act} at {call} no. {n}"
            m.count("faults injected")
            m.observe((k, seed, hno, rn, what))
            good = J.run(what, parse(log), rc, e, True)
            if not good:
                break
        if good:
            log = wd / "logz"
            rc, o, e = P.run(wd, log, leaks=True)
            J.run("undisturbed", parse(log), rc, e, False, must_finish=True)
        shutil.rmtree(wd)
    # unusable checkpoint files: refused (or ignored), never used
    src = d / "ref" / cp_name(1.0)
    data = src.read_bytes()
    other = None
    for tno in range(6 if QUICK else 30):
        wd = fresh("t", **pars)
        z = ["cut", "cut", "extra", "empty", "dir", "resolution"][tno % 6]
        f = wd / cp_name(1.0)
        if z == "cut":
            n = r.choice([1, 10, r.randrange(1, len(data)), len(data) - 1, len(data) - r.randrange(1, 2000)])
            f.write_bytes(data[:max(0, n)])
            z = f"cut to {n} of {len(data)} bytes"
        elif z == "extra":
            f.write_bytes(data + os.urandom(r.choice([1, 8, 4096])))
        elif z == "empty":
            f.write_bytes(b"")
        elif z == "dir":
            f.mkdir()
        else:
            if other is None:
                wo = fresh("o", **pars)
                cf2 = 2.0
                rc, o, e = P.run(wo, wo / "log", cf=cf2, kill_step=3)
                other = (wo / cp_name(cf2)).read_bytes() if (wo / cp_name(cf2)).exists() else b""
            f.write_bytes(other)
            z = "of another resolution"
        rc, o, e = P.run(wd, wd / "log")
        ev = parse(wd / "log")
        m.count("unusable checkpoints")
        m.observe((k, seed, "unusable", z))
        rep = bhah.san_report(rc, e)
        if rep:
            m.violation("unusable:sanitizer", f"{case}: checkpoint {z}: {rep}")
            continue
        steps = [x for x in ev if x[0] in ("BEGIN", "STEP")]
        if any(int(x[1]) not in ref["h"] or ref["h"][int(x[1])] != x[3] for x in steps):
            m.violation("unusable:used", f"{case}: checkpoint {z} was used: iteration {steps[0][1]} starts from other fields than the uninterrupted run")
        elif rc == 0 and not steps:
            m.violation("unusable:used", f"{case}: checkpoint {z}: the program ended normally without a single step")
        elif rc != 0 and not e.strip() and not o.strip():
            m.violation("unusable:silent", f"{case}: checkpoint {z}: exit {rc} without a message")
    shutil.rmtree(d)
    return m.part()


def main():
    m = Monitor("C10", "exploration", rule="distinct = generated program, injected fault (point, kind) in a history of runs, unusable checkpoint")
    m.assumptions.append("the right-hand side does not depend on time, so restarted fields must agree bit for bit; the time itself to roundoff")
    n = 5 if QUICK else 24
    tasks = [(k, vlib.SEED) for k in range(n)]
    for i, st, pl in run_isolated(project, tasks, timeout=800, procs=5):
        if st == "ok":
            m.merge(pl)
        elif st == "exc":
            raise vlib.HarnessError(f"{tasks[i]}: {pl[0]} {pl[1]}\n{pl[2]}")
        else:
            raise vlib.HarnessError(f"{tasks[i]} {st} {pl}")
    m.require("restarts", 15)
    m.require("faults injected", 20)
    m.require("steps compared", 200)
    m.finish()


vlib.main(main)
