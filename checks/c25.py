"""C25: superB (Charm++) programs compute what the BHaH program computes, whatever the decomposition and message order.

The generated .ci/.h/.cpp files are translated to plain C++ on a monitored message scheduler (lib/charmshim.py): the
real generated code runs, entry methods are delivered in orders chosen by eight policies (global FIFO, random, one
chare lags, slow links, newest first, slow/fast input-output ...), always FIFO per sender-receiver pair.  Built with
ASan+UBSan, uninitialised memory is filled with NaNs.  Online monitors: deadlock, lost/duplicated/out-of-range output
bytes, files left open, pack/unpack sizes, failed assertions.  Recorded: y_n of every chare at every step.  Judged
offline: all schedules of one decomposition give bitwise the same fields and files; chares agree on shared points;
fields and files agree with one chare and with the BHaH program; a run restarted from any checkpoint (chares packed,
their memory poisoned, unpacked, messages in flight dropped) continues unchanged.
"""
import array
import hashlib
import itertools
import math
import re
import shutil
import vlib
import superbproj as S
from vlib import Monitor, QUICK, rng, run_isolated, scratch, sh

MOL = ["RK4", "SSPRK3", "RK3", "DP5", "RK2 MP", "Euler", "CK5", "RK2 Heun", "RK3 Ralston", "L6", "RK2 Ralston", "RK3 Heun", "DP5alt", "DP6", "DP8"]
WCS = {"Spherical": 6.0, "Cartesian": 5.0, "Cylindrical": 6.0, "SinhSpherical": 8.0, "SinhCylindrical": 8.0, "SymTP": 6.0, "SinhSymTP": 8.0, "SinhCartesian": 6.0}
ECS = {"SinhSymTP": 1e3, "SinhSpherical": 1e3, "SinhCylindrical": 1e3, "SinhCartesian": 1e3}
TOL = 1e-9


def arr(b):
    a = array.array("d")
    a.frombytes(b)
    return a


def assemble(recs, nn, NG):
    """global field of step nn; (list per gridfunction, disagreements among chares, shared points, time)"""
    ks = [k for k in recs if k[0] == nn]
    nc = [max(k[i + 1] for k in ks) + 1 for i in range(3)]
    out, worst, shared, t = None, 0.0, 0, None
    for k in ks:
        (n0, n1, n2, g), t, b = recs[k]
        a = arr(b)
        loc = (n0 - 2 * NG, n1 - 2 * NG, n2 - 2 * NG)
        G = [loc[i] * nc[i] + 2 * NG for i in range(3)]
        if out is None:
            out = [array.array("d", [math.inf]) * (G[0] * G[1] * G[2]) for _ in range(g)]
        off = [k[i + 1] * loc[i] for i in range(3)]
        for q, k2, k1 in itertools.product(range(g), range(n2), range(n1)):
            s = n0 * (k1 + n1 * (k2 + n2 * q))
            o = off[0] + G[0] * (k1 + off[1] + G[1] * (k2 + off[2]))
            old, new = out[q][o:o + n0], a[s:s + n0]
            for x, y in zip(old, new):
                if x != math.inf:
                    shared += 1
                    if x != y:
                        worst = max(worst, abs(x - y)) if x == x and y == y else math.inf
            out[q][o:o + n0] = new
    return out, worst, shared, t


def num(x):
    try:
        return float(x)
    except ValueError:
        return math.nan


def table(f):
    return [[num(x) for x in ln.split()] for ln in f.read_bytes().decode("latin-1").split("\n") if ln and not ln.startswith("#")]


def outfiles(w):
    """{kind: [(number in the name, path)]} in order of time"""
    r = {}
    for f in sorted(w.glob("out*d-*")):
        k = re.match(r"out(\d)d-([xyz]+)", f.name)
        if k:
            r.setdefault(k.group(0), []).append((float(re.search(r"(\d[\d.]*)\.txt$", f.name).group(1)), f))
    return {k: sorted(v) for k, v in r.items()}


def same_table(a, b, scale):
    return len(a) == len(b) and all(len(x) == len(y) and all(abs(p - q) <= TOL * (scale + abs(q)) for p, q in zip(x, y)) for x, y in zip(a, b))


def decomps(Nxx, NG, r, n, outer):
    """chare counts per direction: blocks at least as large as the ghost zone, and three points for extrapolation"""
    least = max(NG, 3) if outer == "extrapolation" else NG
    opt = [[c for c in range(1, N // least + 1) if N % c == 0] for N in Nxx]
    allc = [c for c in itertools.product(*opt) if 1 < c[0] * c[1] * c[2] <= 36]
    r.shuffle(allc)
    allc.sort(key=lambda c: -sum(x > 1 for x in c))
    full = [c for c in allc if all(x > 1 for x in c)]
    rest = [c for c in allc if c not in full]
    return (full[:(n + 1) // 2] + rest[:n // 2 + (n - len(full[:(n + 1) // 2]) - n // 2)])[:n]


def config(k):
    r = rng("c25", k)
    kind = "elliptic" if k % 4 == 3 else "wave"
    fd = 2 if k == 4 else r.choice([2, 4])
    if kind == "wave":
        cs = r.choice(list(WCS)) if k else "Spherical"
        kw = dict(cs=cs, size=WCS[cs] * r.uniform(.8, 1.2), fd=fd, mol=MOL[0] if k == 0 else r.choice(["RK3", "SSPRK3", "RK3 Heun", "RK3 Ralston"] if k == 4 else MOL), outer="radiation" if k == 0 else ["extrapolation", "radiation"][k % 2],
                  rad_order=r.choice([2, 4]) if fd == 4 else 2, wtype="PlaneWave" if "Cart" in cs else r.choice(["PlaneWave", "SphericalGaussian"]))
    else:
        cs = r.choice(list(ECS))
        kw = dict(cs=cs, size=ECS[cs], fd=fd, mol=r.choice(["RK4", "SSPRK3"]), rad_order=2 if fd == 2 else 4, out_every=r.choice([2, 3]), code_params=dict(
            bare_mass_0=r.uniform(.2, .8), bare_mass_1=r.uniform(.2, .8), zPunc=r.uniform(2., 6.), eta_damping=r.uniform(5, 20), **{f"{a}{b}_{x}": r.uniform(-.2, .2) for a in "PS" for b in "01" for x in "xyz"}))
    NG = fd // 2
    N = [r.choice([6, 8, 9, 12] if NG == 1 else [9, 12]), r.choice([6, 8] if NG == 1 else [6, 8, 9]), r.choice([4, 6, 8] if NG == 1 else [6, 8])]
    if "Spherical" in cs or "SymTP" in cs or "Cylindrical" in cs:
        pass
    else:
        N = [r.choice([6, 8, 9]) for _ in range(3)]
    # the map across the axis (phi -> phi + pi) needs an even number of points in phi
    if "Cylindrical" in cs and N[1] % 2:
        N[1] = 8
    if ("Spherical" in cs or "SymTP" in cs) and N[2] % 2:
        N[2] = 6
    if k == 4 and N[0] % 2:
        N[0] += 1
    kw["Nxx"] = tuple(N)
    return kind, kw, NG


def gen(a):
    k, what = a
    kind, kw, NG = config(k)
    d = scratch(f"c25_{k}_{what}")
    if what == "ref":
        f = S.wave_ref if kind == "wave" else S.elliptic_ref
        f(d, **kw)
    else:
        f = S.wave if kind == "wave" else S.elliptic
        f(d, **kw)
        rc, o = S.build(d, jobs=3)
        if rc:
            return ("build", o[-1500:])
    return ("ok", str(d))


def judge(a):
    k, dirs = a
    m = Monitor("C25")
    kind, kw, NG = config(k)
    r = rng("c25j", k)
    tag = f"{kind} {kw}"
    from pathlib import Path
    d, ref = Path(dirs["prog"]), Path(dirs["ref"])
    base = scratch(f"c25_{k}_runs")
    if kind == "wave":
        pars0 = {"t_final": 1e-9, "convergence_factor": 1.0}
        S.waveproj.set_par(ref, "prog", t_final=1e-9, outer_bc_type=kw["outer"], diagnostics_output_every=1.0)
        sh("./prog", cwd=str(ref), timeout=60, env={"OMP_NUM_THREADS": "2"})
        rr = S.records(ref / "trace.bin")
        dt = rr[(-1, 0, 0, 0)][1]
        steps = r.randint(5, 8)
        tf = (steps - .5) * dt
        oe = 2 * dt
        if oe < .04:
            oe = max(1, round(.04 / dt)) * dt
        for f in ref.glob("out*d-*"):
            f.unlink()
        (ref / "trace.bin").unlink()
        S.waveproj.set_par(ref, "prog", t_final=tf, outer_bc_type=kw["outer"], diagnostics_output_every=oe)
        pars0 = {"t_final": tf, "diagnostics_output_every": oe, "checkpoint_every": 2 * dt}
    else:
        S.waveproj.set_par(ref, "prog", nn_max=6, diagnostics_output_every=kw["out_every"])
        pars0 = {"nn_max": 6, "diagnostics_output_every": kw["out_every"]}
    rc, o, e = sh("./prog", cwd=str(ref), timeout=100, env={"OMP_NUM_THREADS": "2"})
    if rc or not (ref / "trace.bin").exists():
        m.violation("reference", f"{tag}: BHaH program exits {rc} {e[-800:]}")
        return m.part()
    rref = S.records(ref / "trace.bin")
    # what is drawn
    pols = list(range(8))
    r.shuffle(pols)
    plan = [((1, 1, 1), [(0, 1, 0)])]
    for i, dec in enumerate(decomps(kw["Nxx"], NG, r, 2 if QUICK else 5, kw.get("outer"))):
        runs = [(0, 1, 0)] + [(p, r.randrange(1, 10**6), 0) for p in (pols[i::2] if QUICK else pols * 2)[:3 if QUICK else 16]]
        if kind == "wave":
            runs += [(r.randrange(8), r.randrange(1, 10**6), c) for c in ([1 + (i + k) % 3] if QUICK else [1, 2, 3])]
        plan.append((dec, runs))
    one = None
    for dec, runs in plan:
        first = None
        for pol, seed, restart in runs:
            w = base / f"{'x'.join(map(str, dec))}_{pol}_{seed}_{restart}"
            pars = dict(pars0, Nchare0=dec[0], Nchare1=dec[1], Nchare2=dec[2])
            rc, log, err = S.run(d, w, pars, pol, seed, restart, timeout=200)
            what = f"{tag}: {dec} chares, policy {pol} seed {seed}" + (f", restarted from checkpoint {restart}" if restart else "")
            if rc:
                mech = "restart" if restart else "execution"
                v = [ln for ln in log.splitlines() if ln.startswith("VIOL")]
                m.violation(mech, f"{what}: exit {rc}: {' | '.join(v[:3])} {err[:900] if not v else ''}", f"SHIM_POLICY={pol} SHIM_SEED={seed} SHIM_RESTART={restart}\n{err[-3000:]}")
                continue
            end = dict(zip(*[iter(log.splitlines()[-1].split()[1:])] * 2))
            m.count("executions")
            m.count("messages delivered", int(end["delivered"]))
            m.count("checkpoints", int(end["checkpoints"]))
            m.count("restarts", int(end["restarts"]))
            m.count("output files", int(end["files"]))
            if restart and not int(end["restarts"]):
                raise vlib.HarnessError(f"{what}: no restart happened")
            m.observe(f"order {end['order']}", sample=f"{what}: {end['delivered']} messages of {end['kinds']} kinds over {end['pairs']} links")
            recs = S.records(w / "trace.bin")
            fh = {f.name: f.read_bytes() for f in sorted(w.glob("out*d-*"))}
            res = table(w / "residual_l2_norm.txt") if kind == "elliptic" else []
            shutil.rmtree(w / "log", ignore_errors=True)
            if first is None:
                first = (recs, fh, res, w)
                for key, ((n0, n1, n2, g), t, b) in recs.items():
                    if any(x != x for x in arr(b)):
                        m.violation("fields", f"{what}: step {key[0]} chare {key[1:]}: not a number")
                        break
                continue
            if recs.keys() != first[0].keys():
                m.violation("schedule", f"{what}: steps recorded {sorted(recs.keys() ^ first[0].keys())[:4]} differ from those of another message order")
            else:
                bad = sorted(q for q in recs if recs[q][1:] != first[0][q][1:])
                m.count("chare-steps compared across orders", len(recs))
                if bad:
                    m.violation("restart" if restart else "schedule", f"{what}: fields at step {bad[0][0]} of chare {bad[0][1:]} ({len(bad)} records) differ from those of another message order")
            bad = sorted(f for f in set(fh) | set(first[1]) if fh.get(f) != first[1].get(f))
            if bad:
                m.violation("restart" if restart else "schedule", f"{what}: output files differ from those of another message order: {bad[:3]}")
            if not same_table(res, first[2], 1.0):
                m.violation("schedule", f"{what}: residual history differs")
        if first is None:
            continue
        recs, fh, res, w = first
        nns = sorted({q[0] for q in recs})
        glob = {}
        for nn in nns:
            out, worst, shared, t = assemble(recs, nn, NG)
            glob[nn] = (out, t)
            m.count("points shared by chares", shared)
            if worst:
                m.violation("ghosts", f"{tag}: {dec} chares, step {nn}: chares disagree by {worst:.3e} on a point they share")
        ref_glob = one if one else {nn: (lambda z: (z[0], z[3]))(assemble(rref, nn, NG)) for nn in sorted({q[0] for q in rref})}
        name = "one chare" if one else "the BHaH program"
        com = [nn for nn in ref_glob if nn in glob and not (kind == "elliptic" and nn == -1)]
        if len(com) < 4:
            m.violation("steps", f"{tag}: {dec} chares: only steps {com} in common with {name}; {nns}")
        if kind == "wave" and set(ref_glob) != set(glob):
            m.violation("steps", f"{tag}: {dec} chares: steps {nns}, {name} {sorted(ref_glob)}")
        for nn in com:
            (A, ta), (B, tb) = glob[nn], ref_glob[nn]
            if ta != tb:
                m.violation("time", f"{tag}: {dec} chares: time {ta} at step {nn}, {name} {tb}")
            sc = max(max(map(abs, y)) for y in B) + 1e-300
            for q, (x, y) in enumerate(zip(A, B)):
                if len(x) != len(y):
                    m.violation("fields", f"{tag}: {dec} chares: {len(x)} points, {name} {len(y)}")
                    break
                dmax = max(abs(a_ - b_) if a_ == a_ and b_ == b_ else math.inf for a_, b_ in zip(x, y))
                m.observe(None, len(x))
                if not dmax <= TOL * sc:
                    m.violation("fields", f"{tag}: {dec} chares: field {q} at step {nn} differs from {name} by {dmax:.3e} of {sc:.3e}")
                    break
        # output files
        F = outfiles(w)
        G = outfiles(ref if not one else one_w)
        if kind == "wave" or one:
            if {q: len(v) for q, v in F.items()} != {q: len(v) for q, v in G.items()} or not F:
                m.violation("files", f"{tag}: {dec} chares: output files {({q: len(v) for q, v in F.items()})}, {name} {({q: len(v) for q, v in G.items()})}")
            else:
                for q in F:
                    for (_, f), (_, g) in zip(F[q], G[q]):
                        x, y = table(f), table(g)
                        if not one:
                            nd = int(q[3])
                            y = [row[:nd] + [row[-3], row[-1]] for row in y]
                        m.count("output lines", len(x))
                        sc = max([abs(t) for row in y for t in row] + [1e-300])
                        if not same_table(x, y, sc):
                            m.violation("files", f"{tag}: {dec} chares: {f.name} differs from that of {name}: {len(x)} lines, {len(y)}; first {x[:1]} {y[:1]}")
        if kind == "elliptic":
            if one and not same_table([t[2:] for t in res], [t[2:] for t in one_res], 1.0):
                m.violation("residual", f"{tag}: {dec} chares: residual history {res[-1:]}, one chare {one_res[-1:]}")
            if not one:
                R = [t for t in table(ref / "residual_l2_norm.txt")]
                h = {int(t[0]): t[2] for t in R}
                for t in res:
                    if int(t[0]) in h and abs(h[int(t[0])] - t[2]) > 1e-7 * (1 + abs(t[2])):
                        m.violation("residual", f"{tag}: log10 residual {t[2]} at step {t[0]}, BHaH program {h[int(t[0])]}")
        if one is None:
            one, one_w, one_res = glob, w, res
        m.count("decompositions")
    if k == 4:  # the outer boundary's quadratic extrapolation needs three points per chare
        w = base / "two_points"
        rc, log, err = S.run(d, w, dict(pars0, Nchare0=kw["Nxx"][0] // 2, Nchare1=1, Nchare2=1), 0, 1, 0, timeout=200)
        if rc == 0 and any(x != x for v in S.records(w / "trace.bin").values() for x in arr(v[2])):
            m.violation("extrapolation-two-point-blocks", "two points per chare in direction 0 with extrapolated outer boundary: the run goes on with fields that are not numbers")
    shutil.rmtree(base, ignore_errors=True)
    m.count("programs")
    return m.part()


def main():
    m = Monitor("C25", rule="distinct delivery orders (hash of the sequence of sender, receiver, entry method)")
    ks = range(6 if QUICK else 40)
    jobs = [(k, w) for k in ks for w in ("prog", "ref")]
    dirs = {}
    for i, st, res in run_isolated(gen, jobs, timeout=800):
        if st != "ok":
            raise vlib.HarnessError(f"{jobs[i]}: {st} {res}")
        if res[0] != "ok":
            m.violation("build", f"{config(jobs[i][0])[:2]}: the generated program does not compile: {res[1]}")
        dirs.setdefault(jobs[i][0], {})[jobs[i][1]] = res[1] if res[0] == "ok" else None
    todo = [(k, v) for k, v in dirs.items() if all(v.values()) and len(v) == 2]
    for i, st, res in run_isolated(judge, todo, timeout=800):
        if st == "ok":
            m.merge(res)
        else:
            raise vlib.HarnessError(f"{todo[i]}: {st} {res}")
    m.require("programs", 3)
    m.require("executions", 10)
    m.require("restarts", 1)
    m.finish()


vlib.main(main)
