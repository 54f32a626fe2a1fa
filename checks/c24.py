"""C24: the generated NRPyElliptic program relaxes to the solution of the Hamiltonian constraint.

Complete programs for random coordinates, orders, options and puncture parameters are generated, built with
ASan+UBSan and run.  A linked-in monitor calls the real kernels on random fields and records every diagnostics
call.  Judged: background conformal factor (closed form), source term (expression; closed form where the known
finding of C19 does not act), wave speed, right-hand sides and residual (this check's own Laplacian with exact
finite-difference weights), norms (this check's volume elements), the recorded residual history, when the program
stops, and that the residual falls and the solution of a weak spinning puncture is the perturbative one.
"""
import math
import re
import struct
import mpmath as mp
import bhah
import coords as co
import ellproj
import vlib
from dageval import DagEval
from fdsten import stencil
from vlib import Monitor, QUICK, quiet, rng, run_isolated, scratch
import nrpy.params as par

FLAGS = bhah.SAN.replace("-g ", "")
CS = ["SinhSymTP", "Spherical", "SinhSpherical", "Cylindrical", "SinhCylindrical", "SymTP", "Cartesian", "SinhCartesian", "SinhSphericalv2n2", "SinhCylindricalv2n2"]
R3 = range(3)
PNAMES = ["bare_mass_0", "bare_mass_1", "zPunc"] + [f"{a}{b}_{x}" for a in "PS" for b in "01" for x in "xyz"]


def close(a, b, rel, ab=0.0):
    return abs(a - b) <= rel * max(abs(a), abs(b)) + ab


def parse(d):
    L = (d / "grid.txt").read_text().splitlines()
    h = L[0].split()
    P = {k: float(v) for k, v in (t.split("=") for t in h[2:])}
    return float(h[0]), int(h[1]), P, [[float(t) for t in L[1 + a].split()] for a in R3]


def readd(p):
    b = p.read_bytes()
    return struct.unpack(f"{len(b) // 8}d", b)


def source(v, x):
    """Bowen-York A_ij A^ij of two punctures on the z axis, flat"""
    A = [[0.0] * 3 for _ in R3]
    for b, z in (("0", v["zPunc"]), ("1", -v["zPunc"])):
        dx = [x[0], x[1], x[2] - z]
        r = math.sqrt(sum(t * t for t in dx))
        n = [t / r for t in dx]
        P, S = ([v[f"{a}{b}_{c}"] for c in "xyz"] for a in "PS")
        nP = sum(n[i] * P[i] for i in R3)
        X = [S[1] * n[2] - S[2] * n[1], S[2] * n[0] - S[0] * n[2], S[0] * n[1] - S[1] * n[0]]
        for i in R3:
            for j in R3:
                A[i][j] += 1.5 / r**2 * (P[i] * n[j] + P[j] * n[i] + nP * (n[i] * n[j] - (i == j))) + 3 / r**3 * (X[i] * n[j] + X[j] * n[i])
    return sum(A[i][j] ** 2 for i in R3 for j in R3)


def program(k):
    m = Monitor("C24")
    r = rng("ell", k)
    cs = CS[(k + vlib.SEED - 1) % len(CS)] if QUICK else r.choice(CS)
    u = lambda a, b: round(r.uniform(a, b), 4)
    simd = r.random() < 0.4
    c = dict(cs=cs, fd=r.choice([2, 4, 6]), simd=simd, pre=True, collapse=r.choice([1, 2]), size=r.choice([6.0, 20.0]), rad_order=r.choice([2, 4]),
             mol=r.choice(["RK4", "RK3", "SSPRK3"]), spin_only=r.random() < 0.5)
    v = {n: 0.0 for n in PNAMES}
    v.update(zPunc=u(.3, 1.5), bare_mass_0=u(.2, .8), bare_mass_1=u(.2, .8))
    for b in "01":
        for x in "xyz":
            v[f"S{b}_{x}"] = u(-.3, .3)
            if not c["spin_only"]:
                v[f"P{b}_{x}"] = u(-.2, .2)
    nmax = r.choice([25, 40]) if QUICK else r.choice([40, 80, 160])
    cp = dict(v, eta_damping=u(.2, .6), MINIMUM_GLOBAL_WAVESPEED=u(.3, .55) if c["mol"] == "RK4" else u(.2, .35), nn_max=nmax)
    tag = f"{c} {cp}"
    Nx = {"cyl": [12, 4, 14], "cart": [12, 8, 12]}.get(co.family(cs), [16 if simd else 14, 8, 4])   # vectorised loops: whole vectors (C16's finding)
    d = scratch(f"e{k}")
    rad = c["size"] * u(.3, .7)
    ellproj.generate(d, cs, c["size"], Nx, fd=c["fd"], simd=simd, pre=c["pre"], collapse=c["collapse"], rad_order=c["rad_order"], mol=c["mol"], code_params=cp, rad=rad)
    for a in v:
        if a not in par.glb_code_params_dict:
            raise vlib.HarnessError("no parameter " + a)
    rc, log = ellproj.build(d, FLAGS + (" -mavx2 -mfma" if simd else ""))
    if rc:
        m.violation("build", f"{tag}: {log[-1500:]}")
        return m.part()

    def bad(name, msg):
        m.violation(name, f"{tag}: {msg}")

    def run(env=None, args=("prog.par",)):
        for f in ("probe.bin", "start.bin", "mon.log", "last.bin"):
            (d / f).unlink(missing_ok=True)
        for f in d.glob("checkpoint*"):
            f.unlink()
        rc, o, e = bhah.run(d, args, env=env or {"OMP_NUM_THREADS": "1"}, timeout=600)
        rep = bhah.san_report(rc, e)
        if rc or rep:
            bad("run", f"rc {rc} {rep or e[-600:]}")
            return None
        return o

    # first run only to learn the grid, with zero iterations' worth of probing
    (d / "in.bin").unlink(missing_ok=True)
    txt = (d / "prog.par").read_text()
    (d / "prog.par").write_text(re.sub(r"(?m)^nn_max\s*=.*$", "nn_max = 1", txt))
    if run() is None:
        return m.part()
    (d / "prog.par").write_text(txt)
    dt, NG, P, X = parse(d)
    n3 = [len(q) for q in X]
    n = n3[0] * n3[1] * n3[2]
    L = [X[a][-1] - X[a][0] for a in R3]
    inn = []
    for base, amp in ((0.1, 0.08), (0.0, 0.3)):
        t = [(r.uniform(-1, 1), [r.uniform(-2, 2) / L[a] for a in R3], r.uniform(0, 6)) for _ in range(4)]
        inn += [base + amp * sum(A * math.sin(q[0] * x + q[1] * y + q[2] * z + p) for A, q, p in t) for z in X[2] for y in X[1] for x in X[0]]
    (d / "in.bin").write_bytes(struct.pack(f"{2 * n}d", *inn))
    outs = []
    for th in ("1", "3"):
        o = run({"OMP_NUM_THREADS": th})
        if o is None:
            return m.part()
        outs.append((readd(d / "probe.bin"), [t.split() for t in (d / "mon.log").read_text().splitlines()], readd(d / "last.bin"), o))
    (pr, hist, last, o) = outs[0]
    if any(x != y and not (x != x and y != y) for x, y in zip(pr[:-3], outs[1][0][:-3])) or last[:2 * n] != outs[1][2][:2 * n]:
        bad("threads", "kernels or state depend on the number of threads")
    if [h[:2] for h in hist] != [h[:2] for h in outs[1][1]] or any(not close(float(a[2]), float(b[2]), 1e-9, 1e-9) for a, b in zip(hist, outs[1][1])):
        bad("threads", "residual history depends on the number of threads")
    gfo = {}
    for mm in re.finditer(r"#define\s+(\w+)GF\s+(\d+)", (d / "BHaH_defines.h").read_text()):
        gfo[mm[1]] = int(mm[2])
    naux = 3
    if len(pr) != (naux + 3) * n + 3:
        bad("gridfunctions", f"{len(pr)} values recorded for {n} points")
        return m.part()
    lin = lambda q: q[0] + n3[0] * (q[1] + n3[1] * q[2])
    aux = lambda g, l: pr[gfo[g] * n + l]
    rhs = lambda g, l: pr[(naux + gfo[g]) * n + l]
    res = lambda l: pr[(naux + 2) * n + l]
    norms = pr[-3:]
    UU, VV = gfo["UU"], gfo["VV"]
    dx = [P["dxx0"], P["dxx1"], P["dxx2"]]
    start = readd(d / "start.bin")
    if any(x != 0.0 for x in start):
        bad("initial-guess", "the initial guess is not zero")
    # ---- auxevol at all points (a sample of them)
    with quiet():
        from nrpy.equations.nrpyelliptic.ConformallyFlat_SourceTerms import compute_psi_background_and_ADD_times_AUU
        _, AAe = compute_psi_background_and_ADD_times_AUU(cs)
    mp.mp.dps = 30
    pts = [[r.randrange(n3[a]) for a in R3] for _ in range(60)]
    for q in pts:
        x = [X[a][q[a]] for a in R3]
        ca = co.cartr(cs, x, P)
        r0, r1 = (math.sqrt(ca[0] ** 2 + ca[1] ** 2 + (ca[2] - z) ** 2) for z in (v["zPunc"], -v["zPunc"]))
        if min(r0, r1) < 1e-3:
            continue
        l = lin(q)
        want = 1 + v["bare_mass_0"] / 2 / r0 + v["bare_mass_1"] / 2 / r1
        if not close(aux("PSI_BACKGROUND", l), want, 1e-9):
            bad("psi-background", f"{aux('PSI_BACKGROUND', l)} at {ca}, expected {want}")
        if c["spin_only"]:
            want = source(v, ca)
        else:
            want = float(DagEval(lambda s: mp.mpf(x[int(s[2])]) if s in ("xx0", "xx1", "xx2") else mp.mpf(v[s]) if s in v else mp.mpf(P[s]))(AAe))
        if not close(aux("ADD_TIMES_AUU", l), want, 1e-7, 1e-13):
            bad("source", f"A_ij A^ij = {aux('ADD_TIMES_AUU', l)} at {ca}, expected {want}")
        m.count("background points")
    # ---- interior
    vol = []
    allint = [[i, j, kk] for kk in range(NG, n3[2] - NG) for j in range(NG, n3[1] - NG) for i in range(NG, n3[0] - NG)]
    s2 = dict(all=[0.0, 0.0], rad=[0.0, 0.0], uu=[0.0, 0.0])
    ls2 = 0.0
    edge = False
    for q in allint:
        x = [X[a][q[a]] for a in R3]
        h = co.scale(cs, x, P)
        l = lin(q)
        dV = abs(h[0] * h[1] * h[2]) * dx[0] * dx[1] * dx[2]
        R = math.sqrt(sum(t * t for t in co.cartr(cs, x, P)))
        s2["all"][0] += res(l) ** 2 * dV
        s2["all"][1] += dV
        s2["uu"][0] += inn[UU * n + l] ** 2 * dV
        s2["uu"][1] += dV
        edge |= abs(R / rad - 1) < 1e-9
        if R < rad:
            s2["rad"][0] += res(l) ** 2 * dV
            s2["rad"][1] += dV
        ls2 += last[2 * n + l] ** 2 * dV
    for nm, got in zip(("all", "rad", "uu"), norms):
        if nm == "rad" and (edge or not s2["rad"][1]):
            continue
        want = math.log10(1e-16 + math.sqrt(s2[nm][0] / s2[nm][1]))
        m.count("norms")
        if not abs(got - want) <= 1e-8:
            bad("norm", f"log10 norm ({nm}) {got}, expected {want}")
    for q in r.sample(allint, 40):
        x = [X[a][q[a]] for a in R3]
        H = co.hatted(cs, x, P)
        l = lin(q)
        h = co.scale(cs, x, P)
        ws = cp["MINIMUM_GLOBAL_WAVESPEED"] * min(abs(h[a] * dx[a]) for a in R3) / dt
        if not close(aux("VARIABLE_WAVESPEED", l), ws, 1e-10):
            bad("wavespeed", f"{aux('VARIABLE_WAVESPEED', l)} at {x}, expected {ws}")

        def fd(op):
            s = 0.0
            for off, w in stencil(op, c["fd"]).items():
                s += float(w) * inn[UU * n + lin([q[a] + off[a] for a in R3])]
            for a in op.lstrip("dD"):
                s /= dx[int(a)]
            return s
        terms = []
        for a in R3:
            g = 1 / h[a] ** 2
            terms.append(g * fd(f"dDD{a}{a}"))
            for b in R3:
                terms.append(-g * H[f"GammahatUDD{b}{a}{a}"] * fd(f"dD{b}"))
        uu, vv = inn[UU * n + l], inn[VV * n + l]
        terms.append(aux("ADD_TIMES_AUU", l) / 8 * (aux("PSI_BACKGROUND", l) + uu) ** -7)
        want, sc = sum(terms), sum(map(abs, terms))
        if not abs(res(l) - want) <= 1e-9 * sc:
            bad("residual", f"{res(l)} at {x}, expected {want}")
        if not abs(rhs("VV", l) - ws * ws * want) <= 1e-9 * sc * ws * ws:
            bad("vv-rhs", f"{rhs('VV', l)} at {x}, expected {ws * ws * want}")
        if not close(rhs("UU", l), vv - cp["eta_damping"] * uu, 1e-12, 1e-14):
            bad("uu-rhs", f"{rhs('UU', l)} at {x}, expected {vv - cp['eta_damping'] * uu}")
        m.count("kernel points")
    # kernels touch the interior only
    ints = {lin(q) for q in allint}
    if any((rhs("UU", l) != 1.25e300 or res(l) != 1.25e300) != (l in ints) for l in range(n)):
        bad("region", "right-hand side or residual not set in exactly the interior")
    # ---- history
    nn = [int(t[0]) for t in hist]
    if nn != list(range(nmax)):
        bad("stop", f"diagnostics at iterations {nn[:3]}...{nn[-1]}, nn_max {nmax}")
    for t in hist:
        if not close(float(t[1]), int(t[0]) * dt, 1e-9, 1e-12):
            bad("time", f"iteration {t[0]} at time {t[1]}, dt {dt}")
            break
    want = math.log10(1e-16 + math.sqrt(ls2 / s2["all"][1]))
    if c["size"] < 1000 and not abs(float(hist[-1][2]) - want) <= 1e-8:
        bad("norm", f"recorded residual {hist[-1][2]}, of the recorded field {want}")
    f = [t.split() for t in (d / "residual_l2_norm.txt").read_text().splitlines()]
    if [int(t[0]) for t in f] != nn or any(abs(float(a[2]) - float(b[2])) > 1e-12 for a, b in zip(f, hist)):
        bad("history-file", f"residual_l2_norm.txt has {len(f)} rows, {len(hist)} diagnostics calls")
    if f"after {nmax:8d} iterations" not in o:
        bad("stop", "final message does not name nn_max iterations")
    if not all(float(t[2]) < 3 for t in hist):   # short runs pass through transients; convergence is judged in weak()
        bad("relaxation", f"log10 residual goes from {hist[0][2]} to {hist[-1][2]} in {nmax} steps")
    # ---- stop by tolerance
    vals = [float(t[2]) for t in hist]
    j = r.randrange(nmax // 2, nmax)
    tol = vals[j] + 1e-9
    j = next(i for i, t in enumerate(vals) if t < tol)
    (d / "in.bin").unlink()
    (d / "prog.par").write_text(re.sub(r"(?m)^log10_residual_tolerance\s*=.*$", f"log10_residual_tolerance = {tol!r}", txt))
    if run() is not None:
        nn = [int(t.split()[0]) for t in (d / "mon.log").read_text().splitlines()]
        if nn != list(range(j + 1)):
            bad("stop", f"tolerance {tol} first met at iteration {j}, but the last iteration was {nn[-1]}")
        if not list(d.glob("checkpoint*")):
            bad("stop", "no final checkpoint")
    m.count("programs")
    m.observe(f"{c} masses {v['bare_mass_0']},{v['bare_mass_1']}", sample=f"log10 residual {vals[0]:.2f} -> {vals[-1]:.2f}")
    return m.part()


def weak(k):
    """a weakly spinning puncture at the origin: first-order perturbation theory"""
    m = Monitor("C24")
    r = rng("weak", k)
    u = lambda a, b: round(r.uniform(a, b), 4)
    S, mass = u(.02, .05), u(.8, 1.5)
    cp = {n: 0.0 for n in PNAMES}
    cp.update(bare_mass_0=mass, S0_z=S, eta_damping=3.0, MINIMUM_GLOBAL_WAVESPEED=.7, nn_max=700)
    d = scratch(f"w{k}")
    cs = "SinhSpherical"
    ellproj.generate(d, cs, 200.0, [40, 8, 2], fd=4, code_params=cp)
    rc, log = ellproj.build(d, bhah.FAST)
    if rc:
        m.violation("build", log[-1500:])
        return m.part()
    rc, o, e = bhah.run(d, ["prog.par"], timeout=600)
    if rc:
        m.violation("run", f"weak puncture: rc {rc} {e[-500:]}")
        return m.part()
    dt, NG, P, X = parse(d)
    n3 = [len(q) for q in X]
    n = n3[0] * n3[1] * n3[2]
    last = readd(d / "last.bin")
    mp.mp.dps = 15
    # nabla^2 u = -f(r) sin^2(theta), f = 18 S^2/(8 r^6) (1+m/2r)^-7; sin^2 = 2/3 (P_0 - P_2)
    f = lambda s: 2.25 * S * S * s / (s + mass / 2) ** 7
    xs = [10 ** (-4 + 8 * i / 6000) for i in range(6001)]

    def cum(g):
        out = [0.0]
        for a, b in zip(xs, xs[1:]):
            out.append(out[-1] + (b - a) / 6 * (g(a) + 4 * g((a + b) / 2) + g(b)))
        return out
    I = {l: (cum(lambda s: s ** (l + 2) * f(s)), cum(lambda s: s ** (1 - l) * f(s))) for l in (0, 2)}

    def ul(l, R):
        i = min(range(0, 6001), key=lambda t: abs(xs[t] - R))
        a, b = I[l]
        return (a[i] / R ** (l + 1) + R**l * (b[-1] - b[i])) / (2 * l + 1)
    worst = 0
    for i in range(NG, n3[0] - NG):
        for j in range(NG, n3[1] - NG):
            R = co.radial(cs, X[0][i], P)[0].real
            if not .2 < R < 30:
                continue
            ct = math.cos(X[1][j])
            want = 2 / 3 * (ul(0, R) - ul(2, R) * (1.5 * ct * ct - .5))
            got = last[(0 * n) + i + n3[0] * (j + n3[1] * NG)]
            worst = max(worst, abs(got / want - 1))
            m.count("solution points")
            if not abs(got - want) <= 0.08 * want:
                m.violation("solution", f"S={S} m={mass}: u={got} at r={R} cos={ct}, perturbation theory {want}")
    m.observe(f"weak {S} {mass}", sample=f"worst deviation {worst:.1e}, final log10 residual {(d / 'mon.log').read_text().split()[-1]}")
    m.count("weak punctures")
    return m.part()


def task(t):
    return {"p": program, "w": weak}[t[0]](t[1])


def main():
    m = Monitor("C24", rule="distinct programs (coordinates, options, punctures) and points judged")
    n = (7, 1) if QUICK else (90, 8)
    jobs = [("w", k) for k in range(n[1])] + [("p", k) for k in range(n[0])]
    for i, st, res in run_isolated(task, jobs, timeout=800):
        if st == "ok":
            m.merge(res)
        else:
            raise vlib.HarnessError(f"{jobs[i]}: {st} {res}")
    m.require("programs", 4)
    m.require("kernel points", 100)
    m.require("weak punctures", 1)
    m.finish()


vlib.main(main)
