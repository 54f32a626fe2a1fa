"""C16: complete generated evolution programs solve their equations, cleanly and reproducibly.

Random wave-equation programs (coordinates x integrator x order x SIMD x reference-metric
precomputation x dissipation x boundary condition x solution) are generated by the real generators,
built with ASan+UBSan+LSan and run to the end with different thread counts; a monitor linked in with
ld --wrap hashes the state around every time step and dumps the final fields and coordinates.
Oracles: no sanitizer report, identical state hashes for every thread count, the shipped main loop
steps from t=0 to t_final exactly, and the final fields converge to the exact solution (evaluated
here from the textbook coordinate maps) at the declared order.
Thorough tier: also every shipped example that builds offline, run under the sanitizers.
"""
import math
import re
import shutil
import struct
import sys
import bhah
import coords as co
import vlib
import waveproj as W
from vlib import Monitor, QUICK, quiet, rng, run_isolated, scratch, sh

FLAGS = bhah.SAN + " -fsanitize=float-cast-overflow"
DUMP = r"""
void __real_griddata_free(const commondata_struct *restrict commondata, griddata_struct *restrict griddata, const bool b);
void __wrap_griddata_free(const commondata_struct *restrict commondata, griddata_struct *restrict griddata, const bool b) {
  FILE *f = fopen("final.bin", "wb");
  double h[4] = { (double)commondata->nn, commondata->time, commondata->dt, (double)commondata->NUMGRIDS }; fwrite(h, sizeof(double), 4, f);
  for (int g = 0; g < commondata->NUMGRIDS; g++) {
    const params_struct *p = &griddata[g].params;
    const int N[3] = { p->Nxx_plus_2NGHOSTS0, p->Nxx_plus_2NGHOSTS1, p->Nxx_plus_2NGHOSTS2 };
    fwrite(N, sizeof(int), 3, f);
    for (int d = 0; d < 3; d++) fwrite(griddata[g].xx[d], sizeof(double), N[d], f);
    fwrite(griddata[g].gridfuncs.y_n_gfs, sizeof(double), (size_t)N[0] * N[1] * N[2] * NUM_EVOL_GFS, f);
  }
  fclose(f);
  FILE *pf = fopen("params.txt", "w");
  for (int g = 0; g < commondata->NUMGRIDS; g++) {
    const params_struct *params = &griddata[g].params;
@P@
  }
  fclose(pf);
  __real_griddata_free(commondata, griddata, b);
}
"""
SPH = ["Spherical", "SinhSpherical", "SinhSphericalv2n2", "SinhSphericalv2n4", "HoleySinhSpherical", "RingHoleySinhSpherical"]
ALL = [c for c in co.ALL if co.family(c) != 'wedge']  # wedges have no grid-centre output
METHODS = {"RK4": 4, "SSPRK3": 3, "RK3": 3, "RK3 Heun": 3, "RK3 Ralston": 3, "RK2 MP": 2, "RK2 Heun": 2, "RK2 Ralston": 2, "DP5": 5, "DP5alt": 5, "CK5": 5, "L6": 6, "DP6": 6}


def config(r, k):
    cs = ALL[(k + r.randrange(2) * 5) % len(ALL)]
    f = co.family(cs)
    simd = r.random() < 0.5
    w = 4 if simd else 1
    N = {"cart": [12, 12, 12], "cyl": [12, 12, 12], "sph": [12, 12, 16], "symtp": [12, 12, 16], "wedge": [12, 12, 12]}[f]
    mol = r.choice(list(METHODS))
    fd = r.choice([2, 4, 4] if QUICK else [2, 4, 4, 6])
    coords = (cs,) if r.random() < 0.75 else (cs, r.choice([c for c in ("Cartesian", "Cylindrical", "SinhSpherical") if c != cs]))
    Nx = {c: {"cart": [12, 12, 12], "cyl": [12, 12, 12]}.get(co.family(c), [12, 12, 16]) for c in coords}
    Nx[cs] = N
    wave = r.choice(["PlaneWave", "PlaneWave", "SphericalGaussian"])
    size = r.choice([1.0, 4.0])
    kk = [r.uniform(-1, 1) for _ in range(3)]
    kn = math.sqrt(sum(v * v for v in kk))
    kw = dict(default_k0=kk[0] * 2.3, default_k1=kk[1] * 2.3, default_k2=kk[2] * 2.3) if wave == "PlaneWave" else dict(default_sigma=1.2 * size)
    return dict(coords=coords, Nxx=Nx, mol=mol, simd=simd, pre=simd or r.random() < 0.5, fd=fd, ko=r.random() < 0.3, wave=wave, wcl_kw=kw, size=size,
                collapse=r.choice([1, 2]), rad_order=r.choice([2, 4]) if fd > 2 else 2)


def exact(cfg, P, X, t):
    """(u, v) of the shipped exact solutions, from their definitions"""
    c = P["wavespeed"]
    if cfg["wave"] == "PlaneWave":
        k = [P["kk0"], P["kk1"], P["kk2"]]
        ph = sum(a * b for a, b in zip(k, X)) / math.sqrt(sum(v * v for v in k)) - c * t
        return math.sin(ph) + 2, -c * math.cos(ph)
    r = math.sqrt(sum(v * v for v in X))
    u, v = 2.0, 0.0
    for s in (1, -1):
        y = r + s * c * t
        E = math.exp(-y * y / (2 * P["sigma"] ** 2))
        u += y / r * E
        v += s * c / r * E * (1 - y * y / P["sigma"] ** 2)
    return u, v


def read_final(fn, cfg):
    b = fn.read_bytes()
    nn, t, dt, ng = struct.unpack("4d", b[:32])
    o = 32
    grids = []
    for g in range(int(ng)):
        N = struct.unpack("3i", b[o:o + 12])
        o += 12
        xx = []
        for d in range(3):
            xx.append(struct.unpack(f"{N[d]}d", b[o:o + 8 * N[d]]))
            o += 8 * N[d]
        n = N[0] * N[1] * N[2]
        y = struct.unpack(f"{2 * n}d", b[o:o + 16 * n])
        o += 16 * n
        grids.append((N, xx, y))
    return int(nn), t, dt, grids


def params(txt):
    out = {}
    for ln in txt.splitlines():
        a = ln.split()
        if len(a) == 3:
            out.setdefault(int(a[0]), {})[a[1]] = float(a[2])
    return out


def region(cs, x, rng_):
    """away from outer boundaries and from coordinate singularities (where truncation errors are larger)"""
    lo, hi = rng_
    f = co.family(cs)
    w = [(x[d] - lo[d]) / (hi[d] - lo[d]) for d in range(3)]
    dims = {"cart": (0, 1, 2), "cyl": (0, 2), "wedge": (0, 1, 2)}.get(f, (0, 1))
    return all(0.3 < w[d] < 0.7 for d in dims)


def error(cfg, P, NG, gf, fin):
    """max |error| of v divided by the elapsed time, over points away from the outer boundary, per grid"""
    nn, t, dt, grids = fin
    out = []
    for g, (N, xx, y) in enumerate(grids):
        cs = cfg["coords"][g]
        p = P[g]
        rg = co.ranges(cs, p)
        n = N[0] * N[1] * N[2]
        e, cnt = 0.0, 0
        sq = 0.0
        for k in range(NG, N[2] - NG):
            for j in range(NG, N[1] - NG):
                for i in range(NG, N[0] - NG):
                    x = (xx[0][i], xx[1][j], xx[2][k])
                    if not region(cs, x, rg):
                        continue
                    u, v = exact(cfg, cfg["P"], co.cartr(cs, x, p), t)
                    l = i + N[0] * (j + N[1] * k)
                    du, dv = y[gf["UU"] * n + l] - u, y[gf["VV"] * n + l] - v
                    if du != du or dv != dv:
                        return [(float("inf"), float("inf"), 1)] * len(grids)
                    e = max(e, abs(dv), abs(du))
                    sq += dv * dv + du * du
                    cnt += 1
        out.append((e / t, math.sqrt(sq / cnt) / t if cnt else None, cnt))
    return out


def project(k):
    m = Monitor("C16")
    r = rng("prog", k)
    cfg = config(r, k)
    d = scratch(f"w{k}")
    p = d / "p"
    case = f"{cfg['coords']} {cfg['mol']} fd{cfg['fd']} {'simd ' if cfg['simd'] else ''}{'pre ' if cfg['pre'] else ''}{'KO ' if cfg['ko'] else ''}{cfg['wave']} size {cfg['size']}"
    W.generate(p, ckpt=False, **cfg)
    import gridproj as G
    dump = DUMP.replace("@P@", "\n".join(f'    fprintf(pf, "%d {n} {f}\\n", g, {e});' for n, f, e in G.param_names()))
    (p / "mon.c").write_text((p / "mon.c").read_text() + dump)
    flags = FLAGS + (" -mavx2 -mfma" if cfg["simd"] else "")
    rc, log = W.build(p, flags=flags, ckpt=False, extra="-Wl,--wrap=griddata_free")
    if rc:
        m.violation("build", f"{case}: {log[-1500:]}")
        return m.part()
    NG = int(re.search(r"#define\s+NGHOSTS\s+(\d+)", (p / "BHaH_defines.h").read_text())[1])
    gf = G.gf_order(p)
    base = dict(wavespeed=r.choice([1.0, 0.8, 0.6]), outer_bc_type=r.choice(["radiation", "extrapolation"]), diagnostics_output_every=1e9)
    if cfg["ko"]:
        base["KreissOliger_diss_strength"] = 0.2
    cfg["P"] = {"wavespeed": base["wavespeed"]}
    txt = (p / "prog.par").read_text()
    for n in ("sigma", "kk0", "kk1", "kk2"):
        mm = re.search(rf"^{n}\s*=\s*([-\d.e+]+)", txt, re.M)
        if mm:
            cfg["P"][n] = float(mm[1])

    def go(name, threads, cf=1.0, **kw):
        wd = d / name
        wd.mkdir()
        shutil.copy(p / "prog.par", wd)
        W.set_par(wd, **{**base, **kw})
        rc, o, e = bhah.run(wd, [cf] if cf != 1.0 else [], exe=str(p / "prog"), env=dict(OMP_NUM_THREADS=str(threads), MON_LOG=str(wd / "log")), timeout=200)
        rep = bhah.san_report(rc, e)
        if rc == -999:
            return None
        if rc or rep or not (wd / "final.bin").exists():
            m.violation("run", f"{case} threads {threads}: rc {rc} {rep or (o + e)[-800:]}")
            return None
        ev = [x.split() for x in (wd / "log").read_text().splitlines()]
        return wd, ev, read_final(wd / "final.bin", cfg)

    a = go("probe", 2, t_final=1e-12)
    if a is None:
        return m.part()
    dt = a[2][2]
    steps = r.randint(3, 6)
    T = dt * (steps - 0.5)
    A, B = go("t1", 1, t_final=T), go("t3", 3, t_final=T)
    if A is None or B is None:
        return m.part()
    if A[1] != B[1]:
        bad = next((x, y) for x, y in zip(A[1] + [None], B[1] + [None]) if x != y)
        m.violation("threads", f"{case}: one and three threads disagree from {bad}")
    st = [x for x in A[1] if x[0] == "STEP"]
    if [int(x[1]) for x in st] != list(range(1, steps + 1)) or any(abs(float(x[2]) - (i + 1) * dt) > 1e-12 * dt * steps for i, x in enumerate(st)):
        m.violation("main-loop", f"{case}: t_final={steps - 0.5} dt: steps {[(x[1], float(x[2]) / dt) for x in st]}")
        return m.part()
    for x, y in zip(A[1], A[1][1:]):
        if x[0] == "STEP" and y[0] == "BEGIN" and x[3] != y[3]:
            m.violation("between-steps", f"{case}: the state changes between step {x[1]} and the next")
    C = go("cf2", 4, cf=2.0, t_final=T)
    if C is None:
        return m.part()
    P = params((A[0] / "params.txt").read_text())
    e1, e2 = error(cfg, P, NG, gf, A[2]), error(cfg, params((C[0] / "params.txt").read_text()), NG, gf, C[2])
    for g, cs in enumerate(cfg["coords"]):
        (x1, s1, n1), (x2, s2, n2) = e1[g], e2[g]
        if n1 == 0:
            raise vlib.HarnessError(f"{case}: no comparison points")
        o = math.log2(x1 / x2) if 0 < x2 < 1e300 and x1 < 1e300 else -99
        o2 = math.log2(s1 / s2) if 0 < s2 < 1e300 and s1 < 1e300 else -99
        m.count("convergence measurements")
        m.observe(f"{case} {cs}", n=n1 + n2, sample=f"{case}: grid {g} {cs}: error/t {x1:.2e} -> {x2:.2e}, order {o:.2f} (rms {o2:.2f})")
        fam = co.family(cs)
        need = 0.6 if cfg["fd"] == 2 else (0.9 if fam == "cart" else 2.0)
        if not (s2 < 1e-9 or o2 >= need):
            m.violation("convergence", f"{case} {base}: grid {g} {cs}: rms error/t of the solution is {s1:.3e} at {cfg['Nxx'][cs]} and {s2:.3e} at twice the resolution (order {o2:.2f}, expected about {cfg['fd']})")
        if "-v" in sys.argv:
            print(f"{case}: grid {g} {cs}{cfg['Nxx'][cs]} {base} steps {steps}->{C[2][0]}: {x1:.2e} -> {x2:.2e}, order {o:.2f} rms {s1:.2e} {s2:.2e} {o2:.2f} n {n1}", file=open("/tmp/c16.out", "a"))
    m.count("programs")
    return m.part()


def simd_pair(k):
    """the vectorised program computes what the scalar program computes; k even: Nxx0 a multiple of the
    vector width, odd: not a multiple"""
    m = Monitor("C16")
    r = rng("pair", k)
    cs = r.choice(["Spherical", "Cylindrical", "SinhSpherical", "SymTP"])
    N = [r.choice([8, 12]) if k % 2 == 0 else r.choice([9, 13]), 4 if "Cyl" not in cs else 6, 6]
    d = scratch(f"pair{k}")
    fins = []
    for simd in (False, True):
        p = d / ("simd" if simd else "scalar")
        rc, log = run_isolated_one(gen_pair, (p, cs, N, simd, k))
        if rc:
            m.violation("build", f"{cs}{N} simd={simd}: {log[-1500:]}")
            return m.part()
        W.set_par(p, t_final=1e-12, diagnostics_output_every=1e9)
        rc, o, e = bhah.run(p, env=dict(OMP_NUM_THREADS="1"))
        dt = read_final(p / "final.bin", None)[2] if (p / "final.bin").exists() else 1.0
        W.set_par(p, t_final=3.5 * dt)
        rc, o, e = bhah.run(p, env=dict(OMP_NUM_THREADS="1"))
        rep = bhah.san_report(rc, e)
        if rc or rep:
            m.violation("simd-remainder" if simd and k % 2 else "run", f"{cs}{N} simd={simd}: rc {rc} {rep or e[-800:]}")
            return m.part()
        fins.append(read_final(p / "final.bin", None))
    (n1, t1, d1, g1), (n2, t2, d2, g2) = fins
    y1, y2 = g1[0][2], g2[0][2]
    sc = max(abs(v) for v in y1)
    worst = max(abs(a - b) for a, b in zip(y1, y2))
    m.observe(f"simd-vs-scalar {cs}{N}", n=len(y1), sample=f"scalar and vectorised {cs}{N}: max difference {worst:.2e}")
    m.count("scalar/SIMD pairs")
    if not worst <= 1e-9 * sc or n1 != n2:
        m.violation("simd-remainder" if k % 2 else "simd-differs", f"{cs}{N} fd2 RK4: after {n1} steps the vectorised program differs from the scalar one by {worst:.3e}")
    return m.part()


def run_isolated_one(fn, arg):
    for i, st, res in run_isolated(fn, [arg], procs=1, timeout=200):
        if st != "ok":
            raise vlib.HarnessError(f"{arg}: {st} {res}")
        return res


def gen_pair(a):
    p, cs, N, simd, k = a
    import gridproj as G
    W.generate(p, coords=(cs,), Nxx={cs: N}, mol="RK4", fd=2, simd=simd, pre=True, ckpt=False, size=5.0)
    (p / "mon.c").write_text((p / "mon.c").read_text() + DUMP.replace("@P@", ""))
    return W.build(p, flags=FLAGS + " -mavx2 -mfma", ckpt=False, extra="-Wl,--wrap=griddata_free")


def main():
    m = Monitor("C16", rule="distinct (program, grid) pairs whose solution was compared")
    n = 12 if QUICK else 96
    jobs = [(simd_pair, k) for k in range(2 if QUICK else 12)] + [(project, k) for k in range(n)]
    for i, st, res in run_isolated(lambda j: j[0](j[1]), jobs, timeout=280, deadline=200 if QUICK else None):
        if st == "ok":
            m.merge(res)
        elif st == "timeout":
            m.count("abandoned")
        else:
            raise vlib.HarnessError(f"{i}: {st} {res}")
    m.require("programs", 6)
    m.finish()


vlib.main(main)
