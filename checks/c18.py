"""C18: the initial-data solvers (TwoPunctures with post-Newtonian momenta, TOVola) return the data they are asked for.

Both solvers are generated, built (ASan+UBSan for the small cases, -O2 for the larger ones) and driven with random
binaries and stars.  Black holes: positions, masses, momenta and spins of the data that TP_Interp() returns are
judged against closed-form Bowen-York curvature centred on the requested positions, the Hamiltonian constraint by
finite differences of the returned conformal factor, its behaviour at the punctures and at infinity, and the
momenta against the post-Newtonian series.  Stars: every field against this check's own integration of the
Tolman-Oppenheimer-Volkoff equations in the enthalpy.
"""
import math
import shutil
import struct
import mpmath as mp
import bhah
import idproj
import vlib
from dageval import DagEval
from vlib import Monitor, QUICK, rng, run_isolated, scratch

FLAGS = bhah.SAN.replace("-g ", "")
LD = "-lgsl -lgslcblas"
R3 = range(3)
SYM = [(i, j) for i in R3 for j in range(i, 3)]


def go(m, d, inp, tag, threads=1, timeout=400):
    (d / f"{tag}.in").write_text(inp)
    rc, out, err = bhah.run(d, [f"{tag}.in", f"{tag}.out"], env={"OMP_NUM_THREADS": str(threads)}, timeout=timeout)
    bad = bhah.san_report(rc, err)
    if bad or rc:
        m.violation("solver-run", f"{tag} exit {rc}\n{bad or err[-600:]}\ninput:\n{inp[:400]}")
        return None
    b = (d / f"{tag}.out").read_bytes()
    return struct.unpack(f"{len(b) // 8}d", b)


class Judge:
    def __init__(self, m, tag):
        self.m, self.tag = m, tag

    def __call__(self, name, got, want, tol, ctx=""):
        self.m.count("judged: " + name)
        if not abs(got - want) <= tol:
            self.m.violation(name.replace(" ", "-"), f"{self.tag} {ctx}: {name} = {got!r}, expected {want!r} (tolerance {tol:.2e})")


# ---------------------------------------------------------------- binaries
def binary(r, spin=True):
    u = lambda a, b: round(r.uniform(a, b), 4)
    return dict(sep=u(3.0, 9.0), q=u(1.0, 2.2), cM=[u(-.5, .5) for _ in R3] if spin else [0.0] * 3, cm=[u(-.5, .5) for _ in R3] if spin else [0.0] * 3)


def setline(B, pt, pr, mM, mm, N):
    f = [B["sep"], B["q"], *B["cM"], *B["cm"], pt, pr, mM, mm]
    return "set " + " ".join(repr(float(x)) for x in f) + " " + " ".join(map(str, N)) + "\n"


def holes(B, pt, pr):
    """(position, momentum, spin) of the more and of the less massive hole in the frame of the grid: the binary lies on z and moves along x"""
    M, m = B["q"] / (1 + B["q"]), 1 / (1 + B["q"])
    rot = lambda v: [v[1], v[2], v[0]]
    pt, pr = abs(pt), abs(pr)
    return ([0, 0, B["sep"] * m], [pt, 0, -pr], [c * M * M for c in rot(B["cM"])]), ([0, 0, -B["sep"] * M], [-pt, 0, pr], [c * m * m for c in rot(B["cm"])]), M, m


def bowen_york(hs, x):
    A = [[0.0] * 3 for _ in R3]
    for pos, P, S in hs:
        d = [x[i] - pos[i] for i in R3]
        rr = math.sqrt(sum(t * t for t in d))
        n = [t / rr for t in d]
        nP = sum(n[i] * P[i] for i in R3)
        Sn = [S[1] * n[2] - S[2] * n[1], S[2] * n[0] - S[0] * n[2], S[0] * n[1] - S[1] * n[0]]
        for i in R3:
            for j in R3:
                A[i][j] += 1.5 / rr**2 * (P[i] * n[j] + P[j] * n[i] + nP * (n[i] * n[j] - (i == j))) + 3 / rr**3 * (Sn[i] * n[j] + Sn[j] * n[i])
    return A


def pn(arg):
    """post-Newtonian momenta"""
    d, k, n = arg
    m = Monitor("C18")
    r = rng("pn", k)
    j = Judge(m, f"pn{k}")
    from nrpypn import NRPyPN_shortcuts as sc
    from nrpypn.PN_p_r import PN_p_r
    from nrpypn.PN_p_t import PN_p_t
    mp.mp.dps = 30
    et = PN_p_t(sc.m1, sc.m2, sc.chi1U, sc.chi2U, sc.r).p_t
    er = PN_p_r(sc.m1, sc.m2, sc.n12U, sc.n21U, sc.chi1U, sc.chi2U, sc.S1U, sc.S2U, sc.p1U, sc.p2U, sc.r).p_r
    inp, cases = "", []
    for i in range(n):
        B = binary(r, spin=i % 4 != 0)
        kind = ("near", "far", "set")[i % 3]
        B["sep"] = round(r.uniform(6, 25), 4) if kind != "far" else round(10 ** r.uniform(3, 4), 3)
        B["q"] = round(r.choice([1.0, r.uniform(1, 3), r.uniform(3, 12)]), 4)
        s = (round(r.uniform(-.1, .1), 4), round(r.choice([-1.0, r.uniform(-.01, .01), 0.0]), 5)) if kind == "set" else (-1.0, -1.0)
        cases.append((B, kind, s))
        inp += setline(B, *s, -1, -1, (8, 8, 4)) + "pn\n"
    o = go(m, d, inp, f"pn{k}")
    for i, (B, kind, s) in enumerate(cases if o else []):
        pt, pr = o[2 * i: 2 * i + 2]
        ctx = str(B)
        if kind == "set":
            j("user-given p_t kept", pt, s[0], 0, ctx)
            j("user-given p_r kept", pr, s[1], 0, ctx)
            continue
        M, mm, R = B["q"] / (1 + B["q"]), 1 / (1 + B["q"]), B["sep"]
        nu = M * mm
        v = {"m1": mm, "m2": M, "r": R, "q": R}
        for a in R3:
            v[f"chi1U{a}"], v[f"chi2U{a}"] = B["cm"][a], B["cM"][a]
            v[f"S1U{a}"], v[f"S2U{a}"] = B["cm"][a] * mm * mm, B["cM"][a] * M * M
        e = DagEval(lambda nme: mp.mpf(v[nme]))
        wt = float(e(et))
        v["Pt"] = wt
        j("p_t series", pt, wt, 1e-11 * abs(wt), ctx)
        j("p_r series", pr, float(DagEval(lambda nme: mp.mpf(v[nme]))(er)), 1e-8 * abs(pr), ctx)
        if kind == "far":
            so = sum((4 * a * a + 3 * nu) * c[2] for a, c in ((M, B["cM"]), (mm, B["cm"])))
            lead = nu / math.sqrt(R) * (1 + 2 / R - 0.75 * so / R**1.5)
            j("p_t leading orders", pt, lead, nu / math.sqrt(R) * 8 / R**2, ctx)
            j("p_r leading order", pr, 12.8 * nu * nu / R**3, 0.25 * pr if R < 2000 else 0.15 * pr, ctx)
        m.count("post-Newtonian binaries")
        m.observe(f"pn {B}")
    return m.part()


def punctures(arg):
    d, k, mode, N = arg
    m = Monitor("C18")
    r = rng("tp", k)
    B = binary(r)
    u = lambda a, b: round(r.uniform(a, b), 4)
    M, mm = B["q"] / (1 + B["q"]), 1 / (1 + B["q"])
    pt, pr = (u(-.15, .15), u(-.02, .02)) if k % 2 else (-1, -1)
    bare = (round(M * u(.8, 1.0), 6), round(mm * u(.8, 1.0), 6)) if mode != "adm" else (-1, -1)
    tag = f"tp{k}"
    j = Judge(m, f"{tag} {B} p={pt},{pr} bare={bare} N={N}")
    # points: around each hole, in between, far away
    H1, H2, _, _ = holes(B, 0, 0)
    pts = []
    for c in (H1[0], H2[0], [0, 0, 0]):
        for _ in range(6 if QUICK else 20):
            v = [r.gauss(0, 1) for _ in R3]
            nv = math.sqrt(sum(t * t for t in v))
            s = r.choice([.05, .2, .7, 1.5, 3, 8, 30]) if c != [0, 0, 0] else r.choice([20, 100, 1e3])
            pts.append([c[i] + s * v[i] / nv for i in R3])
    pts += [[s * t for t in v] for v in ([1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, -1]) for s in (3e3, 3e4)]
    on = [[x + (1e-6 if i == 0 else 0) for i, x in enumerate(h[0])] for h in (H1, H2)]
    # points for the constraint: stencils
    h = 0.05
    cen = []
    while len(cen) < (8 if QUICK else 24):
        v = [u(-1, 1) * B["sep"] for _ in R3]
        if min(math.dist(v, H1[0]), math.dist(v, H2[0])) > 0.35:
            cen.append(v)
    st = [0.0] + [s for s in (-3, -2, -1, 1, 2, 3)]
    spts = []
    for c in cen:
        for a in R3:
            for s in st:
                spts.append([c[i] + (s * h if i == a else 0) for i in R3])
    allp = pts + on + spts
    inp = setline(B, pt, pr, *bare, N) + "solve\n" + f"at {len(allp)}\n" + "\n".join(" ".join(repr(float(t)) for t in p) for p in allp) + "\nfree\n"
    o = go(m, d, inp, tag)
    if o is None:
        return m.part()
    mp_, mm_, mpa, mma, E, J1, J2, J3, pt1, pr1, cM, cm = o[:12]
    if pt == -1:
        o2 = go(m, d, setline(B, -1, -1, *bare, N) + "pn\n", tag + "pn")
        j("post-Newtonian momenta used", pt1, o2[0], 0)
        j("post-Newtonian momenta used", pr1, o2[1], 0)
    else:
        j("given momenta used", pt1, pt, 0)
        j("given momenta used", pr1, pr, 0)
    j("mass M", cM, M, 1e-14)
    j("mass m", cm, mm, 1e-14)
    h1, h2, M, mm = holes(B, pt1, pr1)
    D = B["sep"]
    if mode == "adm":
        j("puncture mass M", mpa, M, 3e-10)
        j("puncture mass m", mma, mm, 3e-10)
    else:
        j("bare mass M", mp_, bare[0], 0)
        j("bare mass m", mm_, bare[1], 0)
    # J = sum r x P + S in the frame of the solver (grid z, x, y)
    J = [0.0] * 3
    for pos, P, S in (h1, h2):
        for a in R3:
            b, c = (a + 1) % 3, (a + 2) % 3
            J[a] += pos[b] * P[c] - pos[c] * P[b] + S[a]
    for got, want, a in zip((J1, J2, J3), (J[2], J[0], J[1]), "123"):
        j("angular momentum J" + a, got, want, 1e-13)
    rows = [o[12 + 19 * i: 31 + 19 * i] for i in range(len(allp))]
    psi = []
    for p, w in zip(allp, rows):
        r1, r2 = math.dist(p, h1[0]), math.dist(p, h2[0])
        ctx = f"at {p}"
        e1, e2 = ((t**4 + 1e-24) ** .25 for t in (r1, r2))   # TP_epsilon = 1e-6
        sing = 0.5 * mp_ / e1 + 0.5 * mm_ / e2
        g = w[7:13]
        ps = g[0] ** .25 if g[0] > 0 else float("nan")
        psi.append((ps, sing, r1, r2))
        far = min(r1, r2)
        near = far < 1e-2
        j("lapse", w[0], (1 + sing) ** -2, 1e-12 if not near else 1e-3 * (1 + sing) ** -2, ctx)
        for i in range(1, 7):
            j("shift", w[i], 0.0, 0, ctx)
        for i in (1, 2, 4):
            j("metric off-diagonal", g[i], 0.0, 0, ctx)
        j("metric isotropic", g[3], g[0], 1e-13 * g[0], ctx)
        j("metric isotropic", g[5], g[0], 1e-13 * g[0], ctx)
        if near:
            continue
        A = bowen_york((h1, h2), p)
        am = max(abs(A[i][q]) for i, q in SYM) + 1e-30
        for (i, q), kk in zip(SYM, w[13:]):
            j("extrinsic curvature", kk * ps**2, A[i][q], 1e-9 * am + 1e-15, f"K{i}{q} {ctx}")
        m.observe("points", n=1)
    # regular part at the punctures gives the puncture masses
    for i, (got, mi, mo) in enumerate(((mpa, mp_, mm_), (mma, mm_, mp_))):
        ps, sing, _, _ = psi[len(pts) + i]
        j("regular part at puncture", got, (1 + ps - 1 - sing) * mi + mi * mo / (2 * D), (2e-4 if N[0] > 20 else 4e-3) * mi, f"hole {i}")   # small grids: spectral truncation
    # ADM mass from the asymptotics
    for i in range(len(pts) - 8, len(pts)):
        p = pts[i]
        R = math.sqrt(sum(t * t for t in p))
        if N[0] > 12:   # the smallest grids are for the sanitizers only
            j("ADM mass at infinity", 2 * R * (psi[i][0] - 1), E, (0.5 + 6 * D) / R * 1.0 + 2e-11 * R, f"r={R}")
    # Hamiltonian constraint
    c6 = [-49 / 18, 1 / 90, -3 / 20, 3 / 2, 3 / 2, -3 / 20, 1 / 90]
    b0 = len(pts) + 2
    worst = 0
    for ic, c in enumerate(cen):
        lap = 0.0
        for a in R3:
            base = b0 + (ic * 3 + a) * 7
            lap += sum(c6[s] * (psi[base + s][0] - psi[base + s][1]) for s in range(7)) / h**2
        ps = psi[b0 + ic * 21][0]
        A = bowen_york((h1, h2), c)
        A2 = sum(A[i][q] ** 2 for i in R3 for q in R3)
        src = -A2 / 8 * ps**-7
        scale = max(abs(src), 1e-6)
        worst = max(worst, abs(lap - src) / scale)
        m.count("constraint points")
        if N[0] > 12:
            j("Hamiltonian constraint", lap, src, 0.05 * abs(src) + 3e-6 if N[0] > 20 else 0.5 * abs(src) + 2e-5, f"at {c}")
    m.count("binaries solved")
    m.observe(f"{tag} {B}", sample=f"worst constraint mismatch {worst:.1e}, E={E}")
    return m.part()


def threads(arg):
    """the data do not depend on the number of threads"""
    d, k, N = arg
    m = Monitor("C18")
    r = rng("thr", k)
    B = binary(r)
    pts = [[r.uniform(-6, 6) for _ in R3] for _ in range(40)]
    inp = setline(B, -1, -1, .45, .4, N) + f"solve\nat 40\n" + "\n".join(" ".join(map(repr, p)) for p in pts) + "\nfree\n"
    o = [go(m, d, inp, f"thr{k}_{n}", threads=n) for n in (1, 4, 3)]
    for a in o[1:]:
        if a and o[0]:
            Judge(m, f"threads {B}")("thread independence", max(abs(x - y) / (abs(x) + 1e-6) for x, y in zip(a, o[0])), 0.0, 1e-8)
            m.count("thread counts compared")
    return m.part()


# ---------------------------------------------------------------- stars
def tov(rc, K, G, n=1500):
    """[(r_iso/r_iso_surface, alpha, exp4phi, rho, P)], R, R_iso, M"""
    eos = lambda h: (lambda b: (b + K * b**G / (G - 1), K * b**G))(((G - 1) / (K * G) * math.expm1(max(h, 0.0))) ** (1 / (G - 1)))
    hc = math.log1p(K * G / (G - 1) * rc ** (G - 1))

    def rhs(s, y):
        h = hc * (1 - s * s)
        r, ma, li = y
        rho, P = eos(h)
        f = -r * (r - 2 * ma) / (ma + 4 * math.pi * r**3 * P) * (-2 * hc * s)
        return f, 4 * math.pi * r * r * rho * f, (1 / math.sqrt(1 - 2 * ma / r) - 1) / r * f
    ds = 1.0 / n
    rho, P = eos(hc)
    s = ds / 50
    # series at the centre
    r = math.sqrt(hc * s * s / (2 * math.pi / 3 * (rho + 3 * P)))
    y = [r, 4 * math.pi / 3 * rho * r**3, (4 * math.pi / 3 * rho) * r * r / 2]
    out = []
    grid = [ds / 50 * 2**i for i in range(6)] + [ds * i for i in range(1, n + 1)]
    for s2 in grid:
        if s2 > s:
            hh = s2 - s
            k1 = rhs(s, y)
            k2 = rhs(s + hh / 2, [a + hh / 2 * b for a, b in zip(y, k1)])
            k3 = rhs(s + hh / 2, [a + hh / 2 * b for a, b in zip(y, k2)])
            k4 = rhs(s2, [a + hh * b for a, b in zip(y, k3)])
            y = [a + hh / 6 * (p + 2 * q + 2 * t + w) for a, p, q, t, w in zip(y, k1, k2, k3, k4)]
            s = s2
        out.append((s, y[0], y[1], y[2]))
    R, M, L = out[-1][1:]
    ri = 0.5 * (math.sqrt(R * R - 2 * M * R) + R - M)
    rows = []
    for s, r, ma, li in out:
        h = hc * (1 - s * s)
        riso = ri * math.exp(li - L) * r / R
        rows.append((riso / ri, math.exp(-h) * math.sqrt(1 - 2 * M / R), (r / riso) ** 2, *eos(h)))
    return rows, R, ri, M


def star(arg):
    d, k = arg
    m = Monitor("C18")
    r = rng("tov", k)
    u = lambda a, b: round(r.uniform(a, b), 5)
    G, K = [(2.0, 1.0), (u(1.65, 2.3), u(.5, 2)), (u(1.65, 2.3), u(20, 120))][k % 3]
    # central pressure/density ratio between weakly and strongly relativistic
    rc = round((r.choice([.02, .1, .2, .35]) * r.uniform(.8, 1.2) / K) ** (1 / (G - 1)), 8)
    if k == 0:
        rc = 0.129285                      # the default star
    if k == -1:
        rc, K, G = 0.15, 1.0, 2.7          # witness of a known finding
    tag = f"tov{k} rho_c={rc} K={K} Gamma={G}"
    j = Judge(m, tag)
    rows, R, ri, M = tov(rc, K, G)
    shell = [w for w in rows if 0.035 < w[3] / rows[0][3] < 0.09]    # the sampling of the solver changes here
    pick = r.sample(rows[6:-1], 14) + [rows[8]] + r.sample(shell, min(8, len(shell)))
    outer = [1.0001, u(1.01, 1.5), u(2, 5), 30.0, 1000.0]
    pts, want = [], []
    for w in pick + [(x,) for x in outer]:
        v = [r.gauss(0, 1) for _ in R3]
        nv = math.sqrt(sum(t * t for t in v))
        pts.append([w[0] * t / nv for t in v])
        want.append(w)
    inp = f"{rc!r} {K!r} {G!r} 1e-8 {len(pts)}\n" + "\n".join(" ".join(map(repr, p)) for p in pts) + "\n"
    o = go(m, d, inp, f"tov{k}")
    if o is None:
        return m.part()
    eps = 2e-5
    if k == -1:
        if not abs(o[0] / R - 1) <= eps:
            m.violation("stiff-star-surface", f"{tag}: radius {o[0]}, expected {R}: the integration steps over the surface of a stiff star")
        return m.part()
    j("star radius", o[0], R, eps * R)
    j("isotropic radius", o[1], ri, eps * ri)
    j("star mass", o[2], M, eps * M)
    for i, (p, w) in enumerate(zip(pts, want)):
        v = o[6 + 29 * i: 35 + 29 * i]
        x = [t * o[1] for t in p]
        rr = math.sqrt(sum(t * t for t in x))
        st2 = (x[0] ** 2 + x[1] ** 2) / rr**2
        ctx = f"at r={w[0]} of the isotropic radius"
        if len(w) == 1:
            al, e4, rho, P = (1 - M / 2 / rr) / (1 + M / 2 / rr), (1 + M / 2 / rr) ** 4, 0.0, 0.0
        else:
            _, al, e4, rho, P = w
        rc_e = rows[0][3]
        Pc = rows[0][4]
        j("star lapse", v[0], al, eps * al, ctx)
        for q in list(range(1, 7)) + list(range(13, 19)):
            j("star is static", v[q], 0.0, 0, ctx)
        for q, f in zip((7, 10, 12), (1, rr * rr, rr * rr * st2)):
            j("star metric", v[q] / f, e4, eps * e4, f"comp {q} {ctx}")
        for q in (8, 9, 11):
            j("star metric", v[q], 0.0, 0, ctx)
        T = v[19:]
        j("star energy density", T[0] * al**2, rho, 3 * eps * rc_e, ctx)
        for q, f in zip((4, 7, 9), (1, rr * rr, rr * rr * st2)):
            j("star pressure", T[q] * f * e4, P, 3 * eps * Pc, f"comp {q} {ctx}")
        for q in (1, 2, 3, 5, 6, 8):
            j("star stress off-diagonal", T[q], 0.0, 0, ctx)
    m.count("stars")
    m.observe(tag)
    return m.part()


def gen(arg):
    which, d, d2 = arg
    (idproj.gen_tp if which == "tp" else idproj.gen_tov)(d)
    if which == "tov":
        rc, log = bhah.make(d, flags=FLAGS, jobs=4, extra_ld=LD)
        return rc, log[-1500:]
    shutil.copytree(d, d2, dirs_exist_ok=True)
    rc, log = bhah.make(d, flags=FLAGS, jobs=4, extra_ld=LD)
    rc2, log2 = bhah.make(d2, flags=bhah.FAST, jobs=4, extra_ld=LD)
    return rc or rc2, (log + log2)[-1500:]


def task(t):
    return {"pn": pn, "tp": punctures, "thr": threads, "tov": star}[t[0]](t[1:])


def main():
    m = Monitor("C18", rule="distinct binaries, stars and points at which the returned data were judged")
    ds, df, dt = scratch("tp"), scratch("tpf"), scratch("tov")
    for i, st, res in run_isolated(gen, [("tp", ds, df), ("tov", dt, None)], timeout=300):
        if st != "ok":
            raise vlib.HarnessError(f"generate {i}: {st} {res}")
        if res[0]:
            m.violation("build", res[1])
    if m.violations:
        m.finish()
        return
    n = dict(pn=(2, 45), san=1, adm=1, bare=4, tov=24) if QUICK else dict(pn=(12, 90), san=6, adm=8, bare=60, tov=400)
    big = (24, 24, 10) if QUICK else (30, 30, 12)
    jobs = [("tp", df, 100 + k, "adm", (14, 14, 6) if QUICK else (20, 20, 8)) for k in range(n["adm"])]
    jobs += [("tp", df, 200 + k, "bare", big) for k in range(n["bare"])]
    jobs += [("tp", ds, 300 + k, "bare", (10, 10, 4)) for k in range(n["san"])]
    jobs += [("thr", df, 0, (10, 10, 4))] + [("pn", ds, k, n["pn"][1]) for k in range(n["pn"][0])] + [("tov", dt, k) for k in range(-1, n["tov"])]
    for i, st, res in run_isolated(task, jobs, timeout=800):
        if st == "ok":
            m.merge(res)
        else:
            raise vlib.HarnessError(f"{jobs[i]}: {st} {res}")
    m.require("binaries solved", 3)
    m.require("stars", 10)
    m.require("post-Newtonian binaries", 20)
    m.finish()


vlib.main(main)
