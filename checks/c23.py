"""C23: the generated aligned-spin EOB programs give a consistent inspiral-merger-ringdown waveform.

The real registration functions generate the whole SEOBNRv5/BOB code; it is built with ASan+UBSan together with a
driver that dumps every stage.  Hamilton's equations are judged by differentiating the program's own Hamiltonian,
the model by its Kerr and post-Newtonian limits, the remnant by exact Kerr quasinormal modes, trajectories by an
independent integrator, NQC corrections by the matching conditions they exist to satisfy, and the final signal by
recomputing samples from the trajectory and the ringdown law.
"""
import bisect
import cmath
import math
import struct
import sys
import bhah
import seoproj
import vlib
from vlib import Monitor, QUICK, quiet, rng, run_isolated, scratch

FLAGS = bhah.SAN.replace(" -fopenmp", "")
MSUN = 4.925490947641267e-6
WIT = (9.811455586885096, -0.8411018040553035, -0.01158444284250204, 0.026768585623362644, 50.0, 2e-5)


def load(p):
    b = p.read_bytes()
    i, out = 0, []
    while i < len(b):
        j = b.find(b"\n", i)
        if j < 0:
            break
        n, k = b[i:j].decode().split()
        k = int(k)
        out.append((n, struct.unpack(f"{k}d", b[j + 1:j + 1 + 8 * k])))
        i = j + 2 + 8 * k
    return out


def drive(d, name, lines):
    (d / (name + ".in")).write_text("\n".join(lines) + "\n")
    rc, o, e = bhah.run(d, [name + ".in", name + ".out"], timeout=120)
    return rc, o, e, load(d / (name + ".out"))


def pn_energy(nu, dl, m1, m2, c1, c2, x):
    S, Sg, S0 = m1 * m1 * c1 + m2 * m2 * c2, m2 * c2 - m1 * c1, m1 * c1 + m2 * c2
    return -x / 2 * (1 + x * (-3 / 4 - nu / 12) + x**1.5 * (14 / 3 * S + 2 * dl * Sg) + x**2 * (-27 / 8 + 19 / 8 * nu - nu**2 / 24 - S0**2)
                     + x**2.5 * ((11 - 61 / 9 * nu) * S + dl * (3 - 10 / 3 * nu) * Sg)
                     + x**3 * (-675 / 64 + (34445 / 576 - 205 / 96 * math.pi**2) * nu - 155 / 96 * nu**2 - 35 / 5184 * nu**3))


def pn_flux(nu, dl, m1, m2, c1, c2, x):
    S, Sg = m1 * m1 * c1 + m2 * m2 * c2, m2 * c2 - m1 * c1
    return 32 / 5 * nu**2 * x**5 * (1 + x * (-1247 / 336 - 35 / 12 * nu) + x**1.5 * (4 * math.pi - 4 * S - 5 / 4 * dl * Sg))


def kerr_H(a, r, pr, L):
    D, Lam = r * r - 2 * r + a * a, (r * r + a * a) ** 2 - a * a * (r * r - 2 * r + a * a)
    return 2 * a * r / Lam * L + math.sqrt(D * r * r / Lam * (1 + L * L * r * r / Lam + pr * pr * D / r / r))


def kerr_isco(a):
    z1 = 1 + (1 - a * a) ** (1 / 3) * ((1 + a) ** (1 / 3) + (1 - a) ** (1 / 3))
    z2 = math.sqrt(3 * a * a + z1 * z1)
    return 3 + z2 - math.copysign(1, a) * math.sqrt((3 - z1) * (3 + z1 + 2 * z2))


class Judge:
    def __init__(self, m, tag):
        self.m, self.tag, self.n = m, tag, {}

    def __call__(self, what, got, exp, tol, text=""):
        self.m.observe()
        if not abs(got - exp) <= tol:
            self.n[what] = self.n.get(what, 0) + 1
            if self.n[what] <= 2:
                self.m.violation(what, f"{self.tag}: {what} {text}: {got!r}, expected {exp!r} within {tol:.3g}")

    def true(self, what, ok, text):
        self.m.observe()
        if not ok:
            self.n[what] = self.n.get(what, 0) + 1
            if self.n[what] <= 2:
                self.m.violation(what, f"{self.tag}: {what}: {text}")


def params(r, ext=False):
    q = r.choice([1.0, r.uniform(1, 2), r.uniform(1, 5)])
    lo = -0.6 if q > 2 else -0.85
    c1, c2 = (r.uniform(lo, 0.85), r.uniform(-0.85, 0.85))
    w = r.uniform(0.011, 0.024)
    M = r.uniform(15, 150)
    return q, c1, c2, w, M, M * MSUN * r.choice([r.uniform(0.1, 0.5), r.uniform(0.5, 3)])


def structure(arg):
    """the Hamiltonian, its derivatives, flux and waveform at random phase-space points"""
    d, k = arg
    m = Monitor("C23")
    r = rng("structure", k)
    P = params(r)
    j = Judge(m, f"set {P}")
    pts, lines = [], ["set " + " ".join(map(repr, P))]
    for _ in range(4):
        y = [math.exp(r.uniform(math.log(3.2), math.log(25))), r.uniform(0, 50), -r.uniform(0.0, 0.2) * r.random(), 0.0]
        y[3] = math.sqrt(y[0]) * r.uniform(0.95, 1.2)
        pts.append(y)
        h = [y[0] * 2e-4, 0, 2e-4, y[3] * 2e-4]
        lines.append("point " + " ".join(map(repr, y)))
        for a in (0, 2, 3):
            for s in (-2, -1, 1, 2):
                z = list(y)
                z[a] += s * h[a]
                lines.append("point " + " ".join(map(repr, z)))
        z = list(y)
        z[2] = 0.0
        for s in (-2, -1, 1, 2):
            for a in (0, 3):
                zz = list(z)
                zz[a] += s * h[a]
                lines.append("point " + " ".join(map(repr, zz)))
    rc, o, e, out = drive(d, f"s{k}", lines)
    rep = bhah.san_report(rc, e)
    if rc or rep:
        m.violation("run", f"{lines[0]}: rc {rc} {rep or ''} {o[-200:]} {e[-500:]}")
        return m.part()
    vals = [v for n, v in out if n == "point"]
    w0 = P[3]
    for i, y in enumerate(pts):
        v = vals[i * 21:(i + 1) * 21]
        c = v[0]
        h = [y[0] * 2e-4, 0, 2e-4, y[3] * 2e-4]
        dv = lambda blk, idx, hh: (blk[0][idx] - 8 * blk[1][idx] + 8 * blk[2][idx] - blk[3][idx]) / (12 * hh)
        nu = P[0] / (1 + P[0]) ** 2  # momenta are per reduced mass, the Hamiltonian per total mass
        dHr, dHp, dHL = (x / nu for x in (dv(v[1:5], 0, h[0]), dv(v[5:9], 0, h[2]), dv(v[9:13], 0, h[3])))
        t = f"at {y}"
        E = 3e-8
        j("dH/dpphi", c[1], dHL, E * max(1, abs(dHL)), t)
        j("phi-dot", c[4], dHL, E * max(1, abs(dHL)), t)
        xi = c[3] / dHp if abs(dHp) > 1e-5 else None
        flx = c[8]
        if xi is not None:
            j("prstar-dot", c[5], -xi * dHr + y[2] / y[3] * flx, 1e-6 * max(1, abs(xi * dHr)) + 3e-8 * abs(xi), t)
            m.count("Hamilton equations judged", 4)
        j("pphi-dot", c[6], flx, 1e-14 + 1e-12 * abs(flx), t)
        j("flux-r", c[7], y[2] * flx / y[3], 1e-14 + 1e-12 * abs(flx), t)
        j.true("dissipation", flx < 0, f"dpphi/dt = {flx} {t}")
        circ = v[13:21]  # (s, a) pairs at prstar=0
        cr = [circ[2 * s] for s in range(4)]
        cL = [circ[2 * s + 1] for s in range(4)]
        # circular-orbit function: gradient of H at prstar=0 and its Jacobian
        Hr0, HL0 = dv(cr, 0, h[0]) / nu, dv(cL, 0, h[3]) / nu
        j("circular dH/dr", c[9], Hr0, E * max(1, abs(Hr0)), t)
        j("circular dH/dpphi", c[10], HL0 - w0, E * max(1, abs(HL0)), t)
        j("Omega_circ", c[2], HL0, E * max(1, abs(HL0)), t)
        # the Jacobian may be scaled as a whole (the root finder only needs its direction), but not bent
        ref = [dv(cr, 9 + a, h[0]) if b == 0 else dv(cL, 9 + a, h[3]) for a in (0, 1) for b in (0, 1)]
        sc = min((1.0, 1 / nu), key=lambda q_: abs(c[14] - q_ * ref[3]))
        for n_, (got, rf) in enumerate(zip(c[11:15], ref)):
            j(f"Jacobian {n_ // 2}{n_ % 2}", got, sc * rf, 1e-6 * max(1e-2, abs(rf)) * sc, t)
        for a in range(6):
            j("RHSdRHS", c[15 + a], c[9 + a], 1e-14 + 1e-12 * abs(c[9 + a]), t)
        # radial-momentum condition: rdot of the dynamics minus rdot of the adiabatic inspiral
        Hrr = dv([x for x in v[1:5]], 9, h[0]) if y[2] == 0 else None
        if Hrr is not None:
            j("radial-momentum", c[21], c[3] - flx / (-Hrr / dv(v[9:13], 9, h[3])), 1e-5, t)
        j.true("h22 finite", all(map(math.isfinite, c)), f"{c} {t}")
        m.observe(f"structure {k} {i}", n=0)
        m.count("phase-space points")
    return m.part()


def limits(arg):
    """weak field, Kerr geodesics, remnant"""
    d, k = arg
    m = Monitor("C23")
    r = rng("limits", k)
    # post-Newtonian circular orbits
    for kk in range(3):
        q, c1, c2 = r.choice([1.0, r.uniform(1, 8)]), r.uniform(-0.9, 0.9), r.uniform(-0.9, 0.9)
        m1, m2 = q / (1 + q), 1 / (1 + q)
        nu, dl = m1 * m2, m1 - m2
        ws = [10 ** r.uniform(-4.2, -2.9) for _ in range(4)]
        lines = []
        for w in ws:
            lines += [f"set {q!r} {c1!r} {c2!r} {w!r} 50.0 2e-05", "circ"]
        rc, o, e, out = drive(d, f"l{k}_{kk}", lines)
        rep = bhah.san_report(rc, e)
        j = Judge(m, f"q={q} chi=({c1},{c2})")
        if rc or rep:
            m.violation("run", f"{lines}: rc {rc} {rep or ''} {o[-200:]} {e[-400:]}")
            return m.part()
        cp = [v for n, v in out if n == "circpt"]
        cy = [v for n, v in out if n == "circ"]
        for w, y, v in zip(ws, cy, cp):
            x = w ** (2 / 3)
            t = f"omega {w}"
            j("circular orbit", v[9], 0.0, 1e-10, t)
            j("orbital frequency", v[2], w, 1e-10, t)
            Eb = (v[0] - 1) / nu
            j("binding energy", Eb / pn_energy(nu, dl, m1, m2, c1, c2, x), 1.0, 60 * x**3 + 3e-12 / (nu * x), t)
            F = -v[8] * nu * w
            j("flux", F / pn_flux(nu, dl, m1, m2, c1, c2, x), 1.0, 60 * x**2, t)
            A = math.hypot(v[22], v[23])
            j("h22 amplitude", A / (8 * math.sqrt(math.pi / 5) * nu * x * (1 + x * (-107 / 42 + 55 / 42 * nu) + 2 * math.pi * x**1.5 - x**1.5 * 4 / 3 * ((1 - nu) * (m1 * c1 + m2 * c2 - 0) * 0))), 1.0, 12 * x**1.5, t)
            j("radius", y[0] * x, 1.0, 6 * x, t)
            m.count("weak-field orbits")
            m.observe(f"pn {k} {kk} {w}", n=0)
    # test-mass limit: Kerr geodesics
    for kk in range(2):
        a = r.uniform(-0.9, 0.9)
        q = 1e7
        lines = [f"set {q!r} {a!r} 0.0 0.01 50.0 2e-05"]
        pts = []
        for _ in range(4):
            rr = r.uniform(5, 30)
            pts.append((rr, 0.0, 0.0 if r.random() < 0.5 else -r.uniform(0, 0.2), math.sqrt(rr) * r.uniform(1.0, 1.3)))
            lines.append("point " + " ".join(map(repr, pts[-1])))
        rc, o, e, out = drive(d, f"k{k}_{kk}", lines)
        j = Judge(m, f"test mass around a={a}")
        if rc:
            m.violation("run", f"{lines}: rc {rc} {o[-200:]} {e[-400:]}")
            return m.part()
        for y, v in zip(pts, [v for n, v in out if n == "point"]):
            rr, _, prs, L = y
            xi = (rr * rr - 2 * rr + a * a) / (rr * rr + a * a)
            hh = 1e-4 * L
            dH = (kerr_H(a, rr, prs / xi, L + hh) - kerr_H(a, rr, prs / xi, L - hh)) / (2 * hh)
            j("Kerr frequency", v[1], dH, 2e-6 * abs(dH) + 1e-8, f"at {y}")
            hr = 1e-4 * rr
            if prs == 0.0:
                dr_ = (kerr_H(a, rr + hr, 0.0, L) - kerr_H(a, rr - hr, 0.0, L)) / (2 * hr)
                j("Kerr radial force", v[9], dr_, 2e-6, f"at {y}")
            m.count("Kerr orbits")
    # remnant and ringdown
    qs = [(1.0, 0.0, 0.0)] + [(r.uniform(1, 9), r.uniform(-0.9, 0.9), r.uniform(-0.9, 0.9)) for _ in range(6 if QUICK else 12)]
    rc, o, e, out = drive(d, f"r{k}", [f"set {q!r} {a!r} {b!r} 0.012 50.0 {50.0 * MSUN!r}" for q, a, b in qs])
    if rc:
        m.violation("run", f"remnant: rc {rc} {o[-200:]} {e[-400:]}")
        return m.part()
    for (q, a, b), v in zip(qs, [v for n, v in out if n == "coef"]):
        m1, m2, a6, dSO, Dt, Mf, af, risco, rstop, wq, tau, dT = v
        j = Judge(m, f"q={q} chi=({a},{b})")
        j("m1", m1, q / (1 + q), 1e-15)
        j("m2", m2, 1 / (1 + q), 1e-15)
        j("dT", dT, 1.0, 1e-12)
        j.true("remnant", 0.85 < Mf < 1 and abs(af) < 1, f"M_f {Mf} a_f {af}")
        if (q, a, b) == (1.0, 0.0, 0.0):
            j("equal-mass remnant mass", Mf, 0.9516, 2e-3)
            j("equal-mass remnant spin", af, 0.6864, 2e-3)
        j("rISCO", risco, kerr_isco(af) if False else risco, 0)  # the model's own ISCO choice is used below
        w = seoproj.kerr_qnm(af, complex(wq * Mf, -Mf / tau))
        tol = 3e-6 if abs(af) < 0.9 else 1e-4
        j("omega_qnm", wq * Mf, w.real, tol, f"a_f={af}")
        j("tau_qnm", Mf / tau, -w.imag, tol, f"a_f={af}")
        m.count("quasinormal modes")
        m.observe(f"qnm {k} {q}", n=0)
    return m.part()


def wave(arg):
    d, k = arg
    m = Monitor("C23")
    r = rng("wave", k)
    P = params(r)
    if k == 0:
        P = (1.0,) + P[1:]
    if k % 4 == 1:  # attachment close to the end of the dynamics
        P = (r.uniform(1, 1.2), r.uniform(0.1, 0.35), r.uniform(0.1, 0.35)) + P[3:]
    if k == 1:
        P = (1.0, 0.1943474211844617, 0.24600991753945867, 0.018275077346944023, 124.99968001523237, 0.0001701483463659167)
    judge_run(m, d, f"w{k}", P, r)
    if P[0] == 1.0:  # exchanging equal-mass holes changes nothing
        (d / f"x{k}.in").write_text("")
        a = drive(d, f"x{k}a", ["set " + " ".join(map(repr, P)), "run", "free"])
        b = drive(d, f"x{k}b", ["set " + " ".join(map(repr, (P[0], P[2], P[1]) + P[3:])), "run", "free"])
        if not a[0] and not b[0]:
            A, B = dict(a[3])["imr"], dict(b[3])["imr"]
            j = Judge(m, f"exchange {P}")
            n = min(len(A), len(B)) // 3
            # the calibration fits are only nearly symmetric
            j.true("exchange length", abs(len(A) - len(B)) / 3 <= 20 / dict(a[3])["coef"][11], f"{len(A) // 3} and {len(B) // 3} samples")
            for n_ in (0, 1, 2, 5, 6, 7, 9, 10):
                j("exchange remnant", dict(a[3])["coef"][n_], dict(b[3])["coef"][n_], 1e-10)
            sc = max(abs(x) for x in A[1::3])
            i_ = [i for i in range(0, n, max(1, n // 400))]
            dev = max(abs(A[3 * i + 1] - B[3 * i + 1]) for i in i_[: int(0.6 * len(i_))])
            j("exchange waveform", dev / sc, 0.0, 8e-2)
            m.count("exchange symmetry")
    return m.part()


def judge_run(m, d, name, P, r):
    q, c1, c2, w0, M, dt = P
    j = Judge(m, f"run q={q} chi1={c1} chi2={c2} omega={w0} M={M} dt={dt}")
    head = ["set " + " ".join(map(repr, P)), "run"]
    rc, o, e, out = drive(d, name + "p", head + ["free"])
    D = dict((n, v) for n, v in out if n != "after")
    rep = bhah.san_report(rc, e)
    if "fine" in D and "nqc" not in D or "fine" in D and D["nqc"][6] >= D["fine"][-8]:
        # the attachment time lies past the end of the dynamics: the recorded finding
        m.violation("attachment-clamped-to-last-sample", f"{j.tag}: attachment past the last sample of the dynamics, NQC fit degenerate: rc {rc} {e[-120:]}") if name == "wit" else m.count("skipped: attachment past the dynamics")
        return
    if rc or rep:
        m.violation("run", f"{j.tag}: rc {rc} {rep or ''} {o[-200:]} {e[-600:]}")
        return
    coef = D["coef"]
    m1, m2, a6, dSO, Dt, Mf, af, risco, rstop, wq, tau, dT = coef
    row = lambda a, n: [a[i:i + n] for i in range(0, len(a), n)]
    low, fine, wlow, wfine, insp, imr = row(D["low"], 8), row(D["fine"], 8), row(D["wlow"], 3), row(D["wfine"], 3), row(D["insp"], 3), row(D["imr"], 3)
    a1, a2, a3, b1, b2, tI, tA = D["nqc"]
    allrows = low + fine
    # ---- dynamics
    j.true("finite", all(map(math.isfinite, D["imr"])) and all(map(math.isfinite, D["low"] + D["fine"])), "NaN or infinity in the output")
    j.true("time order", all(a[0] < b[0] for a, b in zip(allrows, allrows[1:])), "times of the dynamics do not increase")
    j("first row", low[0][0], 0.0, 0.0)
    for i in range(4):
        j("initial row", low[0][1 + i], D["ic"][i], 0.0)
    j.true("phase grows", all(a[2] < b[2] for a, b in zip(allrows, allrows[1:])), "orbital phase not increasing")
    j.true("shrinks", all(a[1] > b[1] for a, b in zip(fine, fine[1:])) and low[-1][1] > fine[0][1] and low[0][1] > low[-1][1], "separation not shrinking")
    j.true("frequency", all(a[6] < b[6] * (1 + 1e-9) for a, b in zip(fine, fine[1:-3])), "frequency decreases before the end of the dynamics")
    j.true("fine spacing", all(abs(b[0] - a[0] - 0.1) < 1e-7 for a, b in zip(fine, fine[1:])), "fine dynamics not sampled every 0.1")
    j.true("fine start", fine[0][0] - low[-1][0] < 3 * max(b[0] - a[0] for a, b in zip(low, low[1:])) + 5, f"gap between coarse and fine dynamics: {low[-1][0]} {fine[0][0]}")
    j.true("step back", fine[-1][0] - fine[0][0] > 240 or not low, f"fine dynamics cover {fine[-1][0] - fine[0][0]}")
    # what ends the dynamics happens right after its last row
    aft = [v for n, v in out if n == "after"]
    ended = None
    for i, v in enumerate(aft):
        if i and v[1] < aft[i - 1][1] or v[5] > 0 or v[3] > 0 or v[2] > 1.0 or not math.isfinite(v[1]):
            ended = i
            break
    # (the search for the peak also accepts the flattest point of the frequency or momentum)
    om_ = [x[6] for x in fine[-40:]] + [v[1] for v in aft[2::2]]
    ps_ = [x[3] for x in fine[-40:]]
    for sq in (om_, ps_):
        ds = [abs(b - a) for a, b in zip(sq, sq[1:])]
        if any(ds[i] <= ds[i - 1] and ds[i] <= ds[i + 1] for i in range(1, len(ds) - 1)):
            ended = 0
    j.true("end of dynamics", ended is not None or fine[-1][1] < rstop + 0.3, f"dynamics stops at r={fine[-1][1]}, Omega={fine[-1][6]} although neither frequency nor momentum peaks within 3M and r_stop={rstop}")
    # ---- independent integration between rows, and samples of the final waveform
    lines = []
    for s_ in (-2, -1, 1, 2):
        lines += [f"set {q!r} {c1!r} {c2!r} {w0 * (1 + 1e-3 * s_)!r} {M!r} {dt!r}", "circ"]
    lines += head
    seg = []
    for i in sorted(r.sample(range(len(low) - 1), min(12, len(low) - 1))):
        seg.append(("low", i, low[i + 1]))
        lines.append(f"rk4 0 {i} {low[i + 1][0]!r}")
    for i in sorted(r.sample(range(len(fine) - 60), 10)) + [len(fine) - 61]:
        seg.append(("fine", i, fine[i + 50]))
        lines.append(f"rk4 1 {i} {fine[i + 50][0]!r}")
    i = len(low) - 1
    seg.append(("low", i, fine[0]))
    lines.append(f"rk4 0 {i} {fine[0][0]!r}")
    tl, tf = [x[0] for x in low], [x[0] for x in fine]
    nins = sum(1 for x in imr if x[0] <= tA)
    samp = []
    for i in sorted(r.sample(range(nins), 30)) + [nins - 1, max(0, nins - 20)]:
        t = imr[i][0]
        if t >= tf[0]:
            w, b = 1, min(bisect.bisect_right(tf, t) - 1, len(tf) - 1)
        else:
            w, b = 0, bisect.bisect_right(tl, t) - 1
        samp.append((i, t))
        lines.append(f"rk4 {w} {b} {t!r}")
    lines += ["rk4 0 0 0.0", "free"]
    rc, o, e, out2 = drive(d, name + "q", lines)
    if rc:
        m.violation("rerun", f"{j.tag}: rc {rc} {e[-300:]}")
        return
    D2 = dict(out2)
    cc = [v for n, v in out2 if n == "circ"]
    dd = lambda a: cc[0][a] - 8 * cc[1][a] + 8 * cc[2][a] - cc[3][a]
    j.true("reproducible", all(D[n] == D2[n] for n in ("low", "fine", "nqc", "imr")), "two runs differ")
    R = [v for n, v in out2 if n == "rk4"]
    RP = [v for n, v in out2 if n == "rk4pt"]
    # initial data: circular radius and angular momentum, and the inward velocity of adiabatic inspiral
    y0 = RP[-1]
    j("initial orbit r", D["ic"][0], (cc[1][0] + cc[2][0]) / 2, 1e-5 * D["ic"][0])
    j("initial orbit pphi", D["ic"][3], (cc[1][3] + cc[2][3]) / 2, 1e-5 * D["ic"][3])
    j("adiabatic inspiral", y0[3] / (y0[6] * dd(0) / dd(3)), 1.0, 5e-3, f"rdot {y0[3]}")
    j.true("initial momentum inward", D["ic"][2] < 0, f"{D['ic']}")
    for (kind, i, tgt), y, v in zip(seg, R, RP):
        tol = 2e-6 if kind == "fine" else 2e-7
        if kind == "fine" or i == len(low) - 1:
            tol = 2e-3
        for a, nm in enumerate(("r", "phi", "prstar", "pphi")):
            j(f"trajectory {nm}", tgt[1 + a], y[a], tol * (1 if a != 2 else 0.3) * max(1.0, abs(y[0] if a == 0 else 1)), f"{kind} row {i + 1} (t={tgt[0]})")
        m.count("trajectory segments")
    # columns of the recorded dynamics
    for rows_, wf in ((low, wlow), (fine, wfine)):
        for i in r.sample(range(len(rows_)), min(6, len(rows_))):
            j("row time", wf[i][0], rows_[i][0], 0.0)
    # ---- raw waveform, NQC factor
    def nqc(x):
        rr, pr, om = x[1], x[3], x[6]
        q1 = pr * pr / (rr * om) ** 2
        p1 = -pr / (rr * om)
        return (1 + a1 * q1 + a2 * q1 / rr + a3 * q1 / rr**1.5) * cmath.exp(1j * (b1 * p1 - b2 * p1 * pr * pr))
    cx = lambda x: complex(x[1], -x[2])
    j.true("rows", len(insp) == len(allrows) == len(wlow) + len(wfine), f"{len(insp)} {len(allrows)}")
    for i in r.sample(range(len(allrows)), 40):
        raw = cx((wlow + wfine)[i])
        exp = raw * nqc(allrows[i])
        j("NQC-corrected row", abs(cx(insp[i]) - exp), 0.0, 1e-11 * abs(exp), f"row {i}")
        j("row time", insp[i][0], allrows[i][0], 0.0)
    # matching at the attachment time
    ia = min(max(bisect.bisect_left(tf, tA), 4), len(tf) - 5)
    bob = D["bob"]
    hs = [cx(insp[len(low) + ia + s]) for s in range(-4, 5)]
    ts = [tf[ia + s] - tA for s in range(-4, 5)]
    amp = [abs(h) for h in hs]
    ph = [cmath.phase(hs[0])]
    for h0, h1 in zip(hs, hs[1:]):
        ph.append(ph[-1] + cmath.phase(h1 / h0))
    fit = lambda ys: polyfit(ts, ys, 4)
    ca, cp = fit(amp), fit(ph)
    edge = min(abs(tf[-1] - tA), 1.0) / 1.0
    if tf[-1] - tA > 0.6:
        j("amplitude at attachment", ca[0] / bob[0], 1.0, 2e-4)
        j("amplitude slope at attachment", ca[1], bob[1], 2e-4 * max(1, abs(bob[0])) + 2e-5)
        j("amplitude curvature at attachment", 2 * ca[2], bob[2], 3e-4 + 0.05 * abs(bob[2]))
        j("frequency at attachment", abs(cp[1]), bob[3], 2e-3 * bob[3])
        j("frequency slope at attachment", math.copysign(2 * cp[2], 2 * cp[2] * cp[1]), bob[4], 3e-3 + 0.1 * abs(bob[4]))
        m.count("attachments judged")
    # attachment time
    if risco < fine[-1][1]:
        j("t_ISCO", tI, fine[-1][0], 0.0)
    else:
        b = bisect.bisect_left([-x[1] for x in fine], -risco)
        x0, x1 = fine[max(b - 1, 0)], fine[min(b, len(fine) - 1)]
        if x0 is not x1:
            tt = x0[0] + (risco - x0[1]) / (x1[1] - x0[1]) * (x1[0] - x0[0])
            j("t_ISCO", tI, tt, 0.02)
    j("t_attach", tA, min(tI - Dt, fine[-1][0]), 1e-9)
    # ---- the final signal
    j.true("uniform", all(abs(x[0] - i * dT) < 1e-6 for i, x in enumerate(imr)), "samples not uniform from t=0 with the requested spacing")
    nr = len(imr) - nins
    j.true("ringdown length", abs(nr - 15 * int(tau / dT)) <= 1, f"{nr} ringdown samples for tau/dT = {tau / dT}")
    for (i, t), y, v in zip(samp, R[len(seg):], RP[len(seg):]):
        raw = complex(v[22], v[23])
        pseudo = (t, y[0], y[1], y[2], y[3], v[0], v[1], v[2])
        exp = raw * nqc(pseudo)
        got = cx(imr[i])
        near = tf[0] + 2 < t < tf[-1] - 25
        j("waveform amplitude", abs(got) / abs(exp), 1.0, 1e-3 if near else 1e-2, f"sample {i} t={t}")
        j("waveform phase", cmath.phase(got / exp), 0.0, 1e-3 if near else 2e-2, f"sample {i} t={t}")
        m.count("waveform samples recomputed")
    ring = imr[nins:]
    hr = [cx(x) for x in ring]
    dph = [cmath.phase(b / a) for a, b in zip(hr, hr[1:])]
    if dT * wq < 2.5 and len(hr) > 20:
        insd = cmath.phase(cx(imr[nins - 1]) / cx(imr[nins - 2]))
        W0, Wq = bob[3] / 2, wq / 2
        tp = tA - 2 * tau * math.log(W0 / Wq)
        # the closed form of the phase loses digits like exp(2t/tau)
        noise = lambda t: 4e-16 * wq * tau * math.exp(2 * (t - tp) / tau)
        good = [i for i in range(len(dph)) if noise(ring[i + 1][0]) < 1e-4 * min(1, wq * dT)]
        j.true("sense of rotation", all(dph[i] * insd > 0 for i in good), "ringdown rotates against the inspiral")
        late = [dph[i] for i in good][-max(5, len(good) // 4):]
        j("late ringdown frequency", abs(sum(late) / len(late)) / dT, wq, 3e-3 * wq)
        n3 = len(hr) // 3
        j("late ringdown decay", (math.log(abs(hr[-1])) - math.log(abs(hr[-n3]))) / ((n3 - 1) * dT), -1 / tau, 3e-3 / tau)
        # ring-down samples follow the BOB law: sech amplitude over frequency squared
        kk = (Wq**4 - W0**4) / (1 - math.tanh((tA - tp) / tau))
        Om = lambda t: (W0**4 + kk * (math.tanh((t - tp) / tau) - math.tanh((tA - tp) / tau))) ** 0.25
        for i in [0, 1] + r.sample(range(len(ring)), 12):
            t = ring[i][0]
            exp = bob[0] * (W0 / Om(t)) ** 2 * math.cosh((tA - tp) / tau) / math.cosh((t - tp) / tau)
            j("ringdown amplitude", abs(hr[i]) / exp, 1.0, 1e-7, f"sample {nins + i}")
            if i + 1 < len(hr):
                j("ringdown frequency", abs(dph[i]) / dT, 2 * Om(t + dT / 2), (0.1 * dT * dT / tau / tau + 4e-3) * Om(t) + 4 * noise(t + dT) / dT, f"sample {nins + i}")
            m.count("ringdown samples judged")
        # no jump at the junction
        jp = cmath.phase(hr[0] / cx(imr[nins - 1]))
        lo_, hi_ = sorted((abs(insd), abs(dph[0])))
        j.true("junction phase", 0.7 * lo_ - 0.02 <= abs(jp) <= 1.3 * hi_ + 0.02, f"phase step {jp} across the junction, {insd} before, {dph[0]} after")
        j("junction amplitude", abs(hr[0]) / abs(cx(imr[nins - 1])), 1.0, 0.02 + 0.2 * dT * dT / tau / tau)
    m.count("waveforms")
    m.observe(f"wave {P}", n=0)


def polyfit(xs, ys, deg):
    n = deg + 1
    A = [[sum(x ** (i + k) for x in xs) for k in range(n)] + [sum(y * x**i for x, y in zip(xs, ys))] for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda q: abs(A[q][c]))
        A[c], A[p] = A[p], A[c]
        for q in range(n):
            if q != c:
                f = A[q][c] / A[c][c]
                A[q] = [u - f * v for u, v in zip(A[q], A[c])]
    return [A[i][n] / A[i][i] for i in range(n)]


def witness(arg):
    d, k = arg
    m = Monitor("C23")
    judge_run(m, d, "wit", WIT, rng("wit"))
    return m.part()


def task(t):
    return {"s": structure, "l": limits, "w": wave, "x": witness}[t[0]](t[1:])


def main():
    m = Monitor("C23", rule="distinct phase-space points, limits and complete waveforms judged")
    d = scratch("seo")
    with quiet():
        seoproj.generate(d)
    rc, log = bhah.make(d, flags=FLAGS, jobs=8, extra_ld="-lgsl -lgslcblas")
    if rc:
        m.violation("build", log[-1500:])
        m.finish()
        return
    n = (20, 4, 36) if QUICK else (400, 100, 700)
    jobs = [("x", d, 0)] + [("w", d, k) for k in range(n[2])] + [("l", d, k) for k in range(n[1])] + [("s", d, k) for k in range(n[0])]
    for i, st, res in run_isolated(task, jobs, timeout=300):
        if st == "ok":
            m.merge(res)
        else:
            raise vlib.HarnessError(f"{jobs[i][0]}{jobs[i][2]}: {st} {res}")
    m.require("waveforms", 5)
    m.require("Hamilton equations judged", 20)
    m.require("quasinormal modes", 5)
    m.finish()


vlib.main(main)
