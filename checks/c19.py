"""C19: matter, wave, elliptic-solver, horizon, boost, rotation and harmonics modules are the mathematics they name."""
import itertools
import math
import random
import subprocess
import mpmath as mp
import sympy as sp
import vlib
from vlib import Monitor, run_isolated, rng, QUICK, quiet, SCRATCH
from geom import SYSTEMS, R3, geometry, flat, rand_point
import jets
from swsh import sYlm
from dageval import DagEval, JetEval
from jets import J, jsum, inv, christoffel, Spacetime, RN
from stpoint import Point, Checker, S, HALF
import nrpy.params as par
import nrpy.indexedexp as ixp
import nrpy.reference_metric as refmetric
import nrpy.equations.general_relativity.BSSN_quantities  # registers EvolvedConformalFactor_cf

TOL = mp.mpf(10) ** -15
HAVE_PRE = True


def expect(m, name, got, want, where="", scale=None, tol=TOL):
    """nested lists of numbers"""
    g = [v for _, v in flat(got)] if isinstance(got, (list, tuple)) else [got]
    w = [v for _, v in flat(want)] if isinstance(want, (list, tuple)) else [want]
    if len(g) != len(w):
        m.violation(f"{name}:shape", f"{name} has {len(g)} components, expected {len(w)} {where}")
        return
    val = lambda x: x.v if isinstance(x, J) else x
    g, w = [val(x) for x in g], [val(x) for x in w]
    sc = scale or max([abs(x) for x in w] + [mp.mpf(1)])
    m.count("components", len(g))
    for k, (a, b) in enumerate(zip(g, w)):
        m.observe()
        if not abs(a - b) <= tol * sc:
            m.violation(name, f"{name}[{k}] = {mp.nstr(a, 12)}, expected {mp.nstr(b, 12)} {where}")
            return


# ---------------------------------------------------------------- relativistic hydrodynamics
def fluid(r, P):
    """jets of a fluid moving on the spacetime of P"""
    u = lambda a=1.0: mp.mpf(r.uniform(-a, a))
    rj = lambda v: J(mp.mpf(v), [u() for _ in RN], jets._sym([[u() for _ in RN] for _ in RN]))
    st = P.st
    w = [rj(r.uniform(-.25, .25)) / P.h[i] for i in R3]
    # scaled down by the conformal factor so that the velocity is timelike
    f = mp.sqrt(abs(sum(st.gam[i][i].v * w[i].v ** 2 for i in R3))) + mp.mpf(10) ** -3
    lam = mp.mpf(r.uniform(.1, .8)) / f / 2
    v = [w[i] * st.alpha * lam - st.betaU[i] for i in R3]
    norm = st.g[0][0] + jsum(st.g[0][i + 1] * v[i] * 2 for i in R3) + jsum(st.g[i + 1][j + 1] * v[i] * v[j] for i in R3 for j in R3)
    u0 = (-norm).pow(-0.5)
    return dict(rhob=rj(r.uniform(.1, 2)), P=rj(r.uniform(.1, 2)), h=rj(r.uniform(1.1, 3)), Ye=rj(r.uniform(.1, .5)), u4Ut=u0, v=v)


class JetPoint:
    """jet values of the symbols"""

    def __init__(self, P, F, table):
        self.P, self.F, self.table = P, F, table

    def __call__(self, n):
        P = self.P
        if n in self.F:
            return self.F[n]
        if n in P.p:
            return P.p[n]
        if n in ("xx0", "xx1", "xx2"):
            g = [mp.mpf(0)] * 4
            g[1 + int(n[2])] = mp.mpf(1)
            return J(P.q[int(n[2])], g, [[mp.mpf(0)] * 4 for _ in RN])
        if n in self.table:
            return JetEval(self)(self.table[n])
        for base, t in (("hDD", P.hDD), ("aDD", P.aDD), ("vetU", P.vet), ("lambdaU", P.lam)):
            ix = n[len(base):]
            if n.startswith(base) and ix.isdigit():
                for c in ix:
                    t = t[int(c)]
                return t
        if n in ("trK", "cf", "alpha"):
            return {"trK": P.trK, "cf": P.cf, "alpha": P.st.alpha}[n]
        raise KeyError(n)


def grhd(task):
    cs, pre, cfc, seed = task
    m = Monitor("C19")
    par.set_parval_from_str("EvolvedConformalFactor_cf", cfc)
    with quiet():
        from nrpy.equations.grhd.GRHD_equations import GRHD_Equations
        E = GRHD_Equations(cs, pre)
        E.construct_all_equations()
        E.compute_vU_from_u4U__no_speed_limit()
    r = rng("grhd", cs, pre, cfc, seed)
    P = Point(cs, r, cfc)
    P.cfname = cfc
    F = fluid(r, P)
    C = Checker(m, cs, pre, [P])
    st = P.st
    key = f"{C.key} cf={cfc}"
    for i in R3:
        F[f"rescaledvU{i}"] = F["v"][i] * P.h[i]
    for n in ("rhob", "P", "h", "Ye", "u4Ut", "rescaledvU0", "rescaledvU1", "rescaledvU2"):
        P.extra[n] = F[n].v
    u4 = [F["u4Ut"]] + [F["v"][i] * F["u4Ut"] for i in R3]
    T = [[F["rhob"] * F["h"] * u4[a] * u4[b] + F["P"] * st.gi[a][b] for b in RN] for a in RN]
    TUD = [[jsum(T[a][c] * st.g[c][b] for c in RN) for b in RN] for a in RN]
    h = P.h
    one = J.const(1)
    sc = [one] + h
    ghatU, dethat = inv(P.ghat)
    e6 = (st.det / dethat).pow(0.5)
    al = st.alpha
    rho = al * e6 * F["rhob"] * u4[0]
    Ye = rho * F["Ye"]
    tau = al * al * e6 * T[0][0] - rho
    SD = [al * e6 * TUD[0][i + 1] for i in R3]
    ev = JetEval(JetPoint(P, F, C.table))
    jj = lambda x: x if isinstance(x, J) else J.const(x)

    def val(exprs):
        return [jj(ev(sp.sympify(e))) for _, e in flat(exprs)] if isinstance(exprs, (list, tuple)) else jj(ev(sp.sympify(exprs)))
    try:
        num = lambda e: C.eval([x for _, x in flat(e)] if isinstance(e, (list, tuple)) else [e])[0]
        names = [
            ("T4UU", E.T4UU, T), ("T4UD", E.T4UD, TUD),
            ("rescaledT4UU", E.rescaledT4UU, [[T[a][b] * sc[a] * sc[b] for b in RN] for a in RN]),
            ("rescaledT4UD", E.rescaledT4UD, [[TUD[a][b] * sc[a] / sc[b] for b in RN] for a in RN]),
            ("rho_star", E.rho_star, rho), ("Ye_star", E.Ye_star, Ye), ("tau_tilde", E.tau_tilde, tau),
            ("S_tildeD", E.S_tildeD, SD), ("rescaledS_tildeD", E.rescaledS_tildeD, [SD[i] / h[i] for i in R3]),
            ("VU_from_u4U", E.VU_from_u4U, F["v"]),
            ("rescaled_rho_star_fluxU", E.rescaled_rho_star_fluxU, [rho * F["v"][i] * h[i] for i in R3]),
            ("rescaled_Ye_star_fluxU", E.rescaled_Ye_star_fluxU, [Ye * F["v"][i] * h[i] for i in R3]),
            ("rescaled_tau_tilde_fluxU", E.rescaled_tau_tilde_fluxU, [(al * al * e6 * T[0][i + 1] - rho * F["v"][i]) * h[i] for i in R3]),
            ("rescaled_S_tilde_fluxUD", E.rescaled_S_tilde_fluxUD, [[al * e6 * TUD[j + 1][i + 1] * h[j] / h[i] for i in R3] for j in R3]),
        ]
        for name, e, w in names:
            expect(m, f"grhd {name}", val(e), w, key)
        # balance laws: d_t U + d_j F^j + connection - source = projected divergence of the stress-energy
        sg = al * e6
        G4 = st.G4
        trG = [jsum(G4[a][a][b] for a in RN) for b in RN]
        ru = [F["rhob"] * u4[a] for a in RN]
        Yu = [ru[a] * F["Ye"] for a in RN]
        div = lambda V: sum(V[a].d(a).v + trG[a].v * V[a].v for a in RN)
        divT = [sum(T[a][b].d(a).v + trG[a].v * T[a][b].v for a in RN) + sum(G4[b][a][c].v * T[a][c].v for a in RN for c in RN) for b in RN]
        divTD = [sum(st.g[b][c].v * divT[c] for c in RN) for b in RN]
        cons = []
        for name, U, fl, con, src, rhs in [
            ("rho_star", E.rho_star, E.rho_star_fluxU, E.rho_star_connection_term, 0, sg.v * div(ru)),
            ("Ye_star", E.Ye_star, E.Ye_star_fluxU, E.Ye_star_connection_term, 0, sg.v * div(Yu)),
            ("tau_tilde", E.tau_tilde, E.tau_tilde_fluxU, E.tau_connection_term, E.tau_source_term, sg.v * al.v * divT[0] - sg.v * div(ru)),
        ] + [(f"S_tildeD{i}", E.S_tildeD[i], [E.S_tilde_fluxUD[j][i] for j in R3], E.S_tilde_connection_termsD[i], E.S_tilde_source_termD[i], sg.v * divTD[i + 1]) for i in R3]:
            u, f = val(U), val(list(fl))
            parts = [u.d(0).v] + [f[j].d(S[j]).v for j in R3] + num(con) + ([-x for x in num(src)] if src != 0 else [])
            expect(m, f"grhd balance law of {name[:8]}", sum(parts), rhs, f"{name} {key}", scale=max([abs(x) for x in parts] + [mp.mpf(1)]))
            m.count("balance laws")
    except KeyError as e:
        m.violation("grhd:unknown-symbol", f"{key}: GRHD expressions depend on unknown symbol {e}")
    m.observe(f"grhd:{key}", n=0)
    return m.part()


def adm_face(r):
    """random ADM metric at a face as plain numbers (no coordinates)"""
    one = [J.const(1)] * 3
    g = jets.random_metric(r, one)
    st = Spacetime(g)
    return st


def four_velocity(r, st, wmax=.9):
    n = [mp.mpf(r.uniform(-1, 1)) for _ in R3]
    q = mp.sqrt(sum(st.gam[i][j].v * n[i] * n[j] for i in R3 for j in R3))
    s = mp.mpf(r.choice([0, r.uniform(0, wmax), wmax]))
    v = [st.alpha.v * s * n[i] / q - st.betaU[i].v for i in R3]
    return v, 1 / (st.alpha.v * mp.sqrt(1 - s**2))


def hll(task):
    seed, n = task
    m = Monitor("C19")
    r = rng("hll", seed)
    with quiet():
        from nrpy.equations.grhd.HLL_fluxes import calculate_HLL_fluxes, HLL_solver
        from nrpy.equations.grhd.characteristic_speeds import find_cp_cm, find_cmax_cmin
    gD = ixp.declarerank2("gamma_faceDD", symmetry="sym01")
    bU = ixp.declarerank1("beta_faceU")
    al, e6 = sp.symbols("alpha_face e6phi_face", real=True)
    side = {}
    for s in "rl":
        u = [sp.Symbol(f"u{s}{k}", real=True) for k in range(4)]
        side[s] = dict(u=u, **{k: sp.Symbol(f"{k}_{s}", real=True) for k in ("rho", "Ye", "P", "h", "cs2")})
    R, L = side["r"], side["l"]
    g4 = ixp.declarerank2("gUU", symmetry="sym01", dimension=4)
    with quiet():
        flux = [calculate_HLL_fluxes(d, al, gD, bU, e6, R["u"], L["u"], R["rho"], L["rho"], R["Ye"], L["Ye"], R["P"], L["P"], R["h"], L["h"], R["cs2"], L["cs2"]) for d in R3]
        speeds = [find_cmax_cmin(d, gD, bU, al, R["u"], L["u"], R["cs2"], L["cs2"]) for d in R3]
        cpm = [find_cp_cm(d, g4, R["u"], R["cs2"]) for d in R3]
    for it in range(n):
        st = adm_face(r)
        env = dict(alpha_face=st.alpha.v)
        flat_case = it % 4 == 0
        if flat_case:
            st = Spacetime([[J.const((-1 if a == 0 else 1) if a == b else 0) for b in RN] for a in RN])
            env["alpha_face"] = mp.mpf(1)
        e6v = mp.sqrt(st.det.v)
        env["e6phi_face"] = e6v
        for i in R3:
            env[f"beta_faceU{i}"] = st.betaU[i].v
            for j in R3:
                env[f"gamma_faceDD{i}{j}"] = st.gam[i][j].v
        for a in RN:
            for b in RN:
                env[f"gUU{a}{b}"] = st.gi[a][b].v
        prim = {}
        for s in "rl":
            v, u0 = four_velocity(r, st)
            p = dict(rho=r.uniform(.1, 2), Ye=r.uniform(0, .5), P=r.uniform(0, 2), h=r.uniform(1, 3), cs2=r.choice([r.uniform(0.01, .99), 1e-8, 1 - 1e-8]))
            if it % 3 == 2 and s == "l":
                p, v, u0 = prim["r"][0], prim["r"][1], prim["r"][2]  # equal states
            p = {k: mp.mpf(x) for k, x in p.items()}
            prim[s] = (p, v, u0)
            for k, x in p.items():
                env[f"{k}_{s}"] = x
            for a in RN:
                env[f"u{s}{a}"] = u0 * ([1] + v)[a]
        ev = DagEval(lambda k: env[k])
        for d in R3:
            lam = {}
            for s in "rl":
                p, v, u0 = prim[s]
                u = [u0] + [u0 * x for x in v]
                # sound cone: (1-c^2)(u.k)^2 - c^2 g^{-1}(k,k) = 0 for k = (-lambda, e_d)
                q = lambda x: (1 - p["cs2"]) * (u[d + 1] - x * u[0]) ** 2 - p["cs2"] * (st.gi[d + 1][d + 1].v - 2 * x * st.gi[0][d + 1].v + x * x * st.gi[0][0].v)
                c0 = q(mp.mpf(0))
                c2 = (q(mp.mpf(1)) + q(mp.mpf(-1))) / 2 - c0
                c1 = (q(mp.mpf(1)) - q(mp.mpf(-1))) / 2
                disc = mp.sqrt(c1 * c1 - 4 * c2 * c0)
                lam[s] = sorted([(-c1 - disc) / (2 * c2), (-c1 + disc) / (2 * c2)])
            got = [ev(cpm[d][0]), ev(cpm[d][1])]
            expect(m, "characteristic speeds", got, lam["r"], f"direction {d}")
            if flat_case:
                # relativistic addition of velocity and sound speed for motion along the face normal
                p, v, u0 = prim["r"]
                c = mp.sqrt(p["cs2"])
                v2 = sum(x * x for x in v)
                rt = mp.sqrt((1 - v2) * (1 - v2 * p["cs2"] - v[d] ** 2 * (1 - p["cs2"])))
                w = [(v[d] * (1 - p["cs2"]) + sg * c * rt) / (1 - v2 * p["cs2"]) for sg in (-1, 1)]
                expect(m, "special-relativistic characteristic speeds", got, w, f"direction {d}")
            cmin, cmax = -min(mp.mpf(0), lam["r"][0], lam["l"][0]), max(mp.mpf(0), lam["r"][1], lam["l"][1])
            expect(m, "cmin, cmax", [ev(speeds[d][0]), ev(speeds[d][1])], [cmin, cmax], f"direction {d}")
            U, Fx = {}, {}
            for s in "rl":
                p, v, u0 = prim[s]
                u = [u0] + [u0 * x for x in v]
                T = [[p["rho"] * p["h"] * u[a] * u[b] + p["P"] * st.gi[a][b].v for b in RN] for a in RN]
                TD = [[sum(T[a][c] * st.g[c][b].v for c in RN) for b in RN] for a in RN]
                a_ = st.alpha.v
                D = a_ * e6v * p["rho"] * u0
                U[s] = [D, D * p["Ye"], a_**2 * e6v * T[0][0] - D] + [a_ * e6v * TD[0][i + 1] for i in R3]
                Fx[s] = [D * v[d], D * v[d] * p["Ye"], a_**2 * e6v * T[0][d + 1] - D * v[d]] + [a_ * e6v * TD[d + 1][i + 1] for i in R3]
            want = [(cmax * Fx["l"][k] + cmin * Fx["r"][k] - cmax * cmin * (U["r"][k] - U["l"][k])) / (cmax + cmin) for k in range(6)]
            f = flux[d]
            expect(m, "HLL fluxes", [ev(x) for x in (f[0], f[1], f[2], *f[3])], want, f"direction {d}")
            m.count("Riemann problems")
            m.observe(f"hll:{d}:{flat_case}:{it % 3}:{'sub' if cmin > 0 and cmax > 0 else 'super'}", n=0)
    return m.part()


def minmax(task):
    m = Monitor("C19")
    r = rng("minmax", task)
    import nrpy.equations.grhd.Min_Max_and_Piecewise_Expressions as noif
    with mp.workdps(260):
        x, y = sp.symbols("x y", real=True)
        fns = [("min_noif", noif.min_noif, lambda a, b: min(a, b)), ("max_noif", noif.max_noif, lambda a, b: max(a, b)),
               ("coord_leq_bound", noif.coord_leq_bound, lambda a, b: int(a <= b)), ("coord_geq_bound", noif.coord_geq_bound, lambda a, b: int(a >= b)),
               ("coord_less_bound", noif.coord_less_bound, lambda a, b: int(a < b)), ("coord_greater_bound", noif.coord_greater_bound, lambda a, b: int(a > b))]
        vals = [mp.mpf(v) for v in (0, 1, -1, .5, -2.25, 1e-30, -1e-30, 1e30)] + [mp.mpf(r.uniform(-3, 3)) for _ in range(6)]
        for name, fn, ref in fns:
            for args, sub in (((x, y), None), ((x, sp.sympify(0)), "y"), ((sp.sympify(0), y), "x"), ((x, 0.0), "y"), ((0.0, y), "x")):
                if name.startswith("coord") and args[0] in (0, 0.0):
                    continue
                e = sp.sympify(fn(*args))
                for a in vals:
                    for b in vals:
                        env = dict(x=a, y=b, TINYDOUBLE=mp.mpf(10) ** -100)
                        if sub == "x":
                            env["x"] = mp.mpf(0)
                        if sub == "y":
                            env["y"] = mp.mpf(0)
                        got = DagEval(lambda n: env[n])(e)
                        expect(m, name, got, mp.mpf(ref(env["x"], env["y"])), f"of ({mp.nstr(env['x'], 5)}, {mp.nstr(env['y'], 5)})", tol=mp.mpf(10) ** -40)
        m.observe("minmax", n=0)
    return m.part()


# ---------------------------------------------------------------- boosts and rotations
def rational_velocity(r):
    """rational 3-velocity with a rational Lorentz factor"""
    a, b, c, d = [r.randint(0, 5) for _ in range(4)]
    if a == b == c == d == 0:
        a = 1
    n2 = a * a + b * b + c * c + d * d
    k = [sp.Rational(a * a + b * b - c * c - d * d, n2), sp.Rational(2 * (b * c + a * d), n2), sp.Rational(2 * (b * d - a * c), n2)]
    p, q = sorted(r.sample(range(1, 12), 2))
    speed = sp.Rational(2 * p * q, p * p + q * q) if r.random() < .6 else sp.Rational(q * q - p * p, p * p + q * q)
    return [x * speed * r.choice([-1, 1]) for x in k]


def boosts(task):
    seed, n, slow = task
    m = Monitor("C19")
    r = rng("boost", seed)
    from nrpy.equations.general_relativity.LorentzBoost import LorentzBoost
    R4 = range(4)
    rat = lambda: sp.Rational(r.randint(-9, 9), r.randint(1, 5))
    eta = [-1, 1, 1, 1]

    def same(name, a, b, where):
        fa, fb = [sp.nsimplify(x) for _, x in flat(a)], [sp.nsimplify(x) for _, x in flat(b)]
        m.observe(n=len(fb))
        m.count("components", len(fb))
        if fa != fb:
            k = next((i for i in range(min(len(fa), len(fb))) if fa[i] != fb[i]), -1)
            m.violation(name, f"{name}: component {k} is {fa[k]}, expected {fb[k]} {where}")
    for it in range(n):
        v = [sp.sympify(0)] * 3 if it == 0 else rational_velocity(r)
        if it == 1:
            v = [sp.sympify(0), v[1] if v[1] else sp.Rational(3, 5), sp.sympify(0)]
            v[1] = sp.Rational(3, 5)
        v2 = sum(x * x for x in v)
        ga = 1 / sp.sqrt(1 - v2)
        B = LorentzBoost(list(v))
        where = f"v={v}"

        def matrix(v):
            # boost to the frame moving with v: x' = x + (gamma-1)(x.v)v/v^2 - gamma v t, t' = gamma(t - v.x)
            M = [[sp.sympify(0)] * 4 for _ in R4]
            M[0][0] = ga
            for i in R3:
                M[0][i + 1] = M[i + 1][0] = -ga * v[i]
                for j in R3:
                    M[i + 1][j + 1] = (1 if i == j else 0) + v[i] * v[j] * ga * ga / (1 + ga)
            return M
        L, Li = matrix(v), matrix([-x for x in v])
        same("LorentzMatrix", B.LorentzMatrix, L, where)
        same("InverseLorentzMatrix", B.InverseLorentzMatrix, Li, where)
        V = [rat() for _ in R4]
        W = [rat() for _ in R4]
        same("boost_vectorU", B.boost_vectorU(list(V)), [sum(L[a][b] * V[b] for b in R4) for a in R4], where)
        same("inverse_boost_vectorU", B.inverse_boost_vectorU(list(V)), [sum(Li[a][b] * V[b] for b in R4) for a in R4], where)
        down = lambda w: [sum(Li[b][a] * w[b] for b in R4) for a in R4]
        same("boost_vectorD", B.boost_vectorD(list(W)), down(W), where)
        # lower-index tensors: products of independent covectors are a spanning set, and each factor transforms by itself
        c = [[rat() for _ in R4] for _ in range(4)]
        d = [down(x) for x in c]
        same("boost_tensorDD", B.boost_tensorDD([[c[0][a] * c[1][b] for b in R4] for a in R4]), [[d[0][a] * d[1][b] for b in R4] for a in R4], where)
        same("boost_tensorDDD", B.boost_tensorDDD([[[c[0][a] * c[1][b] * c[2][e] for e in R4] for b in R4] for a in R4]),
             [[[d[0][a] * d[1][b] * d[2][e] for e in R4] for b in R4] for a in R4], where)
        if it < slow:
            same("boost_tensorDDDD", B.boost_tensorDDDD([[[[c[0][a] * c[1][b] * c[2][e] * c[3][f] for f in R4] for e in R4] for b in R4] for a in R4]),
                 [[[[d[0][a] * d[1][b] * d[2][e] * d[3][f] for f in R4] for e in R4] for b in R4] for a in R4], where)
        m.count("boosts")
        m.observe(f"boost:{it}", n=0)
    return m.part()


def rotations(task):
    seed, n = task
    m = Monitor("C19")
    r = rng("rot", seed)
    from nrpy.equations.quaternion_rotations.tensor_rotation import rotate
    for it in range(n):
        ax = [r.randint(-4, 4) for _ in R3]
        if not any(ax):
            ax = [0, 1, 0]
        ang = mp.mpf(r.uniform(-7, 7))
        k = [mp.mpf(x) for x in ax]
        nk = mp.sqrt(sum(x * x for x in k))
        k = [x / nk for x in k]
        c, s = mp.cos(ang), mp.sin(ang)
        eps = lambda i, j, l: mp.mpf((i - j) * (j - l) * (l - i)) / 2
        Rm = [[(c if i == j else 0) + (1 - c) * k[i] * k[j] - s * sum(eps(i, j, l) * k[l] for l in R3) for j in R3] for i in R3]
        mode = it % 3
        vv = [mp.mpf(r.randint(-9, 9)) for _ in R3]
        MM = [[mp.mpf(r.randint(-9, 9)) for _ in R3] for _ in R3]
        angle = sp.Symbol("theta", real=True)
        env = dict(theta=ang)
        if mode == 0:  # symbolic components, numeric axis
            v = list(ixp.declarerank1("vU"))
            M = ixp.declarerank2("MUU")
            axis = [sp.Integer(x) for x in ax]
            env.update({f"vU{i}": vv[i] for i in R3})
            env.update({f"MUU{i}{j}": MM[i][j] for i in R3 for j in R3})
        elif mode == 1:  # symbolic unit axis
            axis = [sp.Symbol(f"n{i}", real=True) for i in R3]
            env.update({f"n{i}": k[i] for i in R3})
            v = [sp.Integer(int(x)) for x in vv]
            M = [[sp.Integer(int(x)) for x in row] for row in MM]
        else:  # plain integers
            axis, v, M = list(ax), [int(x) for x in vv], [[int(x) for x in row] for row in MM]
        v0, M0, ax0 = list(v), [list(x) for x in M], list(axis)
        rv, rM = rotate(v, axis, angle), rotate(M, axis, angle)
        where = f"axis {ax} angle {mp.nstr(ang, 6)}"
        m.observe(n=3)
        if v != v0 or [list(x) for x in M] != M0 or axis != ax0:
            m.violation("rotation-mutates-input", f"rotate() changed its arguments {where}")
        ev = DagEval(lambda q: env[q])
        expect(m, "rotated vector", [ev(sp.sympify(x)) for x in rv], [sum(Rm[i][j] * vv[j] for j in R3) for i in R3], where)
        expect(m, "rotated matrix", [ev(sp.sympify(x)) for _, x in flat(rM)],
               [sum(Rm[i][a] * Rm[j][b] * MM[a][b] for a in R3 for b in R3) for i in R3 for j in R3], where)
        m.count("rotations")
        m.observe(f"rot:{it}:{mode}", n=0)
    return m.part()


# ---------------------------------------------------------------- spin-weighted harmonics
def harmonics(task):
    modes, seed = task
    m = Monitor("C19")
    r = rng("swsh", seed)
    from nrpy.equations.special_functions.spin_weighted_spherical_harmonics import Y
    th, ph = sp.symbols("th ph", real=True)
    for s, l, mm in modes:
        with quiet():
            e = Y(s, l, mm, th, ph)
            e2 = Y(s, l, mm, th, ph, True) if r.random() < .2 else None
        for _ in range(2):
            env = dict(th=mp.mpf(r.uniform(.05, 3.09)), ph=mp.mpf(r.uniform(-4, 4)), M_PI=mp.pi)
            w = sYlm(s, l, mm, env["th"], env["ph"])
            for x in [e] + ([e2] if e2 is not None else []):
                expect(m, f"spin-weighted harmonic s={s}", DagEval(lambda n: env[n])(sp.sympify(x)), w, f"l={l} m={mm}")
        m.count("harmonics")
        m.observe(f"Y:{s}:{l}:{mm}", n=0)
    return m.part()


def harmonics_c(task):
    """the generated C function for spin weight -2"""
    lmax, seed = task
    m = Monitor("C19")
    r = rng("swshc", seed)
    import nrpy.c_function as cfc
    import nrpy.infrastructures.BHaH.special_functions.spin_weight_minus2_spherical_harmonics as mod
    par.set_parval_from_str("swm2sh_maximum_l_mode_generated", lmax)
    with quiet():
        mod.register_CFunction_spin_weight_minus2_sph_harmonics()
    f = cfc.CFunction_dict["spin_weight_minus2_sph_harmonics"]
    d = SCRATCH / f"swsh{lmax}"
    d.mkdir(parents=True)
    (d / "BHaH_defines.h").write_text("#include <math.h>\n#include <stdio.h>\n#include <stdlib.h>\n#define REAL double\n#define M_PI 3.1415926535897932384626433\n")
    pts = [(l, mm, r.uniform(.02, 3.12), r.uniform(-4, 4)) for l in range(lmax + 1) for mm in range(-l, l + 1) for _ in range(2)]
    main = "int main(void) { double a, b; int l, m; double t, p; while (scanf(\"%d %d %lf %lf\", &l, &m, &t, &p) == 4) { a = b = 7e77; spin_weight_minus2_sph_harmonics(l, m, t, p, &a, &b); printf(\"%.17g %.17g\\n\", a, b); } return 0; }\n"
    (d / "t.c").write_text(f.full_function.replace('#include "../', '#include "') + main)
    p = subprocess.run(["gcc", "-std=gnu99", "-w", "-O1", "-I.", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-o", "t", "t.c", "-lm"], cwd=d, capture_output=True, text=True)
    if p.returncode:
        m.violation("swsh-c-build", f"generated spin-weighted harmonics do not compile: {p.stderr[:300]}")
        return m.part()
    q = subprocess.run(["./t"], cwd=d, input="".join(f"{l} {mm} {t:.17g} {ph:.17g}\n" for l, mm, t, ph in pts), capture_output=True, text=True, timeout=120)
    out = q.stdout.split("\n")
    if q.returncode or len(out) < len(pts):
        m.violation("swsh-c-run", f"generated spin-weighted harmonics fail: {q.stderr[:300]}")
        return m.part()
    for (l, mm, t, ph), line in zip(pts, out):
        a, b = map(float, line.split())
        w = sYlm(-2, l, mm, mp.mpf(t), mp.mpf(ph))
        m.observe(f"YC:{l}:{mm}")
        m.count("C harmonics")
        if not abs(mp.mpc(a, b) - w) < 1e-9 * 2 ** l:
            m.violation("swsh-c-value", f"spin_weight_minus2_sph_harmonics(l={l}, m={mm}, {t:.4f}, {ph:.4f}) = {a}, {b}; expected {mp.nstr(w, 12)}")
    # out-of-range modes are refused, not left unset
    for l, mm in ((lmax + 1, 0), (2, 3), (2, -3), (-1, 0)):
        q = subprocess.run(["./t"], cwd=d, input=f"{l} {mm} 1 1\n", capture_output=True, text=True, timeout=20)
        m.observe(f"YC-out:{l}:{mm}")
        if q.returncode == 0:
            m.violation("swsh-c-range", f"mode l={l}, m={mm} is outside the generated range but returns {q.stdout.strip()}")
    return m.part()


# ---------------------------------------------------------------- stars, waves, elliptic problems, horizons
def tov(task):
    m = Monitor("C19")
    r = rng("tov", task)
    from nrpy.equations.tov.TOV_equations import TOV_Equations
    E = TOV_Equations()
    for _ in range(3):
        R = mp.mpf(r.uniform(.5, 5))
        M = R * mp.mpf(r.uniform(.02, .45))
        env = {"r_Schw": R, "y[TOVOLA_R_ISO]": mp.mpf(r.uniform(.3, 3)), "rho_energy": mp.mpf(r.uniform(0, 1)), "y[TOVOLA_PRESSURE]": mp.mpf(r.uniform(0, .5)), "y[TOVOLA_MASS]": M, "M_PI": mp.pi}
        ev = DagEval(lambda n: env[n])
        dP, dnu, dM, diso = ev(E.dP_dr), ev(E.dnu_dr), ev(E.dM_dr), ev(E.dr_iso_dr)
        rho, P = env["rho_energy"], env["y[TOVOLA_PRESSURE]"]
        # metric jets: e^nu, 1/(1-2M/r), r^2 with M' and nu' as given; second derivatives do not enter G_tt, G_rr
        def jr(v, d1, d2=0):
            g = [mp.mpf(0)] * 4
            g[1] = mp.mpf(d1)
            h = [[mp.mpf(0)] * 4 for _ in RN]
            h[1][1] = mp.mpf(d2)
            return J(mp.mpf(v), g, h)
        rr, MM, nu = jr(R, 1), jr(M, dM, r.uniform(-1, 1)), jr(r.uniform(-1, 0), dnu, r.uniform(-1, 1))
        th0 = mp.mpf(r.uniform(.3, 2.8))
        g = [mp.mpf(0)] * 4
        g[2] = mp.mpf(1)
        th = J(th0, g, [[mp.mpf(0)] * 4 for _ in RN])
        s2 = th.f(mp.sin(th0) ** 2, mp.sin(2 * th0), 2 * mp.cos(2 * th0))
        en = nu.f(mp.exp(nu.v), mp.exp(nu.v), mp.exp(nu.v))
        grr = (1 - MM * 2 / rr).pow(-1)
        z = jets.zero
        st = Spacetime([[-en, z(), z(), z()], [z(), grr, z(), z()], [z(), z(), rr * rr, z()], [z(), z(), z(), rr * rr * s2]])
        G = lambda a: sum(st.gi[a][c].v * st.Ein[c][a] for c in RN)
        expect(m, "TOV Einstein tt, rr", [-G(0), G(1)], [8 * mp.pi * rho, 8 * mp.pi * P])
        expect(m, "TOV hydrostatic equilibrium", dP, -(rho + P) * dnu / 2)
        # isotropic radius: dr_iso/r_iso = sqrt(g_rr) dr / r
        expect(m, "TOV isotropic radius", diso / env["y[TOVOLA_R_ISO]"], mp.sqrt(grr.v) / R)
        m.observe("tov", n=0)
    return m.part()


def waves(task):
    cs, pre, seed = task
    m = Monitor("C19")
    r = rng("waves", cs, pre, seed)
    with quiet():
        from nrpy.equations.wave_equation.WaveEquationCurvilinear_RHSs import WaveEquationCurvilinear_RHSs
        from nrpy.equations.wave_equation.WaveEquation_RHSs import WaveEquation_RHSs
        from nrpy.equations.nrpyelliptic.ConformallyFlat_RHSs import HyperbolicRelaxationCurvilinearRHSs
        W = WaveEquationCurvilinear_RHSs(cs, pre)
        H = HyperbolicRelaxationCurvilinearRHSs(cs, pre)
        W0 = WaveEquation_RHSs()
    q, p = rand_point(cs, r)
    Q = geometry(cs, q, p)
    u = lambda a=1.0: mp.mpf(r.uniform(-a, a))
    cart = dict(v=u(), g=[u() for _ in R3], h=[[None] * 3 for _ in R3])
    for i in R3:
        for j in range(i, 3):
            cart["h"][i][j] = cart["h"][j][i] = u()
    # chain rule from Cartesian derivatives of a scalar to native ones
    d1 = Q["Jac_dUCart_dDrfmUD"]
    from geom import jets as gj, tmap, idx
    JJ = [gj(f, q, 2) for f in tmap(cs, p)]
    dq = [sum(d1[a][i] * cart["g"][a] for a in R3) for i in R3]
    ddq = [[sum(d1[a][i] * d1[b][j] * cart["h"][a][b] for a in R3 for b in R3) + sum(cart["g"][a] * JJ[a][idx(i, j)] for a in R3) for j in R3] for i in R3]
    lap = sum(cart["h"][a][a] for a in R3)
    env = dict(p)
    for i in R3:
        env[f"xx{i}"] = q[i]
        env[f"uu_dD{i}"] = dq[i]
        for j in R3:
            env[f"uu_dDD{i}{j}"] = ddq[i][j]
    env.update(uu=u(), vv=u(), wavespeed=mp.mpf(r.uniform(.3, 2)), eta_damping=u(), variable_wavespeed=mp.mpf(r.uniform(.3, 2)), psi_background=mp.mpf(r.uniform(1, 3)), ADD_times_AUU=mp.mpf(r.uniform(0, 3)))
    C = Checker(m, cs, pre, [])

    def look(n):
        if n in env:
            return env[n]
        if n in C.table:
            return DagEval(lambda k: env[k])(C.table[n])
        raise KeyError(n)
    ev = DagEval(look)
    key = C.key
    try:
        sc = max([abs(x) for x in ddq[0] + ddq[1] + ddq[2]] + [mp.mpf(1)]) * max([abs(x) for _, x in flat(Q["ghatUU"])] + [mp.mpf(1)])
        expect(m, "curvilinear wave equation", [ev(sp.sympify(W.uu_rhs)), ev(W.vv_rhs)], [env["vv"], env["wavespeed"] ** 2 * lap], key, scale=sc)
        res = lap + env["ADD_times_AUU"] / 8 / (env["psi_background"] + env["uu"]) ** 7
        D = H.NRPyElliptic_RHSs_varname_to_expr_dict
        w2 = env["variable_wavespeed"] ** 2
        expect(m, "elliptic relaxation", [ev(H.uu_rhs), ev(H.residual), ev(H.vv_rhs), ev(D["uu_rhs"]), ev(D["vv_rhs"])],
               [env["vv"] - env["eta_damping"] * env["uu"], res, w2 * res, env["vv"] - env["eta_damping"] * env["uu"], w2 * res], key, scale=sc)
        if cs == "Cartesian":
            expect(m, "Cartesian wave equation", [ev(sp.sympify(W0.uu_rhs)), ev(W0.vv_rhs)], [env["vv"], env["wavespeed"] ** 2 * lap])
    except KeyError as e:
        m.violation("wave-unknown-symbol", f"{key}: wave or elliptic right-hand side depends on unknown symbol {e}")
    m.count("wave operators")
    m.observe(f"wave:{key}", n=0)
    return m.part()


def solutions(task):
    m = Monitor("C19")
    r = rng("solutions", task)
    with quiet():
        from nrpy.equations.wave_equation.WaveEquation_Solutions_InitialData import WaveEquation_solution_Cartesian
        sols = {k: WaveEquation_solution_Cartesian(WaveType=k) for k in ("PlaneWave", "SphericalGaussian")}
    for it in range(6):
        u = lambda a, b: mp.mpf(r.uniform(a, b))
        env = dict(time=u(-1, 3), wavespeed=u(.3, 2), sigma=u(.3, 3), kk0=u(-2, 2), kk1=u(-2, 2), kk2=u(-2, 2), xCart0=u(-3, 3), xCart1=u(-3, 3), xCart2=u(-3, 3))
        je = dict(env)
        for k, n in enumerate(("time", "xCart0", "xCart1", "xCart2")):
            g = [mp.mpf(0)] * 4
            g[k] = mp.mpf(1)
            je[n] = J(env[n], g, [[mp.mpf(0)] * 4 for _ in RN])
        c2 = env["wavespeed"] ** 2
        for k, s in sols.items():
            ev = JetEval(lambda n: je[n])
            U, V = ev(s.uu_exactsoln), ev(s.vv_exactsoln)
            box = U.h[0][0] - c2 * sum(U.h[i][i] for i in (1, 2, 3))
            expect(m, f"{k} satisfies the wave equation", [box, V.v], [mp.mpf(0), U.g[0]], scale=max(mp.mpf(1), abs(U.h[0][0])))
            m.count("solution points")
        # behaviour: plane wave of unit wavenumber along k; values bounded away from zero
        s = sols["PlaneWave"]
        kn = mp.sqrt(sum(env[f"kk{i}"] ** 2 for i in R3))
        arg = sum(env[f"kk{i}"] * env[f"xCart{i}"] for i in R3) / kn - env["wavespeed"] * env["time"]
        expect(m, "plane wave", DagEval(lambda n: env[n])(s.uu_exactsoln), mp.sin(arg) + 2)
        # centre: the r=0 expressions are the limit of the solution
        s = sols["SphericalGaussian"]
        z = dict(env, xCart0=mp.mpf(0), xCart1=mp.mpf(0), xCart2=mp.mpf(0))
        near = dict(env, xCart0=mp.mpf(10) ** -12, xCart1=mp.mpf(10) ** -12, xCart2=mp.mpf(0))
        with mp.workdps(80):
            got = [DagEval(lambda n: z[n])(x) for x in (s.uu_exactsoln_r0, s.vv_exactsoln_r0)]
            lim = [DagEval(lambda n: near[n])(x) for x in (s.uu_exactsoln, s.vv_exactsoln)]
        expect(m, "spherical Gaussian at the centre", got, lim, tol=mp.mpf(10) ** -18 * 1000)
        m.observe(f"solutions:{it}", n=0)
    return m.part()


def punctures(task):
    cs, seed = task
    m = Monitor("C19")
    r = rng("punct", cs, seed)
    with quiet():
        import nrpy.equations.nrpyelliptic.ConformallyFlat_SourceTerms as ST
        psi, A2 = ST.compute_psi_background_and_ADD_times_AUU(cs)
    for mode in ("spin", "boost", "both"):
        q, p = rand_point(cs, r)
        x = geometry(cs, q, p)["xx_to_Cart"]
        u = lambda a=1.0: mp.mpf(r.uniform(-a, a))
        env = dict(p)
        env.update({f"xx{i}": q[i] for i in R3})
        P, Sp = [[u() for _ in R3] for _ in range(2)], [[u() for _ in R3] for _ in range(2)]
        if mode == "spin":
            P = [[mp.mpf(0)] * 3] * 2
        if mode == "boost":
            Sp = [[mp.mpf(0)] * 3] * 2
        mass = [mp.mpf(r.uniform(.2, 2)) for _ in range(2)]
        z = mp.mpf(r.uniform(.3, 3))
        for b in range(2):
            env[f"bare_mass_{b}"] = mass[b]
            for k, n in enumerate("xyz"):
                env[f"P{b}_{n}"], env[f"S{b}_{n}"] = P[b][k], Sp[b][k]
        env["zPunc"] = z
        A = [[mp.mpf(0)] * 3 for _ in R3]
        bad = [[mp.mpf(0)] * 3 for _ in R3]
        ps = mp.mpf(1)
        for b, zz in ((0, z), (1, -z)):
            y = [x[0], x[1], x[2] - zz]
            d = mp.sqrt(sum(t * t for t in y))
            n = [t / d for t in y]
            ps += mass[b] / (2 * d)
            Pn = sum(P[b][i] * n[i] for i in R3)
            Sxn = [Sp[b][(i + 1) % 3] * n[(i + 2) % 3] - Sp[b][(i + 2) % 3] * n[(i + 1) % 3] for i in R3]
            for i in R3:
                for j in R3:
                    by = mp.mpf(3) / (2 * d * d) * (P[b][i] * n[j] + P[b][j] * n[i] - ((1 if i == j else 0) - n[i] * n[j]) * Pn) + 3 / d**3 * (Sxn[i] * n[j] + Sxn[j] * n[i])
                    # recorded wrong placement of the trace, div V = 3 P.n/(2 r^2)
                    A[i][j] += by
                    divV = 3 * Pn / (2 * d**2)
                    bad[i][j] += by + mp.mpf(2) / 3 * divV * ((1 if i == j else 0) - (0 if i == j else 1))
        sq = lambda T: sum(T[i][j] ** 2 for i in R3 for j in R3)
        ev = DagEval(lambda k: env[k])
        try:
            gp, ga = ev(psi), ev(A2)
        except KeyError as e:
            m.violation("puncture-unknown-symbol", f"{cs}: puncture source terms depend on unknown symbol {e}")
            break
        expect(m, "puncture conformal factor", gp, ps, cs)
        m.observe(f"punct:{cs}:{mode}")
        m.count("puncture data")
        if not abs(ga - sq(A)) <= TOL * max(1, sq(A)):
            if abs(ga - sq(bad)) <= TOL * max(1, sq(bad)):
                m.violation("Bowen-York-trace-off-diagonal", f"ADD_conf_cartesian subtracts the trace of the Bowen-York tensor off the diagonal instead of on it (inverted kronecker_delta): A_ij A^ij = {mp.nstr(ga, 8)} instead of {mp.nstr(sq(A), 8)} for moving punctures")
            else:
                m.violation("Bowen-York-AA", f"{cs} {mode}: A_ij A^ij = {mp.nstr(ga, 12)}, Bowen-York data have {mp.nstr(sq(A), 12)}")
    return m.part()


def horizon(task):
    pre, seed = task
    m = Monitor("C19")
    r = rng("horizon", pre, seed)
    with quiet():
        from nrpy.equations.general_relativity.bhahaha.ExpansionFunctionTheta import ExpansionFunctionTheta
        E = ExpansionFunctionTheta["Spherical" + ("_rfm_precompute" if pre else "")]
    for it in range(3):
        P = Point("Spherical", r, "W")
        P.cfname = "W"
        u = lambda a=1.0: mp.mpf(r.uniform(-a, a))
        # surface r = h(theta, phi) through the point
        hg = [mp.mpf(0), mp.mpf(0), u(), u()]
        hh = [[mp.mpf(0)] * 4 for _ in RN]
        for a in (2, 3):
            for b in range(a, 4):
                hh[a][b] = hh[b][a] = u()
        Fg = [mp.mpf(0), mp.mpf(1), -hg[2], -hg[3]]
        F = J(mp.mpf(0), Fg, [[-x for x in row] for row in hh])
        st = P.st
        Fi = [F.d(S[i]) for i in R3]
        lam = jsum(st.gamU[i][j] * Fi[i] * Fi[j] for i in R3 for j in R3).pow(-0.5)
        s = [jsum(st.gamU[i][j] * Fi[j] for j in R3) * lam for i in R3]
        trG = [jsum(P.G3[i][i][j] for i in R3) for j in R3]
        div = sum(s[i].d(S[i]).v + trG[i].v * s[i].v for i in R3)
        want = div - P.trK.v + sum(s[i].v * s[j].v * st.K[i][j].v for i in R3 for j in R3)
        W = P.cf
        P.extra.update(hh=P.q[0], WW=W.v)
        for i in R3:
            P.extra[f"partial_D_WW{i}"] = W.d(S[i]).v
            P.extra[f"hh_dD{i}"] = hg[i + 1]
            for j in R3:
                P.extra[f"hh_dDD{i}{j}"] = hh[i + 1][j + 1]
                for k in R3:
                    P.extra[f"partial_D_hDD{k}{i}{j}"] = P.hDD[i][j].d(S[k]).v
        C = Checker(m, "Spherical", pre, [P])
        C.compare("expansion Theta", E.Theta, lambda P: want)
        C.compare("horizon normal", list(E.sU), lambda P: [x.v for x in s])
        C.compare("horizon metric", [E.gammaDD, E.gammaUU, E.detgamma, E.KDD], lambda P: [st.gam, st.gamU, st.det, st.K])
        m.count("horizon points")
    return m.part()


def run(t):
    return globals()[t[0]](t[1])


def main():
    m = Monitor("C19", "exploration", rule="distinct = (module, coordinate system/variant/conformal variable), Riemann problem class, boost, rotation, harmonic mode")
    r = rng("plan")
    sd = vlib.SEED
    CF = ("phi", "chi", "W")
    tasks = []
    combos = [(cs, pre) for cs in SYSTEMS for pre in (False, True)]
    for i, (cs, pre) in enumerate(combos):
        for cfc in (CF if not QUICK else [CF[(i + sd) % 3]]):
            if QUICK and "SymTP" in cs and pre:
                continue
            tasks.append(("grhd", (cs, pre, cfc, sd)))
        tasks.append(("waves", (cs, pre, sd)))
    for cs in SYSTEMS:
        tasks.append(("punctures", (cs, sd)))
    for k in range(2 if QUICK else 8):
        tasks.append(("hll", ((sd, k), 6 if QUICK else 30)))
    tasks.append(("minmax", sd))
    tasks.append(("boosts", (sd, 6 if QUICK else 40, 3 if QUICK else 10)))
    tasks.append(("rotations", (sd, 9 if QUICK else 60)))
    modes = [(s, l, mm) for l in range(0, 5 if QUICK else 9) for s in range(-l, l + 1) for mm in range(-l, l + 1) if abs(s) <= (3 if QUICK else 8)]
    modes += [(s, l, r.randint(-l, l)) for l in (6, 8) for s in (-2, -1, 0, 1, 2)]
    r.shuffle(modes)
    n = 8
    for k in range(n):
        tasks.append(("harmonics", (modes[k::n], (sd, k))))
    tasks.append(("harmonics_c", (4 if QUICK else 8, sd)))
    tasks.append(("tov", sd))
    tasks.append(("solutions", sd))
    for pre in (False, True):
        tasks.append(("horizon", (pre, sd)))
    slow = lambda t: (t[0] == "grhd") * (2 if "SymTP" in str(t[1]) else 1) + (t[0] == "harmonics_c") * 3 + (t[0] == "boosts") * 2
    tasks.sort(key=lambda t: -slow(t))
    for i, st, pl in run_isolated(run, tasks, timeout=800):
        if st == "ok":
            m.merge(pl)
        elif st == "exc":
            m.violation(f"raises:{tasks[i][0]}", f"{tasks[i]}: {pl[0]} {pl[1]}", pl[2])
        else:
            raise vlib.HarnessError(f"{tasks[i]} {st}: {pl}")
    for k, v in (("components", 2000), ("balance laws", 60), ("Riemann problems", 20), ("harmonics", 100), ("C harmonics", 20), ("boosts", 5), ("rotations", 5), ("puncture data", 30), ("wave operators", 30), ("solution points", 10), ("horizon points", 6)):
        m.require(k, v)
    m.finish()


vlib.main(main)
