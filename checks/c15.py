"""C15: the relativity expressions are Einstein's equations: checked on arbitrary spacetimes whose stress-energy is their Einstein tensor."""
import re
import mpmath as mp
import sympy as sp
import vlib
from vlib import Monitor, run_isolated, rng, QUICK, quiet
from geom import SYSTEMS, R3, geometry, flat, rand_point
import jets
from dageval import DagEval, JetEval
from stpoint import Point, Checker, S, HALF, dt, proj
from jets import J, jsum, inv, christoffel, ricci, Spacetime, random_metric, make_vacuum, RN
import nrpy.params as par
import nrpy.indexedexp as ixp
import nrpy.reference_metric as refmetric
import nrpy.equations.general_relativity.BSSN_quantities  # registers EvolvedConformalFactor_cf

LAPSES = ["OnePlusLog", "HarmonicSlicing", "Frozen", "OnePlusLogAlt"]
SHIFTS = ["GammaDriving2ndOrder_NoCovariant", "GammaDriving2ndOrder_Covariant", "GammaDriving2ndOrder_Covariant__Hatted", "GammaDriving1stOrder_Covariant",
          "GammaDriving1stOrder_Covariant__Hatted", "NonAdvectingGammaDriving", "Frozen"]


def bssn(task):
    cs, pre, cfc, rbar, seed, npts, gauges = task
    m = Monitor("C15")
    par.set_parval_from_str("EvolvedConformalFactor_cf", cfc)
    with quiet():
        from nrpy.equations.general_relativity.BSSN_quantities import BSSN_quantities
        from nrpy.equations.general_relativity.BSSN_RHSs import BSSN_RHSs
        from nrpy.equations.general_relativity.BSSN_constraints import BSSN_constraints
        from nrpy.equations.general_relativity.BSSN_gauge_RHSs import BSSN_gauge_RHSs
        from nrpy.equations.general_relativity.BSSN_to_ADM import BSSN_to_ADM
        from nrpy.equations.general_relativity.ADM_to_BSSN import ADM_to_BSSN
        import nrpy.equations.general_relativity.T4munu as T4
        import nrpy.equations.general_relativity.g4munu_conversions as g4
    r = rng("bssn", cs, pre, cfc, seed)
    pts = []
    for _ in range(npts):
        P = Point(cs, r, cfc)
        P.cfname = cfc
        pts.append(P)
    C = Checker(m, cs, pre, pts)
    tag = C.key + ("_RbarDD_gridfunctions" if rbar else "")
    with quiet():
        Bq = BSSN_quantities[tag]
        rhs = BSSN_RHSs[tag + "_T4munu"]
        con = BSSN_constraints[tag + "_T4munu"]
        BtoA = BSSN_to_ADM(CoordSystem=cs, enable_rfm_precompute=pre)
    sp3 = lambda P, x: x.v
    # ---- state
    C.compare("gammabarDD", Bq.gammabarDD, lambda P: P.gbar)
    C.compare("gammabarUU", Bq.gammabarUU, lambda P: P.gbarU)
    C.compare("detgammabar", [Bq.detgammabar, Bq.detgammabar_dD, Bq.detgammabar_dDD],
              lambda P: [P.detbar, [P.detbar.d(S[i]) for i in R3], [[P.detbar.d(S[i]).d(S[j]) for j in R3] for i in R3]])
    C.compare("GammabarUDD", Bq.GammabarUDD, lambda P: P.Gbar)
    C.compare("AbarUU", Bq.AbarUU, lambda P: [[jsum(P.gbarU[i][k] * P.gbarU[j][l] * P.Abar[k][l] for k in R3 for l in R3) for j in R3] for i in R3])
    C.compare("trAbar", Bq.trAbar, lambda P: mp.mpf(0))
    C.compare("RbarDD", Bq.RbarDD, lambda P: P.Rbar)
    C.compare("DGammaU", Bq.DGammaU, lambda P: P.Lam)
    C.compare("phi", [Bq.exp_m4phi, Bq.phi_dD, Bq.phi_dDD, Bq.phi_dBarDD],
              lambda P: [P.em4, [P.phi.d(S[i]) for i in R3], [[P.phi.d(S[i]).d(S[j]) for j in R3] for i in R3],
                         [[P.phi.d(S[i]).d(S[j]) - jsum(P.Gbar[k][i][j] * P.phi.d(S[k]) for k in R3) for j in R3] for i in R3]])
    C.compare("betaU", [Bq.betaU, Bq.betaU_dD, Bq.betaU_dDD],
              lambda P: [P.st.betaU, [[P.st.betaU[i].d(S[j]) for j in R3] for i in R3], [[[P.st.betaU[i].d(S[j]).d(S[k]) for k in R3] for j in R3] for i in R3]])
    # ---- evolution equations
    C.compare("h_rhsDD", rhs.h_rhsDD, lambda P: [[dt(P.hDD[i][j]) for j in R3] for i in R3])
    C.compare("cf_rhs", rhs.cf_rhs, lambda P: dt(P.cf))
    C.compare("trK_rhs", rhs.trK_rhs, lambda P: dt(P.trK))
    C.compare("a_rhsDD", rhs.a_rhsDD, lambda P: [[dt(P.aDD[i][j]) for j in R3] for i in R3])
    C.compare("lambda_rhsU", rhs.lambda_rhsU, lambda P: [dt(P.lam[i]) for i in R3])
    d = rhs.BSSN_RHSs_varname_to_expr_dict
    names = sorted(d)
    C.compare("rhs dictionary", [d[k] for k in names], lambda P: [dict_value(P, k) for k in names])
    if names != sorted(["cf_rhs", "trK_rhs"] + [f"lambda_rhsU{i}" for i in R3] + [f"{v}_rhsDD{i}{j}" for v in "ah" for i in R3 for j in range(i, 3)]):
        m.violation("rhs-dictionary-names", f"RHS dictionary lists {names}")
    # ---- constraints: on-shell they vanish, off-shell they measure the mismatch
    for P in pts:
        P.Tother = [[None] * 4 for _ in RN]
        for a in RN:
            for b in range(a, 4):
                P.Tother[a][b] = P.Tother[b][a] = P.T[a][b] + mp.mpf(r.uniform(-1, 1)) * (1 / (P.h[a - 1].v if a else 1)) / (P.h[b - 1].v if b else 1)
    hs = lambda P: max([abs(8 * mp.pi * x) for x in proj(P, P.T)[1]] + [abs(proj(P, P.T)[0]) * 50, abs(P.trK.v) ** 2, 1 / min(x.v for x in P.h) ** 2, mp.mpf(1)])
    C.compare("H", con.H, lambda P: mp.mpf(0), scale=hs)
    C.compare("mU", con.mU, lambda P: [mp.mpf(0)] * 3, scale=hs)

    def offshell(P):
        rho, SD, _, _ = proj(P, P.Tother)
        rho0, SD0, _, _ = proj(P, P.TG)
        SU = [sum(P.st.gamU[i][j].v * (SD0[j] - SD[j]) for j in R3) for i in R3]
        M = [8 * mp.pi * x for x in SU]
        M2 = sum(P.gbar[i][j].v * M[i] * M[j] for i in R3 for j in R3)
        return [16 * mp.pi * (rho0 - rho), M, [M[i] * P.h[i].v for i in R3], M2]
    for P in pts:
        P.TG, P.T = P.T, P.Tother
    C.compare("constraints off shell", [con.H, con.MU, con.mU, con.Msquared], offshell, scale=lambda P: hs(P) ** 2)
    with quiet():
        con0 = BSSN_constraints[tag]
    for P in pts:
        P.T = [[mp.mpf(0)] * 4 for _ in RN]

    def vac(P):
        rho0, SD0, _, _ = proj(P, P.TG)
        return [16 * mp.pi * rho0, [8 * mp.pi * sum(P.st.gamU[i][j].v * SD0[j] for j in R3) for i in R3]]
    C.compare("vacuum constraints", [con0.H, con0.MU], vac, scale=hs)
    # without stress-energy terms: what the equations with them give for T = 0
    with quiet():
        rhs0 = BSSN_RHSs[tag]
    both = [[getattr(x, k) for k in ("h_rhsDD", "cf_rhs", "trK_rhs", "a_rhsDD", "lambda_rhsU", "Lambdabar_rhsU")] for x in (rhs0, rhs)]
    tv = C.eval([e for _, e in flat(both[1])])
    ref = {id(P): v for P, v in zip(pts, tv)}
    C.compare("RHS without T4munu", [e for _, e in flat(both[0])], lambda P: ref[id(P)])
    for P in pts:
        P.T = P.TG
    # ---- stress-energy projections
    with quiet():
        SDD, SD, St, rho = T4.T4UU_and_BSSN_to_SDD_SD_S_rho(cs, pre)
        aSDD, aSD, aS, arho = T4.T4UU_and_ADM_to_SDD_SD_S_rho()
    want = lambda P: (lambda x: [x[2], x[1], x[3], x[0]])(proj(P, P.T))
    C.compare("T4UU projections (BSSN)", [SDD, SD, St, rho], want)
    C.compare("T4UU projections (ADM)", [aSDD, aSD, aS, arho], want)
    # ---- conversions
    C.compare("BSSN_to_ADM", [BtoA.gammaDD, BtoA.gammaUU, BtoA.detgamma, BtoA.KDD, BtoA.betaU, BtoA.GammaUDD],
              lambda P: [P.st.gam, P.st.gamU, P.st.det, P.st.K, P.st.betaU, P.G3])
    C.compare("BSSN_to_ADM derivatives", [BtoA.gammaDDdD, BtoA.gammaDDdDD, BtoA.KDDdD],
              lambda P: [[[[P.st.gam[i][j].d(S[k]) for k in R3] for j in R3] for i in R3],
                         [[[[P.st.gam[i][j].d(S[k]).d(S[l]) for l in R3] for k in R3] for j in R3] for i in R3],
                         [[[P.st.K[i][j].d(S[k]) for k in R3] for j in R3] for i in R3]])
    for sub in (False, True):
        with quiet():
            if sub:
                args = [ixp.declarerank2("gammaDD", symmetry="sym01"), ixp.declarerank2("KDD", symmetry="sym01"), ixp.declarerank1("betaU"), ixp.declarerank1("BU")]
            else:
                args = [None] * 4
            AB = ADM_to_BSSN(*args, CoordSystem=cs, enable_rfm_precompute=pre)
            cfonly = ADM_to_BSSN(*args, CoordSystem=cs, enable_rfm_precompute=pre, compute_cf_only=True)
        C.compare("ADM_to_BSSN", [AB.gammabarDD, AB.hDD, AB.cf, AB.trK, AB.AbarDD, AB.aDD, AB.vetU, AB.betU, cfonly.cf],
                  lambda P: [P.gbar, P.hDD, P.cf, P.trK, P.Abar, P.aDD, P.vet, P.bet, P.cf])
    gD, gU = ixp.declarerank2("gammaDD", symmetry="sym01"), ixp.declarerank1("betaU")
    al = sp.Symbol("alpha", real=True)
    with quiet():
        four = [g4.ADM_to_g4DD(gD, gU, al), g4.BSSN_to_g4DD(cs, pre), g4.ADM_to_g4UU(gD, gU, al), g4.BSSN_to_g4UU(cs, pre),
                g4.ADM_to_g4UU(gD, gU, al, BtoA.gammaUU)]
    C.compare("four-metric", four, lambda P: [P.st.g, P.st.g, P.st.gi, P.st.gi, P.st.gi])
    # four-metric -> ADM/BSSN
    for P in pts:
        P.extra.update({f"g4DD{a}{b}": P.st.g[a][b].v for a in RN for b in RN})
    g4s = ixp.declarerank2("g4DD", symmetry="sym01", dimension=4)
    for given in (None, g4s):
        with quiet():
            a = g4.g4DD_to_ADM(given)
            b = g4.g4DD_to_BSSN(given, cs, pre)
        C.compare("g4DD_to_ADM metric", a[0], lambda P: P.st.gam)
        C.compare("g4DD_to_BSSN metric", [b[0], b[1]], lambda P: [P.hDD, P.cf])
        probe(C, "g4DD_to_ADM-shift-index", [a[1], a[2], b[2], b[3]], lambda P: [P.st.alpha, P.st.betaU, P.vet, P.st.alpha], shifted,
              "g4DD_to_ADM takes beta_i from g_{0 i} instead of g_{0 i+1}: wrong lapse and shift")
    # ---- gauge
    def cov(P, vec, conn, upto):
        """beta^j D_j vec^i"""
        return [jsum(P.st.betaU[j] * vec[i].d(S[j]) for j in R3).v + (sum(P.st.betaU[j].v * conn[i][k][j].v * vec[k].v for j in R3 for k in R3) if conn else 0) for i in R3]
    for lapse, shift in gauges:
        if lapse == "HarmonicSlicing" and cfc == "chi":
            continue
        with quiet():
            ar, vr, br = BSSN_gauge_RHSs(cs, pre, True, lapse, shift)

        def wl(P):
            adv = sum(P.st.betaU[i].v * P.st.alpha.d(S[i]).v for i in R3)
            a, K = P.st.alpha.v, P.trK.v
            return {"OnePlusLog": adv - 2 * a * K, "OnePlusLogAlt": adv - a * (1 - a) * K, "Frozen": mp.mpf(0),
                    "HarmonicSlicing": 6 * mp.exp(6 * P.phi.v) * dt(P.phi)}[lapse]

        def ws(P):
            z = [mp.mpf(0)] * 3
            conn = None if "NoCov" in shift else (P.Ghat if "Hatted" in shift else P.Gbar)
            if shift == "Frozen":
                b, B = z, z
            elif "1stOrder" in shift:
                c = cov(P, P.st.betaU, conn, 0)
                b, B = [c[i] + mp.mpf(3) / 4 * P.Lam[i].v - P.eta * P.st.betaU[i].v for i in R3], z
            elif shift == "NonAdvectingGammaDriving":
                b, B = [P.BU[i].v for i in R3], [mp.mpf(3) / 4 * dt(P.Lam[i]) - P.eta * P.BU[i].v for i in R3]
            else:
                c, cB, cL = cov(P, P.st.betaU, conn, 0), cov(P, P.BU, conn, 0), cov(P, P.Lam, conn, 0)
                b = [c[i] + P.BU[i].v for i in R3]
                B = [cB[i] + mp.mpf(3) / 4 * (dt(P.Lam[i]) - cL[i]) - P.eta * P.BU[i].v for i in R3]
            return [[b[i] * P.h[i].v for i in R3], [B[i] * P.h[i].v for i in R3]]
        C.compare(f"lapse {lapse}", ar, wl)
        C.compare(f"shift {shift}", [vr, br], ws)
        m.count("gauge conditions")
    # asking for a frozen shift must not change what is generated afterwards
    probe(C, "frozen-shift-zeroes-BU", list(Bq.BU), lambda P: P.BU, lambda P: [mp.mpf(0)] * 3, "BSSN_gauge_RHSs(ShiftEvolutionOption='Frozen') sets the shared BSSN_quantities' B^i to zero for every later user")
    m.count("spacetimes", len(pts))
    return m.part()


def dict_value(P, k):
    x = re.fullmatch(r"(cf|trK|lambda|a|h)_rhs(?:U|DD)?(\d*)", k)
    t = {"cf": P.cf, "trK": P.trK, "lambda": P.lam, "a": P.aDD, "h": P.hDD}[x[1]]
    for c in x[2]:
        t = t[int(c)]
    return dt(t)


def probe(C, mech, exprs, want, wrong, msg):
    """A finding that is recorded: exactly the recorded wrong values give the recorded mechanism, anything else a violation of its own."""
    sub = Monitor("C15")
    Checker(sub, C.cs, C.pre, C.pts).compare(mech, exprs, want)
    C.m.observe(n=sub.evaluations)
    if sub.violations:
        sub2 = Monitor("C15")
        Checker(sub2, C.cs, C.pre, C.pts).compare(mech + " differs", exprs, wrong)
        if sub2.violations:
            C.m.violation(f"{mech}-differently", sub.violations[0][1])
        else:
            C.m.violation(mech, f"{msg} [{sub.violations[0][1]}]")


def shifted(P):
    """lapse and shift if beta_i were g_{0i} instead of g_{0,i+1}"""
    lo = [P.st.g[0][i].v for i in R3]
    bU = [sum(P.st.gamU[i][j].v * lo[j] for j in R3) for i in R3]
    al = mp.sqrt(sum(bU[i] * lo[i] for i in R3) - P.st.g[0][0].v)
    return [al, bU, [bU[i] * P.h[i].v for i in R3], al]


def psi4(task):
    cs, pre, seed = task
    m = Monitor("C15")
    r = rng("psi4", cs, pre, seed)
    with quiet():
        from nrpy.equations.general_relativity.psi4 import Psi4
        from nrpy.equations.general_relativity.psi4_tetrads import Psi4Tetrads
    cfc = "W"
    pts = []
    for _ in range(2):
        P = Point(cs, r, cfc, vacuum=True)
        P.cfname = cfc
        for v in ("mre4U", "mim4U", "n4U"):
            P.extra.update({f"{v}{a}": mp.mpf(r.uniform(-1, 1)) / (P.h[a - 1].v if a else 1) for a in RN})
        pts.append(P)
    C = Checker(m, cs, pre, pts)
    with quiet():
        ps = Psi4(CoordSystem=cs, enable_rfm_precompute=pre, tetrad="leave_symbolic")
        tet = Psi4Tetrads(CoordSystem=cs, enable_rfm_precompute=pre)
    # the tetrad is null and normalised, and its radial leg points away from the origin
    def legs(vals):
        return vals[0:4], vals[4:8], vals[8:12], vals[12:16]
    got = C.eval([x for v in (tet.l4U, tet.n4U, tet.mre4U, tet.mim4U) for x in v])
    for P, v in zip(pts, got):
        l, n, a, b = legs(v)
        g = [[P.st.g[i][j].v for j in RN] for i in RN]
        dot = lambda x, y: sum(g[i][j] * x[i] * y[j] for i in RN for j in RN)
        tests = dict(ll=(dot(l, l), 0), nn=(dot(n, n), 0), ln=(dot(l, n), -1), lm=(dot(l, a), 0), lmi=(dot(l, b), 0), nm=(dot(n, a), 0), nmi=(dot(n, b), 0),
                     mm=(dot(a, a), HALF), mimi=(dot(b, b), HALF), mmi=(dot(a, b), 0))
        for k, (x, y) in tests.items():
            m.observe()
            if not abs(x - y) < mp.mpf(10) ** -15:
                m.violation(f"tetrad-{k}:{C.key}", f"{C.key}: tetrad product {k} = {mp.nstr(x, 12)} instead of {y}")
        Q = geometry(cs, P.q, P.p)
        x = Q["xx_to_Cart"]
        Jc = Q["Jac_dUCart_dDrfmUD"]
        cart = lambda v: [sum(Jc[i][j] * v[j + 1] for j in R3) for i in R3]
        ph, rr = cart(b), cart([l[k] - n[k] for k in RN])
        m.observe(n=2)
        if not (ph[0] * -x[1] + ph[1] * x[0] > 0 and abs(ph[2]) < 1e-15 * max(1, abs(ph[0]))):
            m.violation(f"tetrad-phi:{C.key}", f"{C.key}: the imaginary part of m does not point along d/dphi")
        if not sum(rr[i] * x[i] for i in R3) > 0:
            m.violation(f"tetrad-r:{C.key}", f"{C.key}: the radial leg does not point outwards")
        m.count("tetrads")
    # derivatives handed to psi4
    want = {}
    for P in pts:
        for i in R3:
            for j in R3:
                for k in R3:
                    P.extra[f"GammaUDD{i}{j}{k}"] = P.G3[i][j][k].v
                    P.extra[f"KDDdD{i}{j}{k}"] = P.st.K[i][j].d(S[k]).v
                    for l in R3:
                        P.extra[f"gammaDDdDD{i}{j}{k}{l}"] = P.st.gam[i][j].d(S[k]).d(S[l]).v
    C.compare("psi4 metric derivatives", list(ps.metric_derivs_expr_list), lambda P: [P.extra[n] for n in ps.metric_derivs_varname_list])

    def weyl(P):
        R = P.st.riem_low()
        n = [P.extra[f"n4U{a}"] for a in RN]
        mb = [mp.mpc(P.extra[f"mre4U{a}"], -P.extra[f"mim4U{a}"]) for a in RN]
        z = sum(R[a][b][c][d] * n[a] * mb[b] * n[c] * mb[d] for a in RN for b in RN for c in RN for d in RN)
        return [z.real, z.imag]
    C.compare("psi4", [ps.psi4_re, ps.psi4_im], weyl)
    m.count("psi4 points", len(pts))
    return m.part()


def initial_data(task):
    kind, cfc, seed = task
    m = Monitor("C15")
    r = rng("id", kind, cfc, seed)
    par.set_parval_from_str("EvolvedConformalFactor_cf", cfc)
    with quiet():
        from nrpy.equations.general_relativity.InitialData_Spherical import InitialData_Spherical
        from nrpy.equations.general_relativity.InitialData_Cartesian import InitialData_Cartesian
        cart = kind == "BrillLindquist"
        data = {o: (InitialData_Cartesian if cart else InitialData_Spherical)(kind, override_gauge_with_standard=o) for o in (False, True)}
    ID = data[False]
    fields = [sp.sympify(f) for f in [e for _, e in flat(ID.gammaDD)] + [e for _, e in flat(ID.KDD)] + [ID.alpha] + list(ID.betaU) + list(ID.BU)]
    alts = [sp.sympify(e) for e in [data[True].alpha] + list(data[True].betaU) + list(data[True].BU)]
    syms = sorted({str(s) for e in fields + alts for s in e.free_symbols})
    for pt in range(3):
        u = lambda a, b: mp.mpf(r.uniform(a, b))
        env = dict(M=u(.5, 2), chi=u(-.99, .99), a=0, r0=u(.2, 2), BH1_mass=u(.2, 2), BH2_mass=u(.2, 2),
                   BH1_posn_x=u(-2, 2), BH1_posn_y=u(-2, 2), BH1_posn_z=u(-2, 2), BH2_posn_x=u(-2, 2), BH2_posn_y=u(-2, 2), BH2_posn_z=u(-2, 2))
        env["a"] = env["M"] * u(-.95, .95)
        env.update(dict(x=u(-3, 3), y=u(-3, 3), z=u(-3, 3), r=u(.3, 4), th=u(.2, 2.9), ph=u(-3, 3)))
        X = ["x", "y", "z"] if cart else ["r", "th", "ph"]
        je = dict(env)
        for i, x in enumerate(X):
            g = [mp.mpf(0)] * 4
            g[S[i]] = mp.mpf(1)
            je[x] = je[f"xx{i}"] = J(env[x], g, [[mp.mpf(0)] * 4 for _ in RN])
        unknown = [s for s in syms if s not in je]
        if unknown:
            m.violation(f"initial-data-symbols:{kind}", f"{kind} depends on unknown symbols {unknown}")
            break
        ev = JetEval(lambda n: je[n])
        jj = lambda v: v if isinstance(v, J) else J.const(v)
        jf = [jj(ev(f)) for f in fields]
        alt = [jj(ev(f)).v for f in alts]
        gam = [jf[3 * i: 3 * i + 3] for i in R3]
        K = [jf[9 + 3 * i: 12 + 3 * i] for i in R3]
        alpha, beta = jf[18], jf[19:22]
        gi, det = inv(gam)
        G = christoffel(gam, gi, S)
        R = ricci(G, S)
        Rs = sum(gi[i][j].v * R[i][j] for i in R3 for j in R3)
        KU = [[jsum(gi[i][a] * gi[j][b] * K[a][b] for a in R3 for b in R3) for j in R3] for i in R3]
        tr = jsum(gi[i][j] * K[i][j] for i in R3 for j in R3)
        H = Rs + tr.v**2 - sum(K[i][j].v * KU[i][j].v for i in R3 for j in R3)
        Mo = []
        for i in R3:
            E = [[KU[a][b] - gi[a][b] * tr for b in R3] for a in R3]
            Mo.append(sum(E[i][j].d(S[j]).v + sum(G[i][j][k].v * E[k][j].v + G[j][j][k].v * E[i][k].v for k in R3) for j in R3))
        scale = max(1, max(abs(R[i][j]) * abs(gi[i][j].v) for i in R3 for j in R3))
        m.observe(f"{kind}:{cfc}:{pt}", n=4)
        m.count("initial data points")
        if not abs(H) < 1e-15 * scale * 100:
            m.violation(f"initial-data-H:{kind}", f"{kind}: Hamiltonian constraint {mp.nstr(H, 8)} at {({s: mp.nstr(env[s], 6) for s in syms if s in env})}")
        if not max(abs(Mo[i]) * mp.sqrt(abs(gam[i][i].v)) for i in R3) < 1e-15 * scale * 100:
            m.violation(f"initial-data-M:{kind}", f"{kind}: momentum constraint {[mp.nstr(x, 8) for x in Mo]}")
        for i in R3:
            for j in R3:
                if abs(gam[i][j].v - gam[j][i].v) + abs(K[i][j].v - K[j][i].v) > 1e-20:
                    m.violation(f"initial-data-symmetry:{kind}", f"{kind}: metric or curvature not symmetric")
        psi_m2 = (det.v / (1 if cart else (env["r"] ** 4 * mp.sin(env["th"]) ** 2))) ** (-mp.mpf(1) / 6)
        m.observe(n=8)
        if not abs(alt[0] - psi_m2) < 1e-15 or any(abs(x) > 0 for x in alt[1:]):
            m.violation(f"initial-data-gauge:{kind}:{cfc}", f"{kind} (cf={cfc}): standard gauge gives alpha={mp.nstr(alt[0], 12)}, beta/B={[mp.nstr(x, 3) for x in alt[1:]]}; expected 1/psi^2 = {mp.nstr(psi_m2, 12)} and 0")
        if kind in ("StaticTrumpet", "OffsetKerrSchild"):
            # the given gauge makes the data stationary: d_t gamma = -2 alpha K + L_beta gamma = 0
            for i in R3:
                for j in R3:
                    lie = sum(beta[k].v * gam[i][j].d(S[k]).v + gam[k][j].v * beta[k].d(S[i]).v + gam[i][k].v * beta[k].d(S[j]).v for k in R3)
                    m.observe()
                    if not abs(lie - 2 * alpha.v * K[i][j].v) < 1e-15 * max(1, abs(lie)):
                        m.violation(f"initial-data-stationary:{kind}", f"{kind}: d_t gamma_{i}{j} = {mp.nstr(lie - 2 * alpha.v * K[i][j].v, 8)} with the solution's own lapse and shift")
        elif not abs(alpha.v - psi_m2) < 1e-15 or any(abs(b.v) > 0 for b in beta):
            m.violation(f"initial-data-gauge:{kind}:{cfc}", f"{kind} (cf={cfc}): alpha = {mp.nstr(alpha.v, 12)}, not 1/psi^2 = {mp.nstr(psi_m2, 12)}")
    return m.part()


def run(t):
    return globals()[t[0]](t[1])


def main():
    m = Monitor("C15", "exploration", rule="distinct = (quantity, coordinate system and variant, conformal variable), (initial data, conformal variable, point)")
    r = rng("plan")
    tasks = []
    npts = 1 if QUICK else 3
    # every system and variant; the conformal variable rotates with the seed, all three in the thorough tier
    CF = ("phi", "chi", "W")
    combos = [(c, p, CF[(i + 2 * p + vlib.SEED) % 3]) for i, c in enumerate(SYSTEMS) for p in (False, True)]
    if not QUICK:
        combos = [(c, p, f) for c in SYSTEMS for p in (False, True) for f in CF]
    for k, (cs, pre, cfc) in enumerate(combos):
        g = [(l, s) for l in LAPSES for s in SHIFTS]
        if QUICK and cs not in ("SinhSpherical", "SinhCartesian"):  # every lapse and every shift at least once per system
            ls = LAPSES * 2
            r.shuffle(ls)
            g = [(l, s) for l, s in zip(ls, SHIFTS)]
        g.sort(key=lambda x: x[1] == "Frozen")
        tasks.append(("bssn", (cs, pre, cfc, (k // 3) % 2 == 1, vlib.SEED, npts, g)))
    pc = [("Spherical", False), ("SinhSpherical", True), ("Cylindrical", False), ("SinhCartesian", False), ("SymTP", False)]
    for cs, pre in pc:
        tasks.append(("psi4", (cs, pre, vlib.SEED)))
    for kind in ("UIUCBlackHole", "StaticTrumpet", "OffsetKerrSchild", "BrillLindquist"):
        for cfc in ("W", "chi", "phi"):
            tasks.append(("initial_data", (kind, cfc, vlib.SEED)))
    for i, st, pl in run_isolated(run, tasks, timeout=800):
        if st == "ok":
            m.merge(pl)
        elif st == "exc":
            m.violation(f"raises:{tasks[i][0]}:{tasks[i][1][0]}", f"{tasks[i]}: {pl[0]} {pl[1]}", pl[2])
        else:
            raise vlib.HarnessError(f"{tasks[i]} {st}")
    m.require("spacetimes", 6)
    m.require("gauge conditions", 30)
    m.require("psi4 points", 4)
    m.require("initial data points", 30)
    m.finish()


vlib.main(main)
