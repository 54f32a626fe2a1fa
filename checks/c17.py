"""C17: the generated BSSN kernels compute the BSSN expressions of the grid's fields.

Ricci_eval, rhs_eval, constraints_eval, enforce_detgammabar..., psi4 and the CAHD prefactor are generated
for random option combinations (coordinates, order, SIMD, precomputation, stored Ricci tensor, matter,
gauges, dissipation, damping, slow-start lapse, conformal factor), built with ASan+UBSan and run on random
smooth fields.  At sampled grid points every output is compared with the plain symbolic expression (judged
against spacetime geometry by C15) evaluated to 30 digits on finite differences computed here with exact
Lagrange weights, plus the documented dissipation, damping and slow-start terms.
"""
import math
import struct
import time
import mpmath as mp
import sympy as sp
import bhah
import coords as co
import gridproj as G
import vlib
from dageval import DagEval
from fdsten import stencil
from vlib import Monitor, QUICK, quiet, rng, run_isolated, scratch
import nrpy.grid as gri
import nrpy.params as par

FLAGS = bhah.SAN.replace("-g ", "")
EVOL = ["aDD00", "aDD01", "aDD02", "aDD11", "aDD12", "aDD22", "alpha", "betU0", "betU1", "betU2", "cf", "hDD00", "hDD01", "hDD02", "hDD11", "hDD12", "hDD22",
        "lambdaU0", "lambdaU1", "lambdaU2", "trK", "vetU0", "vetU1", "vetU2"]
DRIVER = r"""
  if(argc>2) {
    params_struct *restrict params=&griddata[0].params;
    const size_t n=(size_t)params->Nxx_plus_2NGHOSTS0*params->Nxx_plus_2NGHOSTS1*params->Nxx_plus_2NGHOSTS2;
    REAL *in=(REAL*)malloc(sizeof(REAL)*n*NUM_EVOL_GFS), *rhs=(REAL*)malloc(sizeof(REAL)*n*NUM_EVOL_GFS);
    REAL *aux=(REAL*)malloc(sizeof(REAL)*n*(NUM_AUXEVOL_GFS+0)+8), *diag=(REAL*)malloc(sizeof(REAL)*n*NUM_EVOL_GFS);
    FILE *f=fopen("in.bin","rb");
    if(fread(in,sizeof(REAL),n*NUM_EVOL_GFS,f)!=n*NUM_EVOL_GFS) return 3;
    if(fread(aux,sizeof(REAL),n*NUM_AUXEVOL_GFS,f)!=n*NUM_AUXEVOL_GFS) return 3;
    fclose(f);
    for(size_t i=0;i<n*NUM_EVOL_GFS;i++) rhs[i]=diag[i]=1.2345e300;
    @CALLS@
    f=fopen("out.bin","wb");
    fwrite(rhs,sizeof(REAL),n*NUM_EVOL_GFS,f); fwrite(aux,sizeof(REAL),n*NUM_AUXEVOL_GFS,f); fwrite(diag,sizeof(REAL),n*NUM_EVOL_GFS,f);
    @ENFORCE@
    fwrite(in,sizeof(REAL),n*NUM_EVOL_GFS,f);
    fclose(f);
    free(in); free(rhs); free(aux); free(diag);
  }
"""
LAPSES = ["OnePlusLog", "HarmonicSlicing", "OnePlusLogAlt"]
SHIFTS = ["GammaDriving2ndOrder_Covariant", "GammaDriving2ndOrder_NoCovariant", "GammaDriving1stOrder_Covariant", "GammaDriving2ndOrder_Covariant__Hatted", "GammaDriving1stOrder_Covariant__Hatted", "NonAdvectingGammaDriving"]
FASTCS = ["Spherical", "SinhSpherical", "Cylindrical", "SinhCylindrical", "Cartesian", "SinhCartesian", "SinhSphericalv2n2", "HoleySinhSpherical"]
ALLCS = FASTCS + ["SinhSphericalv2n4", "SinhCylindricalv2n2", "SymTP", "SinhSymTP", "RingHoleySinhSpherical", "UWedgeHSinhSph", "LWedgeHSinhSph"]


def config(k, r):
    """quick tier: the kind of kernel cycles, stored Ricci tensor and precomputation wherever generation would be slow without"""
    kind = ["psi4", "rhs", "ricci", "con", "rhs", "con", "rhs", "ricci", "rhs"][k % 9] if QUICK else r.choice(["rhs", "rhs", "ricci", "con", "psi4"])
    cf = r.choice(["W", "W", "chi", "phi"])
    simd = r.random() < 0.5 and cf != "phi"  # exp() of a vector needs Intel's SVML, which gcc does not have
    cs = r.choice(ALLCS if not QUICK or kind == "con" else FASTCS)
    if kind == "psi4":
        simd = False
    cart = "Cartesian" in cs
    pre = True if simd or (QUICK and not cart) else r.random() < 0.6
    if kind == "psi4":
        pre = False
    rb = r.random() < (0.5 if not QUICK or cart else 1.1)
    lapse = r.choice(LAPSES if cf != "chi" else [x for x in LAPSES if x != "HarmonicSlicing"])  # refused for chi
    return dict(kind=kind, cs=cs, simd=simd, pre=pre, rbar=rb, t4=r.random() < 0.4, fdf=r.random() < 0.6, lapse=lapse, shift=r.choice(SHIFTS),
                ko=r.random() < 0.8, cako=r.random() < 0.5, cahd=r.random() < 0.4, ssl=r.random() < 0.5, cf=cf,
                fd=r.choice([2, 4, 4, 6]), collapse=r.choice([1, 2]), size=r.choice([3.0, 8.0]), eta=round(r.uniform(0.5, 3), 3))


def smooth(r, X, base, amp):
    """a smooth function of the grid coordinates, sampled: base + amp * trigonometric polynomial"""
    L = [X[d][-1] - X[d][0] for d in range(3)]
    terms = [(r.uniform(-1, 1), [r.uniform(-2.2, 2.2) / L[d] for d in range(3)], r.uniform(0, 6.28)) for _ in range(4)]
    out = []
    for z in X[2]:
        for y in X[1]:
            for x in X[0]:
                out.append(base + amp * sum(c * math.sin(k[0] * x + k[1] * y + k[2] * z + p) for c, k, p in terms))
    return out


def kernels(k):
    m = Monitor("C17")
    r = rng("kern", k)
    c = config(k, r)
    mp.mp.dps = 30
    t0 = time.time()
    d = scratch(f"k{k}")
    cs = c["cs"]
    tag = " ".join(f"{a}={b}" for a, b in c.items())
    from nrpy.infrastructures.BHaH.general_relativity import BSSN_C_codegen_library as B
    from nrpy.infrastructures.BHaH.general_relativity import psi4_C_codegen_library as P4
    from nrpy.equations.general_relativity.psi4 import Psi4
    from nrpy.equations.general_relativity.psi4_tetrads import Psi4Tetrads
    from nrpy.equations.general_relativity.BSSN_RHSs import BSSN_RHSs
    from nrpy.equations.general_relativity.BSSN_gauge_RHSs import BSSN_gauge_RHSs
    from nrpy.equations.general_relativity.BSSN_constraints import BSSN_constraints
    from nrpy.equations.general_relativity.BSSN_quantities import BSSN_quantities
    Nx = [8, 6, 6]
    rfmarg = "&griddata[0].rfmstruct" if c["pre"] else "griddata[0].xx"
    common = dict(CoordSystem=cs, enable_rfm_precompute=c["pre"], enable_fd_functions=c["fdf"], OMP_collapse=c["collapse"])
    with quiet():
        par.set_parval_from_str("EvolvedConformalFactor_cf", c["cf"])
        par.set_parval_from_str("fd_order", c["fd"])
        calls = ""
        enf = ""
        rhs_, con_ = c["kind"] == "rhs", c["kind"] == "con"
        cahd = c["cahd"] and rhs_
        ssl = c["ssl"] and rhs_
        if cahd:
            B.register_CFunction_cahdprefactor_auxevol_gridfunction([cs])
            calls += "cahdprefactor_auxevol_gridfunction(&commondata, params, griddata[0].xx, aux);\n"
        if rhs_:
            B.register_CFunction_rhs_eval(enable_RbarDD_gridfunctions=c["rbar"], enable_T4munu=c["t4"], enable_simd=c["simd"], LapseEvolutionOption=c["lapse"], ShiftEvolutionOption=c["shift"],
                                          enable_KreissOliger_dissipation=c["ko"], KreissOliger_strength_gauge=0.37, KreissOliger_strength_nongauge=0.81,
                                          enable_CAKO=c["cako"], enable_CAHD=c["cahd"], enable_SSL=c["ssl"], **common)
            calls += f"rhs_eval(&commondata, params, {rfmarg}, aux, in, rhs);\n"
        elif con_:
            B.register_CFunction_constraints(enable_RbarDD_gridfunctions=c["rbar"], enable_T4munu=c["t4"], enable_simd=c["simd"], **common)
            calls += f"constraints_eval(&commondata, params, {rfmarg}, in, aux, diag);\n"
        elif c["kind"] == "psi4":
            P4.register_CFunction_psi4(CoordSystem=cs, OMP_collapse=c["collapse"])
            P4.register_CFunction_psi4_metric_deriv_quantities(CoordSystem=cs, enable_fd_functions=c["fdf"])
            P4.register_CFunction_psi4_tetrad(CoordSystem=cs, tetrad="quasiKinnersley", use_metric_to_construct_unit_normal=k % 4 == 0)
            calls += "psi4(&commondata, params, griddata[0].xx, in, diag);\n"
        else:
            BSSN_quantities[cs + ("_rfm_precompute" if c["pre"] else "") + "_RbarDD_gridfunctions"]
            B.register_CFunction_Ricci_eval(enable_simd=c["simd"], **common)
            calls += f"Ricci_eval(&commondata, params, {rfmarg}, in, aux);\n"
        if not rhs_:
            B.register_CFunction_enforce_detgammabar_equals_detgammahat(**common)
            enf = f"enforce_detgammabar_equals_detgammahat(&commondata, params, {rfmarg}, in);"
        if rhs_:
            par.adjust_CodeParam_default("eta", c["eta"])
        if cahd:
            par.adjust_CodeParam_default("C_CAHD", 0.23)
        if ssl:
            par.adjust_CodeParam_default("SSL_Gaussian_prefactor", 0.77)
        G.register([cs], [c["size"]], {cs: Nx}, c["fd"], gfs=False, rfm_pre=c["pre"])
    G.finish(d, extra=DRIVER.replace("@CALLS@", calls).replace("@ENFORCE@", enf),
             rfm_pre=c["pre"], simd=c["simd"], add_ng=True)
    t1 = time.time()
    rc, log = bhah.make(d, flags=FLAGS + (" -mavx2 -mfma" if c["simd"] else ""), jobs=2)
    if rc:
        m.violation("build", f"{tag}: {log[-1500:]}")
        return m.part()
    t2 = time.time()
    rc, o, e = bhah.run(d, ["info"])
    C, P, X = G.info(o)
    if 0 not in X:
        m.violation("run", f"{tag}: {e[-800:]}")
        return m.part()
    P, X = P[0], X[0]
    NG = int(C["NGHOSTS"])
    gfo = G.gf_order(d)
    n3 = [len(X[a]) for a in range(3)]
    n = n3[0] * n3[1] * n3[2]
    txt = (d / "BHaH_defines.h").read_text()
    import re
    nevol = int(re.search(r"#define\s+NUM_EVOL_GFS\s+(\d+)", txt)[1])
    naux = int(re.search(r"#define\s+NUM_AUXEVOL_GFS\s+(\d+)", txt)[1])
    if nevol != len(EVOL):
        m.violation("evol-gfs", f"{tag}: {nevol} evolved gridfunctions")
        return m.part()
    data = {}
    for g in EVOL:
        base, amp = {"alpha": (0.8, 0.05), "cf": (0.9, 0.05), "trK": (0.1, 0.1)}.get(g, (0.0, 0.04 if g.startswith("h") else 0.1))
        data[g] = smooth(r, X, base, amp)
    aux = {f"T4UU{i}{j}": smooth(r, X, 0.01, 0.01) for i in range(4) for j in range(i, 4)} if c["t4"] and c["kind"] in ("rhs", "con") else {}
    if c["rbar"] and c["kind"] in ("rhs", "con"):
        aux.update({f"RbarDD{i}{j}": smooth(r, X, 0.1, 0.2) for i in range(3) for j in range(i, 3)})
    buf = bytearray(8 * n * (nevol + naux))
    for g, v in data.items():
        buf[8 * n * gfo[g.upper()]:8 * n * (gfo[g.upper()] + 1)] = struct.pack(f"{n}d", *v)
    for g, v in aux.items():
        o_ = 8 * n * (nevol + gfo[g.upper()])
        buf[o_:o_ + 8 * n] = struct.pack(f"{n}d", *v)
    (d / "in.bin").write_bytes(buf)
    outs = []
    for th in (1, 3):
        rc, o, e = bhah.run(d, ["info", "1.0"], env=dict(OMP_NUM_THREADS=str(th)))
        rep = bhah.san_report(rc, e)
        if rc or rep:
            m.violation("run", f"{tag}: rc {rc} {rep or e[-800:]}")
            return m.part()
        outs.append((d / "out.bin").read_bytes())
    if outs[0] != outs[1]:
        m.violation("threads", f"{tag}: kernels give other results with three threads than with one")
    out = struct.unpack(f"{len(outs[0]) // 8}d", outs[0])
    sec = {"rhs": 0, "aux": nevol * n, "diag": (nevol + naux) * n, "enf": (2 * nevol + naux) * n}

    def got(which, g, l):
        return out[sec[which] + gfo[g.upper()] * n + l]

    # ---- reference expressions
    with quiet():
        key = cs + ("_RbarDD_gridfunctions" if c["rbar"] else "") + ("_T4munu" if c["t4"] else "")
        ref = {}
        if rhs_:
            ref = dict(BSSN_RHSs[key].BSSN_RHSs_varname_to_expr_dict)
            al, ve_, be = BSSN_gauge_RHSs(CoordSystem=cs, enable_rfm_precompute=False, enable_T4munu=c["t4"], LapseEvolutionOption=c["lapse"], ShiftEvolutionOption=c["shift"])
            ref["alpha_rhs"] = al
            for i in range(3):
                ref[f"vet_rhsU{i}"], ref[f"bet_rhsU{i}"] = ve_[i], be[i]
        con = BSSN_constraints[key] if con_ or cahd else None
        Bq = BSSN_quantities[cs] if c["kind"] == "ricci" else None
        if c["kind"] == "psi4":
            ps = Psi4(CoordSystem=cs, enable_rfm_precompute=False)
            tet = Psi4Tetrads(cs, enable_rfm_precompute=False, tetrad="quasiKinnersley", use_metric_to_construct_unit_normal=k % 4 == 0)
    ref = {kk.replace("_rhs", ""): v for kk, v in ref.items()}
    if rhs_ and sorted(ref) != sorted(EVOL):
        m.violation("evol-names", f"{tag}: right-hand sides for {sorted(ref)}")
        return m.part()
    par_common = {kk: v.defaultvalue for kk, v in par.glb_code_params_dict.items() if v.commondata}
    dx = [P["dxx0"], P["dxx1"], P["dxx2"]]
    t3 = time.time()
    for pt in range(8):
        ijk = [NG + r.randrange(Nx[a]) for a in range(3)]
        lin = lambda q: q[0] + n3[0] * (q[1] + n3[1] * q[2])
        l0 = lin(ijk)
        q = [X[a][ijk[a]] for a in range(3)]
        hs = co.scale(cs, q, P)

        def fdv(g, op):
            nm = op.rstrip("0123456789")
            dirs = [int(z) for z in op[len(nm):]]
            if nm == "dupD" and not data[f"vetU{dirs[0]}"][l0] / hs[dirs[0]] > 0:
                op = op.replace("dup", "ddn")
            s = mp.mpf(0)
            arr = data[g]
            for off, w in stencil(op, c["fd"]).items():
                s += mp.mpf(w.numerator) / w.denominator * arr[lin([ijk[a] + off[a] for a in range(3)])]
            for a in dirs:
                s /= mp.mpf(dx[a])
            return s

        def value(name):
            if name in data:
                return mp.mpf(data[name][l0])
            if name in aux:
                return mp.mpf(aux[name][l0])
            if name in ("xx0", "xx1", "xx2"):
                return mp.mpf(q[int(name[2])])
            if name in P:
                return mp.mpf(P[name])
            if name in par_common:
                return mp.mpf(par_common[name])
            if name in ("PI", "M_PI"):
                return mp.pi + 0
            if name == "M_SQRT1_2":
                return 1 / mp.sqrt(2)
            mm = re.fullmatch(r"(.+)_(d(?:up|dn|KO)?D{1,2})(\d+)", name)
            if mm:
                b, op, ix = mm.groups()
                nd = 2 if op == "dDD" else 1
                return fdv(b + ix[:-nd], op + ix[-nd:])
            raise vlib.HarnessError("symbol " + name)

        base = {}

        def ev(pert):
            pr = rng("pert", k, pt, pert)
            vals = {}

            def look(name):
                if name not in vals:
                    if name not in base:
                        base[name] = value(name)
                    v = base[name]
                    if pert:
                        v = v * (1 + mp.mpf(10) ** -11 * pr.choice([-1, 1])) if name not in ("M_PI", "PI", "M_SQRT1_2") else v
                    vals[name] = v
                return vals[name]

            E = DagEval(look)
            W = {"W": lambda x: x, "chi": lambda x: mp.sqrt(x), "phi": lambda x: mp.exp(-2 * x)}[c["cf"]](look("cf"))
            H = E(con.H) if con else None
            res = {}
            scale = {}
            for g in EVOL if rhs_ else []:
                v = E(ref[g])
                if c["ko"]:
                    gauge = g == "alpha" or g[:3] in ("vet", "bet")
                    if not (g[:3] == "bet" and "2ndOrder" not in c["shift"]):
                        s = (mp.mpf("0.37") if gauge else mp.mpf("0.81")) * (W if c["cako"] else 1)
                        for a in range(3):
                            v += s * (look(f"{g}_dKOD{a}") if not g[-1].isdigit() else look(re.sub(r"(\d+)$", rf"_dKOD\g<1>{a}", g))) / hs[a]
                if g == "cf" and cahd:
                    pre = mp.mpf("0.23") * C["CFL"] * min(abs(hs[a] * dx[a]) for a in range(3))
                    v += -pre * H * {"phi": 1, "W": -2 * look("cf"), "chi": -4 * look("cf")}[c["cf"]]
                if g == "alpha" and c["ssl"]:
                    v -= W * mp.mpf("0.77") * (look("alpha") - W)
                res["rhs", g] = v
            if c["kind"] == "psi4":
                for nm, e_ in zip(ps.metric_derivs_varname_list, ps.metric_derivs_expr_list):
                    vals[nm] = E(e_)
                for nm in ("mre4U", "mim4U", "n4U"):
                    for i in range(4):
                        vals[f"{nm}{i}"] = E(getattr(tet, nm)[i])
                res["diag", "psi4_re"], res["diag", "psi4_im"] = E(ps.psi4_re), E(ps.psi4_im)
            if con_:
                res["diag", "H"] = H
                res["diag", "MSQUARED"] = E(con.Msquared)
            if Bq:
                for i in range(3):
                    for j in range(i, 3):
                        res["aux", f"RbarDD{i}{j}"] = E(Bq.Ricci_exprs[Bq.Ricci_varnames.index(f"RbarDD{i}{j}")])
            if cahd:
                res["aux", "cahdprefactor"] = mp.mpf("0.23") * C["CFL"] * min(abs(hs[a] * dx[a]) for a in range(3))
            if enf:
                M = [[(1 if i == j else 0) + look(f"hDD{min(i, j)}{max(i, j)}") for j in range(3)] for i in range(3)]
                det = (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0]) + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]))
                for i in range(3):
                    for j in range(i, 3):
                        res["enf", f"hDD{i}{j}"] = det ** (-mp.mpf(1) / 3) * M[i][j] - (1 if i == j else 0)
                for g in EVOL:
                    if g[0] != "h":
                        res["enf", g] = look(g)
            return res

        r0, r1, r2 = ev(0), ev(1), ev(2)
        bad = 0
        for kk, v in r0.items():
            tol = 3 * max(abs(r1[kk] - v), abs(r2[kk] - v)) + mp.mpf(10) ** -11 * abs(v) + mp.mpf(10) ** -13
            g = got(*kk, l0)
            m.observe()
            m.count("outputs compared")
            if not abs(g - v) <= tol:
                bad += 1
                if bad <= 3:
                    m.violation(f"{kk[0]}", f"{tag}: point {ijk} of {Nx}, {kk}: kernel {g!r}, expected {mp.nstr(v, 17)} (tolerance {mp.nstr(tol, 3)})")
        m.observe(f"{cs} fd{c['fd']} point {pt} {k}", n=0)
        m.count("points")
    # every point the monitors did not evaluate: finite, and det(gammabar) enforced everywhere, ghost zones included
    for l in range(n if enf else 0):
        h = [got("enf", f"hDD{a}", l) for a in ("00", "01", "02", "11", "12", "22")]
        a, b, cc, d_, e_, f_ = 1 + h[0], h[1], h[2], 1 + h[3], h[4], 1 + h[5]
        det = a * (d_ * f_ - e_ * e_) - b * (b * f_ - e_ * cc) + cc * (b * e_ - d_ * cc)
        if not abs(det - 1) < 1e-12:
            m.violation("enforce", f"{tag}: det(gammabar)/det(gammahat) = {det!r} after enforcement at point {l}")
            break
    for kz in range(NG, NG + Nx[2] if rhs_ else 0):
        for jy in range(NG, NG + Nx[1]):
            for ix in range(NG, NG + Nx[0]):
                l = ix + n3[0] * (jy + n3[1] * kz)
                for g in EVOL:
                    if not abs(got("rhs", g, l)) < 1e9:
                        m.violation("not-written", f"{tag}: rhs {g} at interior point {(ix, jy, kz)} is {got('rhs', g, l)}")
                        return m.part()
    m.count("kernel sets")
    import sys
    if "-v" in sys.argv:
        print(tag, "gen", round(t1 - t0), "build", round(t2 - t1), "exprs", round(t3 - t2), "eval", round(time.time() - t3), file=sys.stderr)
    m.count("seconds generate", int(t1 - t0))
    m.count("seconds build", int(t2 - t1))
    m.count("seconds evaluate", int(time.time() - t2))
    return m.part()


def decomposition(k):
    """psi4 = sum of modes with polynomial radial profile: the output must be the mode sums at each radius"""
    from swsh import sYlm
    m = Monitor("C17")
    r = rng("decomp", k)
    d = scratch(f"d{k}")
    mp.mp.dps = 20
    cs = ["Spherical", "SinhSpherical"][(k + vlib.SEED) % 2]  # systems with a closed-form inverse
    lmax = r.choice([2, 3, 4])
    Nx = [10, r.choice([8, 12]), r.choice([8, 12])]
    size = r.choice([3.0, 20.0])
    radii = sorted(r.uniform(0.25, 0.85) * size for _ in range(2)) + [3 * size]
    t0 = r.choice([2.5, 31.25])
    tag = f"decomposition {cs}{Nx} size {size} lmax {lmax} radii {radii}"
    from nrpy.infrastructures.BHaH.general_relativity import BSSN_C_codegen_library as B
    from nrpy.infrastructures.BHaH import xx_tofrom_Cart
    import nrpy.infrastructures.BHaH.special_functions.spin_weight_minus2_spherical_harmonics as sw
    with quiet():
        par.set_parval_from_str("swm2sh_maximum_l_mode_generated", 4)
        gri.register_gridfunctions("uu", group="EVOL")
        gri.register_gridfunctions(["psi4_re", "psi4_im"], group="AUX")
        sw.register_CFunction_spin_weight_minus2_sph_harmonics()
        par.adjust_CodeParam_default("swm2sh_maximum_l_mode_to_compute", lmax)
        B.register_CFunction_psi4_spinweightm2_decomposition_on_sphlike_grids()
        xx_tofrom_Cart.register_CFunction__Cart_to_xx_and_nearest_i0i1i2(cs)
        G.register([cs], [size], {cs: Nx}, 6, gfs=False)
    G.finish(d, extra=r"""
  if(argc>2) {
    params_struct *restrict params=&griddata[0].params;
    const size_t n=(size_t)params->Nxx_plus_2NGHOSTS0*params->Nxx_plus_2NGHOSTS1*params->Nxx_plus_2NGHOSTS2;
    REAL *diag=(REAL*)malloc(sizeof(REAL)*n*2);
    FILE *f=fopen("in.bin","rb"); if(fread(diag,sizeof(REAL),n*2,f)!=n*2) return 3; fclose(f);
    const REAL R[3] = {%s};
    for(int it=0; it<2; it++) { commondata.time = it * %r;
      psi4_spinweightm2_decomposition_on_sphlike_grids(&commondata, params, diag, R, 3, %d, griddata[0].xx);
      for(size_t i=0;i<n*2;i++) diag[i] *= -2.0; }
    free(diag);
  }
""" % (", ".join(repr(x) for x in radii), t0, lmax))
    rc, log = bhah.make(d, flags=FLAGS)
    if rc:
        m.violation("build", f"{tag}: {log[-1500:]}")
        return m.part()
    rc, o, e = bhah.run(d, ["info"])
    C, P, X = G.info(o)
    P, X, NG = P[0], X[0], int(C["NGHOSTS"])
    modes = {(l, mm): ([complex(r.uniform(-1, 1), r.uniform(-1, 1)) for _ in range(3)]) for l in range(2, 5) for mm in range(-l, l + 1) if r.random() < 0.4}
    xm = X[0][-1]
    poly = lambda cc, x: cc[0] + cc[1] * (x / xm) + cc[2] * (x / xm) ** 3
    ang = {(j, kk): {lm: complex(sYlm(-2, *lm, mp.mpf(X[1][j]), mp.mpf(X[2][kk]))) for lm in [(l, mm) for l in range(2, 5) for mm in range(-l, l + 1)]} for j in range(len(X[1])) for kk in range(len(X[2]))}
    re_, im_ = [], []
    for kk in range(len(X[2])):
        for j in range(len(X[1])):
            for i in range(len(X[0])):
                v = sum(poly(cc, X[0][i]) * ang[j, kk][lm] for lm, cc in modes.items())
                re_.append(v.real)
                im_.append(v.imag)
    g = G.gf_order(d)
    dat = [None, None]
    dat[g["PSI4_RE"]], dat[g["PSI4_IM"]] = re_, im_
    (d / "in.bin").write_bytes(G.pack(dat[0] + dat[1]))
    for R in radii:
        for l in range(2, 5):
            (d / f"Rpsi4_l{l}-r{R:06.1f}.txt").write_text("stale\n") if R < size else None
    rc, o, e = bhah.run(d, ["info", "1.0"], env=dict(OMP_NUM_THREADS="3"))
    rep = bhah.san_report(rc, e)
    if rc or rep:
        m.violation("run", f"{tag}: rc {rc} {rep or e[-800:]}")
        return m.part()
    if list(d.glob(f"Rpsi4*r{radii[2]:06.1f}*")):
        m.violation("outside", f"{tag}: output for radius {radii[2]} outside the grid")
    for R in radii[:2]:
        # x0 of the radius by bisection of the textbook radial map
        lo, hi = 0.0, xm
        for _ in range(200):
            mid = (lo + hi) / 2
            if math.hypot(*co.cartr(cs, [mid, 1.0, 0.5], P)) < R:
                lo = mid
            else:
                hi = mid
        for l in range(2, lmax + 1):
            fn = d / f"Rpsi4_l{l}-r{R:06.1f}.txt"
            rows = [ln.split() for ln in fn.read_text().splitlines() if not ln.startswith("#")]
            if len(rows) != 2 or any(len(x) != 1 + 2 * (2 * l + 1) for x in rows):
                m.violation("rows", f"{tag}: {fn.name}: {rows[:3]}")
                continue
            for it, row in enumerate(rows):
                if abs(float(row[0]) - (it * t0 - R)) > 1e-5 * R:
                    m.violation("time", f"{tag}: {fn.name}: retarded time {row[0]} at t={it * t0}, R={R}")
                for mm in range(-l, l + 1):
                    z = 0
                    for j in range(NG, NG + Nx[1]):
                        for kk in range(NG, NG + Nx[2]):
                            v = sum(poly(cc, lo) * ang[j, kk][lm] for lm, cc in modes.items())
                            z += v * ang[j, kk][l, mm].conjugate() * math.sin(X[1][j]) * P["dxx1"] * P["dxx2"]
                    z *= R * (-2.0) ** it
                    c0 = 1 + 2 * (mm + l)
                    got = complex(float(row[c0]), float(row[c0 + 1]))
                    m.count("modes compared")
                    m.observe(f"{tag} {l} {mm} {R}")
                    if not abs(got - z) <= 1e-9 * R * 2:
                        m.violation("mode", f"{tag}: R*psi4_({l},{mm}) at R={R}, output {it}: {got}, expected {z}")
                        return m.part()
    return m.part()


def main():
    m = Monitor("C17", rule="distinct (kernel set, point) pairs compared")
    jobs = [(kernels, k) for k in range(20 if QUICK else 90)] + [(decomposition, k) for k in range(2 if QUICK else 12)]
    for i, st, res in run_isolated(lambda j: j[0](j[1]), jobs, timeout=500):
        if st == "ok":
            m.merge(res)
        else:
            raise vlib.HarnessError(f"{i}: {st} {res}")
    m.require("points", 40)
    m.finish()


vlib.main(main)
