"""C22: the initial-data reader turns ADM data, in whichever basis, into the BSSN variables of the grid.

initial_data() is generated for random destination coordinates, source basis (Cartesian or spherical),
conformal factor, order, matter and grid offsets, built with ASan+UBSan and run either on ADM data supplied by
a C function of this check (random smooth tensor fields) or on the shipped black-hole data.  Every variable at
every grid point is compared with the textbook definitions applied to the Cartesian-basis tensors through this
check's own coordinate maps: conformal metric and traceless curvature in the orthonormal basis, also in the
inner ghost zones, and lambda^i from finite differences of the conformal metric.
"""
import math
import struct
import mpmath as mp
import bhah
import coords as co
import gridproj as G
import vlib
from dageval import DagEval
from fdsten import stencil
from vlib import Monitor, QUICK, quiet, rng, run_isolated, scratch
import nrpy.grid as gri
import nrpy.params as par

# v2n: no inverse map, SinhSymTP: its inverse map is a known finding of C08
CS = ["Spherical", "SinhSpherical", "Cartesian", "SinhCartesian", "Cylindrical", "SinhCylindrical", "SymTP", "HoleySinhSpherical", "UWedgeHSinhSph", "RingHoleySinhSpherical", "LWedgeHSinhSph"]
SHIPPED = ["BrillLindquist", "UIUCBlackHole", "StaticTrumpet", "OffsetKerrSchild"]
FLAGS = bhah.SAN.replace("-g ", "")
R3 = range(3)
SYM = [(i, j) for i in R3 for j in range(i, 3)]
SYM4 = [(i, j) for i in range(4) for j in range(i, 4)]
DRIVER = r"""
  if(argc>2) {
    const REAL org[MAXNUMGRIDS][3] = {@ORG@};
    for(int g=0; g<commondata.NUMGRIDS; g++) {
      griddata[g].params.Cart_originx=org[g][0]; griddata[g].params.Cart_originy=org[g][1]; griddata[g].params.Cart_originz=org[g][2];
      MoL_malloc_y_n_gfs(&commondata, &griddata[g].params, &griddata[g].gridfuncs);
      MoL_malloc_non_y_n_gfs(&commondata, &griddata[g].params, &griddata[g].gridfuncs);
    }
    @SET@
    initial_data(&commondata, griddata);
    FILE *f=fopen("out.bin","wb");
    for(int g=0; g<commondata.NUMGRIDS; g++) {
      const params_struct *restrict params=&griddata[g].params;
      const size_t n=(size_t)params->Nxx_plus_2NGHOSTS0*params->Nxx_plus_2NGHOSTS1*params->Nxx_plus_2NGHOSTS2;
      fwrite(griddata[g].gridfuncs.y_n_gfs,sizeof(REAL),n*NUM_EVOL_GFS,f);
      @AUX@
    }
    fclose(f);
    griddata_free(&commondata, griddata, true);
    return 0;
  }
"""


def config(k, r):
    shipped = SHIPPED[(k // 3) % 4] if k % 3 == 2 else None
    cs = [CS[(3 * k + vlib.SEED) % len(CS)] if QUICK else r.choice(CS)]
    idcs = r.choice(["Cartesian", "Spherical"])
    if shipped:
        idcs = "Cartesian" if shipped == "BrillLindquist" else "Spherical"
    return dict(cs=cs, idcs=idcs, shipped=shipped, cf=r.choice(["W", "chi", "phi"]), t4=not shipped and r.random() < 0.5, fd=r.choice([2, 4, 6]),
                size=r.choice([3.0, 6.0]), offset=r.random() < 0.6, persist=not shipped and r.random() < 0.5)


def fields(r, t4):
    """name -> (base, [(c, k, phase)]): random smooth Cartesian components"""
    f = {}

    def mk(name, base, amp):
        f[name] = (base, [(round(r.uniform(-amp, amp), 4), [round(r.uniform(-.7, .7), 3) for _ in R3], round(r.uniform(0, 6), 3)) for _ in range(3)])
    mk("alpha", 0.8, 0.06)
    for i in R3:
        mk(f"b{i}", 0.05, 0.1)
        mk(f"B{i}", -0.02, 0.1)
    for i, j in SYM:
        mk(f"g{i}{j}", 1.4 if i == j else 0.0, 0.08)
        mk(f"K{i}{j}", 0.1, 0.2)
    if t4:
        for i, j in SYM4:
            mk(f"T{i}{j}", 0.1, 0.2)
    return f


def feval(f, x):
    return {n: b + sum(c * math.sin(k[0] * x[0] + k[1] * x[1] + k[2] * x[2] + p) for c, k, p in t) for n, (b, t) in f.items()}


def c_function(f, idcs, t4, persist):
    s = "  const REAL x=xCart[0], y=xCart[1], z=xCart[2];\n"
    for n, (b, t) in f.items():
        s += f"  const REAL {n} = {b}" + "".join(f" + ({c})*sin(({k[0]})*x+({k[1]})*y+({k[2]})*z+({p}))" for c, k, p in t) + ";\n"
    s += "  initial_data->alpha = alpha" + (" * ID_persist->factor" if persist else "") + ";\n"
    s += "  REAL J[3][3], I[3][3];  // dX/dq, dq/dX\n"
    if idcs == "Spherical":
        s += r"""  const REAL rr=sqrt(x*x+y*y+z*z), rho=sqrt(x*x+y*y), st=rho/rr, ct=z/rr, sp=y/rho, cp=x/rho;
  const REAL e[3][3]={{st*cp,st*sp,ct},{ct*cp,ct*sp,-st},{-sp,cp,0}}, h[3]={1,rr,rr*st};
  for(int a=0;a<3;a++) for(int i=0;i<3;i++) { J[a][i]=e[i][a]*h[i]; I[i][a]=e[i][a]/h[i]; }
"""
    else:
        s += "  for(int a=0;a<3;a++) for(int i=0;i<3;i++) { J[a][i]=(a==i); I[i][a]=(a==i); }\n"
    cc = lambda n, i, j: f"{n}{min(i, j)}{max(i, j)}"
    for i in R3:
        s += f"  initial_data->betaSphorCartU{i} = " + "+".join(f"I[{i}][{a}]*b{a}" for a in R3) + ";\n"
        s += f"  initial_data->BSphorCartU{i} = " + "+".join(f"I[{i}][{a}]*B{a}" for a in R3) + ";\n"
    for n, q in (("gamma", "g"), ("K", "K")):
        for i, j in SYM:
            s += f"  initial_data->{n}SphorCartDD{i}{j} = " + "+".join(f"J[{a}][{i}]*J[{b}][{j}]*{cc(q, a, b)}" for a in R3 for b in R3) + ";\n"
    if t4:
        s += "  initial_data->T4SphorCartUU00 = T00;\n"
        for i in R3:
            s += f"  initial_data->T4SphorCartUU0{i+1} = " + "+".join(f"I[{i}][{a}]*T0{a+1}" for a in R3) + ";\n"
        for i, j in SYM:
            s += f"  initial_data->T4SphorCartUU{i+1}{j+1} = " + "+".join(f"I[{i}][{a}]*I[{j}][{b}]*{cc('T', a + 1, b + 1)}" for a in R3 for b in R3) + ";\n"
    return s


def bssn(v, cfc):
    """Cartesian-basis BSSN fields of Cartesian-basis ADM values"""
    sy = lambda n: [[v[f"{n}{min(i, j)}{max(i, j)}"] for j in R3] for i in R3]
    g, K = sy("g"), sy("K")
    det = g[0][0] * (g[1][1] * g[2][2] - g[1][2] ** 2) - g[0][1] * (g[0][1] * g[2][2] - g[1][2] * g[0][2]) + g[0][2] * (g[0][1] * g[1][2] - g[1][1] * g[0][2])
    gi = co.inv3(g)
    tr = sum(gi[i][j] * K[i][j] for i in R3 for j in R3)
    s = det ** (-1 / 3)
    gb = [[s * g[i][j] for j in R3] for i in R3]
    A = [[s * (K[i][j] - g[i][j] * tr / 3) for j in R3] for i in R3]
    cf = {"W": det ** (-1 / 6), "chi": s, "phi": math.log(det) / 12}[cfc]
    return gb, A, tr, cf


def cart_values_shipped(ID, idcs, env, x):
    """Cartesian-basis ADM values of the shipped expressions at the point x"""
    if idcs == "Cartesian":
        e = DagEval(lambda n: mp.mpf({"x": x[0], "y": x[1], "z": x[2]}.get(n, env.get(n))))
        I = J = [[1.0 * (a == b) for b in R3] for a in R3]
    else:
        rr, rho = math.sqrt(sum(t * t for t in x)), math.hypot(x[0], x[1])
        q = dict(r=rr, th=math.atan2(rho, x[2]), ph=math.atan2(x[1], x[0]))
        q.update(xx0=q["r"], xx1=q["th"], xx2=q["ph"])
        e = DagEval(lambda n: mp.mpf(q.get(n, env.get(n))))
        st, ct, sp, cp = rho / rr, x[2] / rr, x[1] / rho, x[0] / rho
        u, h = [[st * cp, st * sp, ct], [ct * cp, ct * sp, -st], [-sp, cp, 0]], [1, rr, rr * st]
        J = [[u[i][a] * h[i] for i in R3] for a in R3]
        I = [[u[i][a] / h[i] for a in R3] for i in R3]
    f = lambda t: float(e(t))
    g, K = [[f(ID.gammaDD[i][j]) for j in R3] for i in R3], [[f(ID.KDD[i][j]) for j in R3] for i in R3]
    v = dict(alpha=f(ID.alpha))
    for a in R3:
        v[f"b{a}"] = sum(J[a][i] * f(ID.betaU[i]) for i in R3)
        v[f"B{a}"] = sum(J[a][i] * f(ID.BU[i]) for i in R3)
    for a, b in SYM:
        v[f"g{a}{b}"] = sum(I[i][a] * I[j][b] * g[i][j] for i in R3 for j in R3)
        v[f"K{a}{b}"] = sum(I[i][a] * I[j][b] * K[i][j] for i in R3 for j in R3)
    return v


def reader(k):
    m = Monitor("C22")
    r = rng("reader", k)
    c = config(k, r)
    mp.mp.dps = 20
    tag = " ".join(f"{a}={b}" for a, b in c.items())
    d = scratch(f"k{k}")
    css = c["cs"]
    Nx = {cs: [r.choice([4, 6, 8]), r.choice([4, 6]), r.choice([4, 6])] for cs in css}
    org = [[round(r.uniform(-.9, .9), 3) if c["offset"] else 0.0 for _ in R3] for _ in css]
    name = c["shipped"] or "monitor_ID"
    f = fields(r, c["t4"])
    setc = ""
    with quiet():
        from nrpy.infrastructures.BHaH.general_relativity import BSSN_C_codegen_library as B
        from nrpy.infrastructures.BHaH import xx_tofrom_Cart
        import nrpy.c_function as cfc
        par.set_parval_from_str("EvolvedConformalFactor_cf", c["cf"])
        par.set_parval_from_str("fd_order", c["fd"])
        if c["t4"]:
            gri.register_gridfunctions_for_single_rank2("T4UU", symmetry="sym01", dimension=4, group="AUXEVOL")
        for cs in css[:1]:
            B.register_CFunction_initial_data(CoordSystem=cs, IDtype=name, IDCoordSystem=c["idcs"], ID_persist_struct_str="REAL factor;" if c["persist"] else "",
                                              populate_ID_persist_struct_str="ID_persist.factor = 1.25;\n" if c["persist"] else "", enable_T4munu=c["t4"])
            xx_tofrom_Cart.register_CFunction__Cart_to_xx_and_nearest_i0i1i2(cs)
        if not c["shipped"]:
            cfc.register_CFunction(
                includes=["BHaH_defines.h", "BHaH_function_prototypes.h"], desc="monitor initial data", name=name,
                params="const commondata_struct *restrict commondata, const params_struct *restrict params,\n    const REAL xCart[3], const ID_persist_struct *restrict ID_persist, initial_data_struct *restrict initial_data",
                body=c_function(f, c["idcs"], c["t4"], c["persist"]), clang_format_options="-style={DisableFormat: true}")
        G.register(css, [c["size"]] * len(css), Nx, c["fd"], gfs=False)
        env = {}
        if c["shipped"]:
            from nrpy.equations.general_relativity.InitialData_Spherical import InitialData_Spherical
            from nrpy.equations.general_relativity.InitialData_Cartesian import InitialData_Cartesian
            ID = (InitialData_Cartesian if c["idcs"] == "Cartesian" else InitialData_Spherical)(c["shipped"])
            u = lambda a, b: round(r.uniform(a, b), 4)
            env = dict(M=u(.5, 1.5), chi=u(-.9, .9), r0=u(.5, 1.5), BH1_mass=u(.2, 1), BH2_mass=u(.2, 1), a=u(-.4, .4))
            for b in (1, 2):
                for x in "xyz":
                    env[f"BH{b}_posn_{x}"] = u(-.7, .7)
            env = {n: v for n, v in env.items() if n in par.glb_code_params_dict}
            setc = "".join(f"commondata.{n} = {v!r}; " for n, v in env.items())
    aux = "fwrite(griddata[g].gridfuncs.auxevol_gfs,sizeof(REAL),n*NUM_AUXEVOL_GFS,f);" if c["t4"] else ""
    G.finish(d, extra=DRIVER.replace("@ORG@", ",".join("{%r,%r,%r}" % tuple(o) for o in org)).replace("@SET@", setc).replace("@AUX@", aux))
    rc, log = bhah.make(d, flags=FLAGS, jobs=2)
    if rc:
        m.violation("build", f"{tag}: {log[-1500:]}")
        return m.part()
    outs = []
    for th in (1, 3):
        rc, o, e = bhah.run(d, ["info", "1.0"], env=dict(OMP_NUM_THREADS=str(th)))
        rep = bhah.san_report(rc, e)
        if rc or rep:
            m.violation("run", f"{tag}: rc {rc} {rep or e[-800:]}")
            return m.part()
        outs.append((d / "out.bin").read_bytes())
    if outs[0] != outs[1]:
        m.violation("threads", f"{tag}: initial data with three threads differ from those with one")
    C, PP, XX = G.info(o)
    NG = int(C["NGHOSTS"])
    gfo = G.gf_order(d)
    nevol, naux = 24, 10 if c["t4"] else 0
    off = 0
    for gi_, cs in enumerate(css):
        P, X = PP[gi_], XX[gi_]
        n3 = [len(X[a]) for a in R3]
        n = n3[0] * n3[1] * n3[2]
        want = 8 * n * (nevol + naux)
        if len(outs[0]) < off + want:
            m.violation("gridfunctions", f"{tag}: output holds {len(outs[0])} bytes, {off + want} expected")
            break
        out = struct.unpack(f"{n * (nevol + naux)}d", outs[0][off:off + want])
        off += want
        dx = [P["dxx0"], P["dxx1"], P["dxx2"]]
        lo, hi = co.ranges(cs, P)
        cache = {}

        def at(q):
            """exact rescaled fields at grid coordinates q (also outside the range: smooth continuation)"""
            key = tuple(q)
            if key not in cache:
                xg = [t + o for t, o in zip(co.cartr(cs, q, P), org[gi_])]
                v = feval(f, xg) if not c["shipped"] else cart_values_shipped(ID, c["idcs"], env, xg)
                gb, A, tr, cf = bssn(v, c["cf"])
                e = co.units(cs, q, P)
                w = dict(alpha=v["alpha"] * (1.25 if c["persist"] else 1), cf=cf, trK=tr)
                for i in R3:
                    w[f"vetU{i}"] = sum(e[i][a] * v[f"b{a}"] for a in R3)
                    w[f"betU{i}"] = sum(e[i][a] * v[f"B{a}"] for a in R3)
                for i, j in SYM:
                    w[f"hDD{i}{j}"] = sum(e[i][a] * e[j][b] * gb[a][b] for a in R3 for b in R3) - (i == j)
                    w[f"aDD{i}{j}"] = sum(e[i][a] * e[j][b] * A[a][b] for a in R3 for b in R3)
                if c["t4"]:
                    h = co.scale(cs, q, P)
                    w["T4UU00"] = v["T00"]
                    for i in R3:
                        w[f"T4UU0{i+1}"] = sum(e[i][a] / h[i] * v[f"T0{a+1}"] for a in R3)
                    for i, j in SYM:
                        w[f"T4UU{i+1}{j+1}"] = sum(e[i][a] * e[j][b] / h[i] / h[j] * v[f"T{min(a, b)+1}{max(a, b)+1}"] for a in R3 for b in R3)
                cache[key] = w
            return cache[key]

        sign_ok = {}
        bad = {}
        npt = 0
        pts = [(i0, i1, i2) for i2 in range(n3[2]) for i1 in range(n3[1]) for i0 in range(n3[0])]
        if c["shipped"]:
            pts = r.sample(pts, min(len(pts), 120))
        lamdone = 0
        for ijk in pts:
            q = [X[a][ijk[a]] for a in R3]
            interior = all(NG <= ijk[a] < n3[a] - NG for a in R3)
            fq = co.fold(cs, q)
            inside = all(lo[a] < fq[a] < hi[a] for a in R3)
            if not inside:
                continue  # extrapolated
            xg = [t + o for t, o in zip(co.cartr(cs, q, P), org[gi_])]
            if c["idcs"] == "Spherical" and math.hypot(xg[0], xg[1]) < 1e-3:
                continue  # the spherical basis is singular there
            if c["shipped"] and (math.sqrt(sum(t * t for t in xg)) < 0.1 or any(math.dist(xg, [env.get(f"BH{b}_posn_{x}", 9) for x in "xyz"]) < 0.1 for b in (1, 2))):
                continue
            w = at(q)
            l0 = ijk[0] + n3[0] * (ijk[1] + n3[1] * ijk[2])
            npt += 1
            hs = co.scale(cs, q, P)
            for nm, val in w.items():
                if nm.startswith("T4"):
                    if not interior:
                        continue
                    o_ = out[(nevol + gfo[nm.upper()]) * n + l0]
                    tol = 1e-10 * (abs(val) + sum(abs(1 / hs[int(s) - 1]) if s != "0" else 1 for s in nm[4:]) ** 2 + 1)
                else:
                    o_ = out[gfo[nm.upper()] * n + l0]
                    tol = 1e-9 * (1 + abs(val))
                m.observe()
                m.count("values compared (inner ghost)" if not interior else "values compared")
                if not abs(o_ - val) <= tol:
                    bad.setdefault(nm + ("" if interior else " (inner ghost)"), f"at {ijk} {o_!r} instead of {val!r}")
            if interior and (lamdone < 60 or not QUICK) and not (c["shipped"] and min(abs(t) for t in (xg[0], xg[1])) < 2e-2):
                try:
                    L = lam(at, q, dx, c["fd"], co.hatted(cs, q, P), hs)
                except ZeroDivisionError:
                    continue
                lamdone += 1
                for i in R3:
                    o_ = out[gfo[f"LAMBDAU{i}"] * n + l0]
                    m.count("lambdaU compared")
                    m.observe()
                    if not abs(o_ - L[i][0]) <= 1e-9 * (1 + L[i][1]):
                        bad.setdefault(f"lambdaU{i}", f"at {ijk} {o_!r} instead of {L[i][0]!r} (scale {L[i][1]:.3g})")
        for i in range(nevol):
            seg = out[i * n:(i + 1) * n]
            if not c["shipped"] and not all(math.isfinite(t) for t in seg):
                bad.setdefault("finite", f"gridfunction {i} not finite somewhere")
        m.count("points", npt)
        m.count(f"source:{c['shipped'] or c['idcs']}")
        m.observe(f"{cs}:{c['idcs']}:{c['cf']}:{c['fd']}:{c['t4']}:{c['offset']}")
        for nm, t in sorted(bad.items())[:4]:
            m.violation(f"value:{nm.split()[0]}", f"{tag}: grid {gi_} ({cs}, origin {org[gi_]}): {nm} {t}; {len(bad)} variables differ")
    return m.part()


def lam(at, q, dx, fd, H, hs):
    """lambda^i at q from finite differences of h_ij: [(value, magnitude of the summed terms)]"""
    h = at(q)
    hv = lambda w, i, j: w[f"hDD{min(i, j)}{max(i, j)}"]
    dh = [[[0.0] * 3 for _ in R3] for _ in R3]
    for k in R3:
        for offv, wt in stencil(f"dD{k}", fd).items():
            w = at([q[a] + offv[a] * dx[a] for a in R3])
            for i, j in SYM:
                dh[i][j][k] += float(wt) / dx[k] * hv(w, i, j)
                if i != j:
                    dh[j][i][k] = dh[i][j][k]
    gb = [[H[f"ghatDD{i}{j}"] + hv(h, i, j) * H[f"ReDD{i}{j}"] for j in R3] for i in R3]
    dg = [[[H[f"ghatDDdD{i}{j}{k}"] + hv(h, i, j) * H[f"ReDDdD{i}{j}{k}"] + dh[i][j][k] * H[f"ReDD{i}{j}"] for k in R3] for j in R3] for i in R3]
    gi = co.inv3(gb)
    res = []
    for i in R3:
        s = t = 0.0
        for j in R3:
            for k in R3:
                Gm = mag = 0.0
                for l in R3:
                    for a in (dg[l][j][k], dg[l][k][j], -dg[j][k][l]):
                        Gm += 0.5 * gi[i][l] * a
                        mag += abs(gi[i][l] * a)
                s += gi[j][k] * (Gm - H[f"GammahatUDD{i}{j}{k}"])
                t += abs(gi[j][k]) * (mag + abs(H[f"GammahatUDD{i}{j}{k}"]))
        res.append((s * hs[i], t * hs[i]))
    return res


def main():
    m = Monitor("C22", rule="distinct (coordinates, source basis, conformal factor, order, matter, offset) combinations")
    for i, st, res in run_isolated(reader, list(range(14 if QUICK else 70)), timeout=400):
        if st == "ok":
            m.merge(res)
        else:
            raise vlib.HarnessError(f"{i}: {st} {res}")
    m.require("values compared", 5000)
    m.require("values compared (inner ghost)", 2000)
    m.require("lambdaU compared", 300)
    m.finish()


vlib.main(main)
