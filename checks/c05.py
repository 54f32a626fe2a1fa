"""C05: a generated time step equals the Runge-Kutta step of its declared order."""
import math
import traceback
import mpmath as mp
import sympy as sp
import vlib
from vlib import Monitor, run_isolated, rng, scratch, QUICK
import bhah
import nrpy.c_function as cfc
import nrpy.grid as gri
import nrpy.params as par
import nrpy.finite_difference as fin
import nrpy.infrastructures.BHaH.numerical_grids_and_timestep  # CodeParameters
from nrpy.infrastructures.BHaH import griddata_commondata
from nrpy.infrastructures.BHaH.MoLtimestepping import MoL
from nrpy.infrastructures.BHaH.MoLtimestepping.RK_Butcher_Table_Dictionary import generate_Butcher_tables

# Orders are the methods' published orders, not read from the repository.
ORDER = {
    "Euler": 1, "RK2 Heun": 2, "RK2 MP": 2, "RK2 Ralston": 2, "RK3": 3, "RK3 Heun": 3,
    "RK3 Ralston": 3, "SSPRK3": 3, "RK4": 4, "DP5": 5, "DP5alt": 5, "CK5": 5, "DP6": 6, "L6": 6, "DP8": 8,
}


# ---- rooted trees and order conditions
def trees(n):
    """All rooted trees with n nodes as sorted nested tuples."""
    if n == 1:
        return [()]
    out = set()

    def forests(k, maxt):
        if k == 0:
            yield ()
            return
        for s in range(1, k + 1):
            for t in T[s]:
                key = (s, t)
                if maxt is not None and key > maxt:
                    continue
                for f in forests(k - s, key):
                    yield (t,) + f

    T = {s: trees(s) for s in range(1, n)}
    for f in forests(n - 1, None):
        out.add(tuple(sorted(f)))
    return sorted(out)


def size(t):
    return 1 + sum(size(c) for c in t)


def gamma(t):
    g = size(t)
    for c in t:
        g *= gamma(c)
    return g


def phi(t, A):
    """vector of elementary weights."""
    s = len(A)
    v = [mp.mpf(1)] * s
    for c in t:
        u = phi(c, A)
        for i in range(s):
            v[i] *= mp.fsum(A[i][j] * u[j] for j in range(s))
    return v


def tableau(tab):
    s = len(tab) - 1
    num = lambda x: mp.mpf(0) if x == "" else mp.mpf(sp.N(sp.sympify(x), 60))
    A = [[num(tab[i][j + 1]) if j + 1 < len(tab[i]) else mp.mpf(0) for j in range(s)] for i in range(s)]
    b = [num(tab[s][j + 1]) if j + 1 < len(tab[s]) else mp.mpf(0) for j in range(s)]
    c = [num(tab[i][0]) for i in range(s)]
    return A, b, c


def check_orders(m):
    mp.mp.dps = 40
    B = generate_Butcher_tables()
    cond = {n: trees(n) for n in range(1, 9)}
    for meth, p in ORDER.items():
        if meth not in B:
            m.violation("method-missing", f"MoL method {meth} is no longer offered")
            continue
        tab, declared = B[meth]
        if declared != p:
            m.violation("declared-order", f"{meth}: declared order {declared}, method is order {p}")
        A, b, c = tableau(tab)
        for i in range(len(c)):
            if abs(mp.fsum(A[i]) - c[i]) > mp.mpf(10) ** -12:
                m.violation("row-sum", f"{meth}: stage {i+1} time offset {c[i]} != sum a_ij {mp.fsum(A[i])}")
            m.observe((meth, "row", i))
        for n in range(1, p + 1):
            for t in cond[n]:
                lhs = mp.fsum(bi * vi for bi, vi in zip(b, phi(t, A)))
                if abs(lhs - mp.mpf(1) / gamma(t)) > mp.mpf(10) ** -11:
                    m.violation("order-condition", f"{meth}: order-{n} condition for tree {t} off by {mp.nstr(lhs - mp.mpf(1)/gamma(t),5)}")
                m.observe((meth, "tree", repr(t)))
                m.count("order conditions")


# ---- execution of generated code
PRE = r"""
static int nrhs=0;
// y_t at interior points: nonlinear, time dependent, uses x-, y- and z-neighbours (incl. ghosts).
void vrhs(const commondata_struct *restrict commondata, const params_struct *restrict params, const int grid, const REAL *restrict in, REAL *restrict out) {
  const int N0=params->Nxx_plus_2NGHOSTS0,N1=params->Nxx_plus_2NGHOSTS1,N2=params->Nxx_plus_2NGHOSTS2, G=NGHOSTS;
  const REAL t = commondata->time;
  printf("R %d %d %.17g %d\n", grid, commondata->nn, t, nrhs++);
  for(int gf=0;gf<NUM_EVOL_GFS;gf++) for(int k=G;k<N2-G;k++) for(int j=G;j<N1-G;j++) for(int i=G;i<N0-G;i++) {
    const int p = i+N0*(j+N1*(k+N2*gf));
    const int q = i+N0*(j+N1*(k+N2*((gf+1)%NUM_EVOL_GFS)));
    out[p] = C_A*sin(in[q]+t) + C_B*in[p]*in[p+1] - C_C*in[p-N0]*cos(1.3*t) + C_D*in[p+N0*N1]*(gf+1) - 0.1*in[p]*in[p] + 0.05*grid*t*t;
  }
}
// "boundary condition": every ghost is an affine function of an interior value.
void vpost(const commondata_struct *restrict commondata, const params_struct *restrict params, const int grid, REAL *restrict y) {
  const int N0=params->Nxx_plus_2NGHOSTS0,N1=params->Nxx_plus_2NGHOSTS1,N2=params->Nxx_plus_2NGHOSTS2, G=NGHOSTS;
  for(int gf=0;gf<NUM_EVOL_GFS;gf++) for(int k=0;k<N2;k++) for(int j=0;j<N1;j++) for(int i=0;i<N0;i++) {
    int I=i<G?G:(i>=N0-G?N0-G-1:i),J=j<G?G:(j>=N1-G?N1-G-1:j),K=k<G?G:(k>=N2-G?N2-G-1:k);
    if(I==i&&J==j&&K==k) continue;
    y[i+N0*(j+N1*(k+N2*gf))] = 0.5*y[I+N0*(J+N1*(K+N2*gf))] + 0.125*(i-I) + 0.0625*(j-J) - 0.03125*(k-K);
  }
}
"""


def ref_run(meth, B, grids, ng, ngf, coef, dt, t0, nn0, nsteps, y0):
    A, b, c = [[[float(x) for x in r] for r in q] if isinstance(q[0], list) else [float(x) for x in q] for q in tableau(B[meth][0])]
    s = len(b)
    ca, cb, cc, cd = coef

    def post(g, y):
        N0, N1, N2 = [n + 2 * ng for n in grids[g]]
        z = list(y)
        for gf in range(ngf):
            for k in range(N2):
                K = min(max(k, ng), N2 - ng - 1)
                for j in range(N1):
                    J = min(max(j, ng), N1 - ng - 1)
                    for i in range(N0):
                        I = min(max(i, ng), N0 - ng - 1)
                        if (I, J, K) != (i, j, k):
                            z[i + N0 * (j + N1 * (k + N2 * gf))] = 0.5 * y[I + N0 * (J + N1 * (K + N2 * gf))] + 0.125 * (i - I) + 0.0625 * (j - J) - 0.03125 * (k - K)
        return z

    def rhs(g, t, y):
        N0, N1, N2 = [n + 2 * ng for n in grids[g]]
        out = [0.0] * len(y)
        for gf in range(ngf):
            for k in range(ng, N2 - ng):
                for j in range(ng, N1 - ng):
                    for i in range(ng, N0 - ng):
                        p = i + N0 * (j + N1 * (k + N2 * gf))
                        q = i + N0 * (j + N1 * (k + N2 * ((gf + 1) % ngf)))
                        out[p] = ca * math.sin(y[q] + t) + cb * y[p] * y[p + 1] - cc * y[p - N0] * math.cos(1.3 * t) + cd * y[p + N0 * N1] * (gf + 1) - 0.1 * y[p] * y[p] + 0.05 * g * t * t
        return out

    hist = []
    ys = [list(y) for y in y0]
    t = t0
    for step in range(nsteps):
        new = []
        for g in range(len(grids)):
            ks = []
            y = ys[g]
            for i in range(s):
                yi = list(y)
                if i:
                    for j in range(i):
                        if A[i][j]:
                            a = dt * A[i][j]
                            kj = ks[j]
                            yi = [u + a * v for u, v in zip(yi, kj)]
                    yi = post(g, yi)
                ks.append(rhs(g, t + c[i] * dt, yi))
            yn = list(y)
            for i in range(s):
                if b[i]:
                    a = dt * b[i]
                    yn = [u + a * v for u, v in zip(yn, ks[i])]
            new.append(post(g, yn))
        ys = new
        t = (nn0 + step + 1) * dt
        hist.append(ys)
    return hist, [float(x) for x in c]


def run_case(arg):
    idx, meth = arg
    m = Monitor("C05")
    r = rng("mol", idx, meth)
    try:
        B = generate_Butcher_tables()
        ngf = r.choice([1, 2, 3])
        naux = r.choice([0, 1, 2])
        ngrids = r.choice([1, 2, 3])
        ng = r.choice([1, 2])
        par.set_parval_from_str("Infrastructure", "BHaH")
        par.set_parval_from_str("fd_order", 2 * ng)
        gri.register_gridfunctions(["uu", "vv", "ww"][:ngf], group="EVOL")
        if naux:
            gri.register_gridfunctions(["aa", "bb"][:naux], group="AUXEVOL")
        coef = [round(r.uniform(-1, 1), 3) for _ in range(4)]
        MoL.register_CFunctions(
            MoL_method=meth,
            rhs_string="vrhs(commondata, params, grid, RK_INPUT_GFS, RK_OUTPUT_GFS);",
            post_rhs_string="vpost(commondata, params, grid, RK_OUTPUT_GFS);",
            post_post_rhs_string="vpp(commondata);" if idx % 2 else "",
            enable_rfm_precompute=False,
            enable_curviBCs=False,
        )
        griddata_commondata.register_CFunction_griddata_free(enable_rfm_precompute=False, enable_CurviBCs=False)
        grids = [tuple(r.choice([1, 2, 3, 4]) for _ in range(3)) for _ in range(ngrids)]
        dt = r.choice([0.1, 0.05, 0.013, 0.2])
        nn0 = r.choice([0, 0, 7])
        t0 = nn0 * dt
        nsteps = 3
        y0 = []
        body = "commondata_struct commondata; griddata_struct *griddata=(griddata_struct*)malloc(sizeof(griddata_struct)*MAXNUMGRIDS);\n"
        body += "commondata_struct_set_to_default(&commondata);\n"
        body += f"commondata.NUMGRIDS={ngrids}; commondata.dt={dt!r}; commondata.nn={nn0}; commondata.nn_0={nn0}; commondata.t_0={t0!r}; commondata.time={t0!r}; params_struct_set_to_default(&commondata, griddata);\n"
        for g, n in enumerate(grids):
            N = [x + 2 * ng for x in n]
            for d in range(3):
                body += f"griddata[{g}].params.Nxx{d}={n[d]}; griddata[{g}].params.Nxx_plus_2NGHOSTS{d}={N[d]}; griddata[{g}].xx[{d}]=(REAL*)malloc(sizeof(REAL)*{N[d]});\n"
            tot = N[0] * N[1] * N[2] * ngf
            y = [r.uniform(-1, 1) for _ in range(tot)]
            y0.append(y)
            body += f"MoL_malloc_y_n_gfs(&commondata,&griddata[{g}].params,&griddata[{g}].gridfuncs); MoL_malloc_non_y_n_gfs(&commondata,&griddata[{g}].params,&griddata[{g}].gridfuncs);\n"
            body += f"{{ static const REAL init[] = {{{','.join(repr(v) for v in y)}}}; memcpy(griddata[{g}].gridfuncs.y_n_gfs, init, sizeof(init)); vpost(&commondata,&griddata[{g}].params,{g},griddata[{g}].gridfuncs.y_n_gfs); }}\n"
            if naux:
                body += f"for(int i=0;i<NUM_AUXEVOL_GFS*{tot//ngf};i++) griddata[{g}].gridfuncs.auxevol_gfs[i]=i;\n"
            # diagnostic storage must be real, distinct memory of one evolved level each
            body += f"for(int i=0;i<{tot};i++) {{ griddata[{g}].gridfuncs.diagnostic_output_gfs[i]=7; }} for(int i=0;i<{tot};i++) griddata[{g}].gridfuncs.diagnostic_output_gfs2[i]=8; if(griddata[{g}].gridfuncs.diagnostic_output_gfs[0]!=7 || griddata[{g}].gridfuncs.y_n_gfs[0]==8 || griddata[{g}].gridfuncs.y_n_gfs[0]==7) printf(\"DIAGALIAS\\n\");\n"
        body += f"for(int s=0;s<{nsteps};s++) {{ MoL_step_forward_in_time(&commondata, griddata); printf(\"T %.17g %d\\n\",commondata.time,commondata.nn);\n"
        for g, n in enumerate(grids):
            N = [x + 2 * ng for x in n]
            tot = N[0] * N[1] * N[2] * ngf
            body += f"printf(\"Y\"); for(int i=0;i<{tot};i++) printf(\" %.17g\", griddata[{g}].gridfuncs.y_n_gfs[i]); printf(\"\\n\");\n"
            if naux:
                body += f"for(int i=0;i<NUM_AUXEVOL_GFS*{tot//ngf};i++) if(griddata[{g}].gridfuncs.auxevol_gfs[i]!=i) printf(\"AUXCLOBBER\\n\");\n"
        body += "}\ngriddata_free(&commondata, griddata, true);\nprintf(\"PP %d\\n\", npp);\nreturn 0;\n"
        pre = PRE
        for nm, v in zip("ABCD", coef):
            pre = pre.replace("C_" + nm, f"({v!r})")
        pre += "int npp=0; void vpp(const commondata_struct *restrict commondata) { npp++; }\n"
        bhah.raw_main(body, prefunc=pre)
        d = scratch(f"mol{idx}")
        bhah.write_project(d)
        # declare the driver's own callbacks, as user code does
        hp = d / "BHaH_function_prototypes.h"
        hp.write_text(hp.read_text() + "\nvoid vrhs(const commondata_struct *restrict, const params_struct *restrict, const int, const REAL *restrict, REAL *restrict);\nvoid vpost(const commondata_struct *restrict, const params_struct *restrict, const int, REAL *restrict);\nvoid vpp(const commondata_struct *restrict);\n")
        desc = dict(method=meth, grids=grids, ngf=ngf, naux=naux, ng=ng, dt=dt, nn0=nn0)
    except Exception:
        tb = traceback.format_exc()
        if "/repo/" in tb:
            m.violation("exception", f"{meth}: {tb[-600:]}", tb)
            return m.part()
        raise
    rc, log = bhah.make(d, jobs=2)
    if rc:
        m.violation("no-compile", f"generated {meth} time stepper does not compile: {desc}", log[-3000:])
        return m.part()
    rc, out, err = bhah.run(d, timeout=120)
    san = bhah.san_report(rc, err)
    if san or rc:
        m.violation("sanitizer", f"{desc}: rc={rc} {san or err[-500:]}", san)
        return m.part()
    hist, c = ref_run(meth, B, grids, ng, ngf, coef, dt, t0, nn0, nsteps, [v for v in apply_post(y0, grids, ng, ngf)])
    R, T, Y, bad = [], [], [], []
    pp = 0
    for line in out.splitlines():
        f = line.split()
        if not f:
            continue
        if f[0] == "R":
            R.append((int(f[1]), int(f[2]), float(f[3])))
        elif f[0] == "T":
            T.append((float(f[1]), int(f[2])))
        elif f[0] == "Y":
            Y.append([float(x) for x in f[1:]])
        elif f[0] == "PP":
            pp = int(f[1])
        elif f[0] in ("DIAGALIAS", "AUXCLOBBER"):
            bad.append(f[0])
    for b_ in sorted(set(bad)):
        m.violation(b_, f"{desc}: {b_}")
    # trace: every stage evaluates the RHS once per grid at time t + c_i dt
    t = t0
    exp = []
    for st in range(nsteps):
        for ci in c:
            for g in range(ngrids):
                exp.append((g, nn0 + st, t + ci * dt))
        t = (nn0 + st + 1) * dt
    m.count("rhs evaluations traced", len(R))
    if len(R) != len(exp):
        m.violation("stage-count", f"{desc}: {len(R)} RHS evaluations, expected {len(exp)}")
    else:
        key = lambda x: (x[1], round(x[2], 10), x[0])
        for a, e in zip(sorted(R, key=key), sorted(exp, key=key)):
            if a[0] != e[0] or a[1] != e[1] or abs(a[2] - e[2]) > 1e-12 * max(1, abs(e[2])):
                m.violation("stage-time", f"{desc}: RHS evaluated at (grid,nn,t)={a}, tableau says {e}")
                break
    for st, (tt, nn) in enumerate(T):
        if nn != nn0 + st + 1 or abs(tt - (nn0 + st + 1) * dt) > 1e-13 * max(1, abs(tt)):
            m.violation("time-after-step", f"{desc}: after step {st+1}: time={tt} nn={nn}")
    if idx % 2 and pp != nsteps * len(c) and meth not in ("RK3 Heun", "RK3 Ralston", "SSPRK3"):
        # two post-RHS outputs are legitimate for low-storage RK3; elsewhere exactly one per stage
        m.violation("post-post-count", f"{desc}: post-post-RHS hook ran {pp} times for {len(c)} stages x {nsteps} steps")
    k = 0
    for st in range(nsteps):
        for g in range(ngrids):
            ref, got = hist[st][g], Y[k]
            k += 1
            sc = max(1.0, max(abs(x) for x in ref))
            err_ = max(abs(a - b_) for a, b_ in zip(ref, got)) if all(map(math.isfinite, got)) else float("inf")
            m.observe((meth, desc["ngf"], naux, ngrids, ng, st, g), n=len(ref), sample=dict(desc, step=st, grid=g, maxerr=err_) if st == 2 and g == 0 else None)
            m.count("state values compared", len(ref))
            if not err_ < 2e-11 * sc:
                m.violation("step-value", f"{desc}: step {st+1} grid {g}: generated state differs from the RK step by {err_:.3e} (scale {sc:.2g})")
                return m.part()
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    return m.part()


def apply_post(y0, grids, ng, ngf):
    for g, y in enumerate(y0):
        N0, N1, N2 = [n + 2 * ng for n in grids[g]]
        z = list(y)
        for gf in range(ngf):
            for k in range(N2):
                K = min(max(k, ng), N2 - ng - 1)
                for j in range(N1):
                    J = min(max(j, ng), N1 - ng - 1)
                    for i in range(N0):
                        I = min(max(i, ng), N0 - ng - 1)
                        if (I, J, K) != (i, j, k):
                            z[i + N0 * (j + N1 * (k + N2 * gf))] = 0.5 * y[I + N0 * (J + N1 * (K + N2 * gf))] + 0.125 * (i - I) + 0.0625 * (j - J) - 0.03125 * (k - K)
        yield z


def main():
    m = Monitor("C05", rule="distinct (method, state shape, step, grid) comparisons and (method, rooted tree) conditions")
    check_orders(m)
    reps = 3 if QUICK else 12
    args = [(rep * len(ORDER) + i, meth) for rep in range(reps) for i, meth in enumerate(ORDER)]
    for i, st, res in run_isolated(run_case, args, timeout=400):
        if st == "ok":
            m.merge(res)
        else:
            raise vlib.HarnessError(f"case {args[i]}: {st} {res}")
    m.require("state values compared", 500)
    m.require("order conditions", 100)
    m.finish()


vlib.main(main)
