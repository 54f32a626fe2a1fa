"""C03: generated finite-difference kernels apply exactly the stencils the expressions ask for."""
import itertools
import traceback
from fractions import Fraction as F
import sympy as sp
import mpmath as mp
import vlib
from fdsten import stencil, lagrange_weights, binom
from vlib import Monitor, run_isolated, rng, scratch, sh, quiet, QUICK, REPO
import exprgen
import nrpy.params as par
import nrpy.grid as gri
import nrpy.indexedexp as ixp
import nrpy.c_codegen as ccg
import nrpy.finite_difference as fin

CPU = open("/proc/cpuinfo").read()
ISAS = [["-U__SSE2__", "-U__SSE3__", "-U__AVX__", "-U__AVX512F__"], ["-msse2", "-mno-avx"]]
if " avx2 " in CPU and " fma " in CPU:
    ISAS.append(["-mavx2", "-mfma"])
if " avx512dq " in CPU:
    ISAS.append(["-mavx512f", "-mavx512dq", "-mfma"])


def opfactors(op):
    name = op.rstrip("0123456789")
    return [int(c) for c in op[len(name):]]


# ---------------------------------------------------------------- case generation
SCALARS = ["uu", "vv", "alpha", "trK", "cf", "W", "psi_re", "E", "S", "beta", "Ntwo", "zeta", "aux_q"]
VECS = ["vetU", "betU", "lambdaU", "AD", "SD"]
TENS = ["hDD", "aDD", "gUU", "KDD"]


def make_case(r, infra, simd):
    c = dict(infra=infra, simd=simd)
    gri.glb_gridfcs_dict.clear()
    par.glb_code_params_dict.clear()
    par.set_parval_from_str("Infrastructure", infra)
    c["order"] = r.choice([2, 2, 2, 4, 4, 4, 4, 6, 6, 6, 8, 8, 10] if not QUICK else [2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 8, 8, 10])
    par.set_parval_from_str("fd_order", c["order"])
    reg = []  # (basename, rank, symbol-array)
    groups = ["EVOL", "EVOL", "EVOL", "AUXEVOL", "AUXEVOL"] + (["AUX"] if infra == "BHaH" else [])
    for nme in r.sample(SCALARS, r.randint(1, 3)):
        gri.register_gridfunctions(nme, group=r.choice(groups))
        reg.append((nme, 0, None))
    c["ctrl"] = None
    for nme in r.sample(VECS, r.randint(0, 2)):
        gri.register_gridfunctions_for_single_rank1(nme, group=r.choice(groups))
        reg.append((nme, 1, None))
    for nme in r.sample(TENS, r.choice([0, 0, 1, 2])):
        sym = r.choice(["sym01", "nosym"])
        if r.random() < 0.5:
            gri.register_gridfunctions_for_single_rank2(nme, symmetry=sym, group=r.choice(groups))
        else:
            gri.register_gridfunctions_for_single_rankN(nme, rank=2, symmetry=sym, group=r.choice(groups))
        reg.append((nme, 2, sym))
    params = []
    if r.random() < 0.7:
        params = list(par.register_CodeParameters("REAL", "mod", ["eta", "sig", "lam"][: r.randint(1, 3)], 1.0)) if True else []
    c["params"] = [str(p) for p in params]
    names = sorted(gri.glb_gridfcs_dict)
    c["gfs"] = names
    upw = None
    ctrlname = next((b for b, k, _ in reg if k == 1 and b.endswith("U")), None)
    if ctrlname and r.random() < 0.6:
        ctrl = [sp.Symbol(f"{ctrlname}{i}", real=True) for i in range(3)]
        if params and r.random() < 0.3:
            # the control vector is documented as symbols; plain products of symbols are what BSSN passes with SIMD
            ctrl = [ctrl[i] * params[0] for i in range(3)] if simd else [ctrl[i] * (2 + params[0] ** 2) - (ctrl[(i + 1) % 3] if r.random() < 0.3 else 0) for i in range(3)]
        upw = ctrl
    c["upw"] = upw

    def dsym(op_kind):
        b, rank, sym = r.choice(reg)
        idx = [r.randrange(3) for _ in range(rank)]
        if sym == "sym01":
            idx = sorted(idx)
        if op_kind == "dDD":
            d = sorted([r.randrange(3), r.randrange(3)])
            nm = f"{b}_dDD" + "".join(map(str, idx + d))
            op = "dDD" + "".join(map(str, d))
        else:
            d = [r.randrange(3)]
            nm = f"{b}_{op_kind}" + "".join(map(str, idx + d))
            op = op_kind + str(d[0])
        base = b + "".join(map(str, idx))
        return sp.Symbol(nm, real=True), base, op

    derivs = {}
    kinds = ["dD", "dD", "dDD", "dDD", "dKOD"]
    exprs = []
    gsyms = [sp.Symbol(n, real=True) for n in names]
    nexpr = r.choice([1, 1, 2, 3, 4])
    for _ in range(nexpr):
        terms = []
        for _ in range(r.randint(1, 5)):
            f = [sp.Integer(r.choice([1, 1, -1, 2, -3])) * r.choice([1, 1, sp.Rational(1, 3), sp.Rational(-2, 5)])]
            for _ in range(r.randint(1, 2)):
                u = r.random()
                if u < 0.75:
                    k = r.choice(kinds)
                    s, base, op = dsym(k)
                    derivs[s.name] = (base, op)
                    f.append(s)
                elif u < 0.9:
                    f.append(r.choice(gsyms))
                elif params:
                    f.append(r.choice(params))
            if upw is not None and r.random() < 0.6:
                s, base, op = dsym("dupD")
                derivs[s.name] = (base, op)
                f.append(s)
                f.append(upw[int(op[-1])])
            terms.append(sp.Mul(*f))
        e = sp.Add(*terms)
        if r.random() < 0.25:
            e = e / (r.choice(gsyms) ** 2 + 1)
        if r.random() < 0.1:
            e = r.choice(gsyms)
        exprs.append(e)
    if upw is not None:
        # every control-vector component used for upwinding occurs in the expressions (as in an advection term)
        extra = sum(set().union(*[sp.sympify(u).free_symbols for u in upw]) & set(gsyms), sp.Integer(0))
        exprs[0] = exprs[0] + extra
    c["exprs"] = exprs
    c["derivs"] = {k: v for k, v in derivs.items() if any(sp.Symbol(k, real=True) in e.free_symbols for e in exprs)}
    c["fdfun"] = r.random() < 0.5
    c["mem"] = r.choice(["210", "012"])
    c["golden"] = r.random() < 0.3
    c["fp"] = "double" if simd else r.choice(["double", "double", "double", "float", "long double"])
    return c


def emit(c, i, r):
    infra, simd = c["infra"], c["simd"]
    n = len(c["exprs"])
    rad = c["order"] // 2 + 1
    ng = rad
    N = [8 if simd else 2, 2, 1]
    Nt = [N[k] + 2 * ng for k in range(3)]
    c["ng"], c["N"], c["Nt"] = ng, N, Nt
    T = "REAL"
    if simd:
        out = [f"out[{j}*NOUT + pidx]" for j in range(n)]
    else:
        out = [f"out[{j}*NOUT + pidx]" for j in range(n)]
    kw = dict(enable_fd_codegen=True, enable_simd=simd, enable_fd_functions=c["fdfun"], mem_alloc_style=c["mem"], enable_GoldenKernels=c["golden"], fp_type=c["fp"])
    if c["upw"] is not None:
        kw["upwind_control_vec"] = list(c["upw"])
    code = ccg.c_codegen(list(c["exprs"]), out, **kw)
    pre = fin.construct_FD_functions_prefunc() if c["fdfun"] else ""
    rt = c["fp"]
    V = "REAL_SIMD_ARRAY" if simd else rt
    s = "#include <math.h>\n#include <stdlib.h>\n"
    s += f"#define REAL {rt}\n#define CCTK_REAL {rt}\n#define NO_INLINE __attribute__((noinline))\n#define CCTK_DEVICE\n#define CCTK_HOST\n"
    if simd:
        s += '#include "simd_intrinsics.h"\n'
    else:
        s += "#define UPWIND_ALG(UpwindVecU) ((UpwindVecU) > 0.0 ? 1.0 : 0.0)\n"
    s += f"enum {{ T0={Nt[0]}, T1={Nt[1]}, T2={Nt[2]} }};\n#define NOUT {N[0]*N[1]*N[2]}\n"
    args = []
    if infra == "BHaH":
        s += gri.BHaHGridFunction.gridfunction_defines()
        s += "#define IDX4(gf,i,j,k) ((i) + T0*((j) + T1*((k) + T2*(gf))))\n"
        args = ["in_gfs", "auxevol_gfs", "aux_gfs"]
        ev, ax, ae = gri.BHaHGridFunction.gridfunction_lists()
        c["arrays"] = [list(ev), list(ae), list(ax)]
    elif infra == "ETLegacy":
        s += "#define CCTK_GFINDEX3D(gh,i,j,k) ((i) + T0*((j) + T1*(k)))\n"
        args = [f"{g}GF" for g in c["gfs"]]
        c["arrays"] = [[g] for g in c["gfs"]]
    else:
        args = [f"{g}_data_" for g in c["gfs"]]
        for g in c["gfs"]:
            s += f"#define {g}GF(I) {g}_data_[I]\n"
        s += "struct pt_ { int I; int DI[3]; };\n"
        c["arrays"] = [[g] for g in c["gfs"]]
    s += pre
    s += f"void k{i}({rt} **arr, const {rt} *prm, {rt} *out) {{\n"
    for a, nm in enumerate(args):
        s += f"const {rt} *restrict {nm} = arr[{a}]; (void){nm};\n"
    for a, nm in enumerate(["invdxx0", "invdxx1", "invdxx2"] + c["params"]):
        s += f"const {V} {nm} = {'ConstSIMD(prm[%d])' % a if simd else 'prm[%d]' % a}; (void){nm};\n"
    step = "simd_width" if simd else "1"
    s += f"for(int i2={ng};i2<{ng+N[2]};i2++) for(int i1={ng};i1<{ng+N[1]};i1++) for(int i0={ng};i0<{ng+N[0]};i0+={step}) {{\n"
    s += f"const int pidx = (i0-{ng}) + {N[0]}*((i1-{ng}) + {N[1]}*(i2-{ng})); (void)pidx;\n"
    if infra == "CarpetX":
        s += "const struct pt_ p = { i0 + T0*(i1 + T1*i2), {1, T0, T0*T1} }; (void)p;\n"
    if infra == "ETLegacy":
        s += "const void *cctkGH = 0; (void)cctkGH;\n"
    s += code + "\n}\n}\n"
    return s


MAIN_HEAD = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static unsigned long long st_;
static double nxt(void){ st_ = st_*6364136223846793005ULL + 1442695040888963407ULL; return (double)((long long)((st_>>40) & 4095) - 2048)/1024.0; }
"""


def field(seed, n):
    st = seed
    out = []
    for _ in range(n):
        st = (st * 6364136223846793005 + 1442695040888963407) & (2**64 - 1)
        out.append(F(((st >> 40) & 4095) - 2048, 1024))
    return out


def batch(arg):
    bid, nk = arg
    mon = Monitor("C03")
    cases = []
    simd = bid % 3 == 2
    d = scratch(f"f{bid}")
    files = []
    for i in range(nk):
        r = rng("c03", bid, i)
        infra = r.choice(["BHaH", "BHaH", "ETLegacy", "CarpetX"])
        with quiet():
            c = make_case(r, infra, simd)
        c["desc"] = f"batch {bid} kernel {i}: infra={infra} simd={simd} order={c['order']} fdfun={c['fdfun']} upwind={c['upw']} fp={c['fp']} exprs={[str(e) for e in c['exprs']]}"
        try:
            with quiet(), vlib.time_limit(60):
                src = emit(c, i, r)
        except vlib.SlowCase:
            mon.count("slow_cases_abandoned")
            continue
        except Exception as ex:
            tb = traceback.format_exc()
            if "/repo/" not in tb:
                raise
            mon.violation("generator-exception:" + type(ex).__name__, f"c_codegen raised {ex!r}: {c['desc']}", tb)
            continue
        c["k"], c["src"] = i, src
        c["prm"] = [F(r.randint(1, 64), 16) for _ in range(3)] + [F(r.randint(-64, 64), 32) for _ in c["params"]]
        c["seed"] = r.getrandbits(60)
        (d / f"k{i}.c").write_text(src)
        files.append(f"k{i}.c")
        cases.append(c)
    (d / "simd_intrinsics.h").write_text((REPO / "nrpy/helpers/simd_intrinsics.h").read_text())
    m = MAIN_HEAD
    for c in cases:
        m += f"void k{c['k']}({c['fp']} **arr, const {c['fp']} *prm, {c['fp']} *out);\n"
    m += "int main(void){\n"
    for c in cases:
        npt = c["Nt"][0] * c["Nt"][1] * c["Nt"][2]
        nout = c["N"][0] * c["N"][1] * c["N"][2] * len(c["exprs"])
        rt = c["fp"]
        m += f"{{ {rt} *arr[{len(c['arrays'])}]; st_={c['seed']}ULL;\n"
        for a, gl in enumerate(c["arrays"]):
            m += f" arr[{a}] = ({rt}*)malloc(sizeof({rt})*{max(1,len(gl)*npt)}); for(int i=0;i<{len(gl)*npt};i++) arr[{a}][i]=({rt})nxt();\n"
        m += f" {rt} prm[]={{{','.join(repr(float(x)) for x in c['prm'])}}}; {rt} *out=({rt}*)malloc(sizeof({rt})*{nout}); for(int i=0;i<{nout};i++) out[i]=-7.25e30;\n"
        m += f" k{c['k']}(arr,prm,out); for(int i=0;i<{nout};i++) printf(\"%.21Lg \",(long double)out[i]); printf(\"\\n\");"
        m += "".join(f" free(arr[{a}]);" for a in range(len(c["arrays"]))) + " free(out); }\n"
    m += "return 0; }\n"
    (d / "main.c").write_text(m)
    cc = ["gcc", "clang"][bid % 2]
    fl = ISAS[(bid // 3) % len(ISAS)] if simd else []
    base = [cc, "-O1" if bid % 6 == 5 else "-O0", "-std=gnu99", "-w", "-Werror=implicit-function-declaration", "-fsanitize=address", "-fsanitize=undefined" if bid % 6 == 5 else "-fsanitize=bounds", "-fno-sanitize-recover=all"] + fl
    rc, so, se = sh(base + ["-o", "k", "main.c"] + files + ["-lm"], cwd=d, timeout=300)
    if rc != 0:
        for c in cases:
            rc2, _, se2 = sh(base + ["-c", "-o", "o.o", f"k{c['k']}.c"], cwd=d)
            if rc2:
                mon.violation("kernel-does-not-compile", f"{c['desc']}\n{se2[:800]}", c["src"])
                break
        else:
            raise vlib.HarnessError("does not link: " + se[:2000])
        return mon.part()
    rc, so, se = sh(["./k"], cwd=d, timeout=120, env=vlib.SAN_ENV)
    lines = so.splitlines()
    if rc != 0:
        k = len(lines)
        mon.violation("sanitizer", f"{cases[k]['desc'] if k < len(cases) else 'exit'}: rc={rc} {se[:1500]}", cases[k]["src"] if k < len(cases) else None)
    EPSD = {"double": 2.0**-53, "float": 2.0**-24, "long double": 2.0**-64}
    for c, line in zip(cases, lines):
        got = line.split()
        eps = EPSD[c["fp"]]
        Nt, N, ng = c["Nt"], c["N"], c["ng"]
        npt = Nt[0] * Nt[1] * Nt[2]
        vals = field(c["seed"], npt * sum(len(g) for g in c["arrays"]))
        fld, pos = {}, 0
        for gl in c["arrays"]:
            for g in gl:
                fld[g] = vals[pos:pos + npt]
                pos += npt
        prm = dict(zip(["invdxx0", "invdxx1", "invdxx2"] + c["params"], c["prm"]))
        inv = c["prm"][:3]
        bad = False
        pts = list(itertools.product(range(N[2]), range(N[1]), range(N[0])))
        r = rng("c03pts", bid, c["k"])
        if len(pts) > 6:
            pts = [pts[0], pts[-1]] + r.sample(pts, 4)
        for (p2, p1, p0) in pts:
            def at(g, o):
                return fld[g][(p0 + ng + o[0]) + Nt[0] * ((p1 + ng + o[1]) + Nt[1] * (p2 + ng + o[2]))]
            env = {k: mp.mpf(v.numerator) / v.denominator for k, v in prm.items()}
            for g in c["gfs"]:
                v = at(g, (0, 0, 0))
                env[g] = mp.mpf(v.numerator) / v.denominator

            def apply(base, op):
                s = b = F(0)
                for o, w in stencil(op, c["order"]).items():
                    x = w * at(base, o)
                    s += x
                    b += abs(x)
                f = F(1)
                for k in opfactors(op):
                    f *= inv[k]
                return s * f, b * f
            skip = False
            for nm, (base, op) in c["derivs"].items():
                if op.startswith("dupD"):
                    ctl = exprgen.Eval(env, eps)(sp.sympify(c["upw"][int(op[-1])]))
                    if ctl[0] != 0 and abs(ctl[0]) <= 50 * ctl[1]:
                        skip = True
                        break
                    s, b = apply(base, op if ctl[0] > 0 else op.replace("dup", "ddn"))
                    s2, b2 = apply(base, "dupD" + op[-1])
                    s3, b3 = apply(base, "ddnD" + op[-1])
                    b = b2 + b3
                else:
                    s, b = apply(base, op)
                env[nm] = (mp.mpf(s.numerator) / s.denominator, mp.mpf(b.numerator) / b.denominator * eps * (2 * c["order"] + 8))
            if skip:
                mon.count("points_ambiguous_upwind")
                continue
            ev = exprgen.Eval(env, eps)
            pidx = p0 + N[0] * (p1 + N[1] * p2)
            for j, e in enumerate(c["exprs"]):
                try:
                    v, er = ev(e)
                except exprgen.Undefined:
                    mon.count("points_undefined")
                    continue
                gv = got[j * N[0] * N[1] * N[2] + pidx]
                mon.count("values_compared")
                tol = 50 * er + mp.mpf(eps) * 10
                if "n" in gv or abs(mp.mpf(gv) - v) > tol:
                    ops = sorted({op.rstrip("012") for _, op in c["derivs"].values()})
                    mon.violation("wrong-fd-value:" + c["infra"] + (":simd" if c["simd"] else "") + (":fdfun" if c["fdfun"] else ""),
                                  f"{c['desc']}\noutput {j} at point {(p0, p1, p2)}: C={gv} expected={mp.nstr(v, 20)} tol={mp.nstr(tol, 3)} ops={ops}", c["src"])
                    bad = True
                    break
            if bad:
                break
        for _, op in c["derivs"].values():
            mon.count("op_" + op.rstrip("012"))
        mon.count("kernels_" + c["infra"] + ("_simd" if c["simd"] else "") + ("_fdfun" if c["fdfun"] else ""))
        mon.count(f"order_{c['order']}")
        mon.observe(key=c["desc"].split(":", 1)[1] if c["derivs"] else None, sample=c["desc"][:500] if c["k"] == 1 else None)
    return mon.part()


def coeffs(arg):
    """The coefficient API itself, including the fully one-sided operators and histories of calls."""
    mon = Monitor("C03")
    r = rng("c03co", arg)
    ops = [o + str(k) for o in ("dD", "dupD", "ddnD", "dfullupD", "dfulldnD", "dKOD") for k in range(3)]
    ops += [f"dDD{a}{b}" for a in range(3) for b in range(3)]
    jobs = [(o, p) for o in ops for p in ([2, 4, 6, 8, 10, 12, 14])]
    r.shuffle(jobs)
    for o, p in jobs:
        co, st = fin.compute_fdcoeffs_fdstencl(o, p)
        got = {}
        for cc, s in zip(co, st):
            q = sp.Rational(cc)
            got[tuple(s)] = got.get(tuple(s), F(0)) + F(int(q.p), int(q.q))
        got = {k: v for k, v in got.items() if v != 0}
        mon.observe(key=f"coeff {o} {p}")
        mon.count("coefficient_tables")
        if got != stencil(o, p):
            mon.violation("wrong-coefficients:" + o.rstrip("012"), f"{o} order {p}: got {got} expected {stencil(o, p)}")
    return mon.part()


def main():
    mon = Monitor("C03", "exploration",
                  "random gridfunction registries x expressions with derivative symbols x order/infrastructure/SIMD/FD-function options; every kernel compiled with ASan+UBSan on exactly-sized arrays of random data and compared pointwise with an exact-rational stencil oracle; non-trivial: contains a derivative; distinct by (expressions, options)")
    nb = 32 if QUICK else 480
    jobs = [("k", (b, 10)) for b in range(nb)] + [("c", b) for b in range(2 if QUICK else 6)]
    for i, st, p in run_isolated(lambda a: batch(a[1]) if a[0] == "k" else coeffs(a[1]), jobs, timeout=600, deadline=100 if QUICK else 3000):
        if st == "ok":
            mon.merge(p)
        else:
            raise vlib.HarnessError(f"job {i}: {st} {p}")
    for k in ("op_dD", "op_dDD", "op_dKOD", "op_dupD", "coefficient_tables"):
        mon.require(k, 20)
    mon.require("values_compared", 1000)
    mon.assumptions = ["upwind control-vector components also occur in the expressions, as in an advection term"]
    mon.finish()


vlib.main(main)
