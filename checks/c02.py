"""C02: SIMD kernels evaluate, in every lane and on every instruction set, to the SymPy expression."""
import traceback
import sympy as sp
import mpmath as mp
import vlib
from vlib import Monitor, run_isolated, rng, scratch, sh, quiet, QUICK, REPO
import exprgen
import nrpy.params as par
import nrpy.c_codegen as ccg

EPS = 2.0**-53
CPU = open("/proc/cpuinfo").read()
ISAS = {
    "scalar": ["-U__SSE2__", "-U__SSE3__", "-U__AVX__", "-U__AVX512F__"],
    "sse2": ["-msse2", "-mno-avx"],
    "sse3": ["-msse3", "-mno-avx"],
}
if " avx " in CPU:
    ISAS["avx_nofma"] = ["-mavx", "-mno-avx2", "-mno-fma"]
if " avx2 " in CPU and " fma " in CPU:
    ISAS["avx2_fma"] = ["-mavx2", "-mfma"]
if " avx512dq " in CPU:
    ISAS["avx512"] = ["-mavx512f", "-mavx512dq", "-mfma"]

# Transcendental intrinsics the header maps to Intel SVML (absent from gcc/clang) or leaves
# to the user are emulated lane by lane; everything else is the repository's own header.
EMU = r"""
typedef union { REAL_SIMD_ARRAY v; double d[simd_width]; } vu_;
static inline REAL_SIMD_ARRAY map1_(REAL_SIMD_ARRAY a, double (*f)(double)) { vu_ u; u.v = a; for (int i_=0;i_<simd_width;i_++) u.d[i_]=f(u.d[i_]); return u.v; }
#undef SinSIMD
#undef CosSIMD
#undef ExpSIMD
#define SinSIMD(a) map1_((a), sin)
#define CosSIMD(a) map1_((a), cos)
#define ExpSIMD(a) map1_((a), exp)
"""


def make_case(r, i):
    kind = r.random()
    g = exprgen.Gen(r, nsyms=r.randint(2, 6), simd=True, rich=False)
    n = r.choice([1, 1, 1, 2, 3, 5])
    exprs = []
    for _ in range(n):
        if kind < 0.35:
            # flat polynomial sums of products: the food of the FMA / subtraction rewrites
            ts = []
            for _ in range(r.randint(2, 7)):
                t = sp.Mul(*[r.choice(g.syms) ** r.choice([1, 1, 1, 2, 3]) for _ in range(r.randint(1, 3))])
                t *= r.choice([1, 1, -1, -1, 2, sp.Rational(1, 3), -sp.Rational(2, 5), -2])
                if r.random() < 0.2:
                    t /= r.choice(g.syms) ** 2 + 1
                ts.append(t)
            e = sp.Add(*ts)
            if r.random() < 0.25:
                e = e * r.choice(g.syms)
            if r.random() < 0.2:
                e = e * sp.Add(*ts[:2]) - ts[0]
        elif kind < 0.45:
            s, t = r.choice(g.syms), r.choice(g.syms)
            e = r.choice([1, -1]) * (s**2 + r.randint(1, 4)) ** r.choice([sp.Rational(p, 2) for p in (-5, -3, -1, 1)] + [-1, -2, -3, -4])
            if r.random() < 0.5:
                e = e * t + r.choice([s, -s, t * s, -t * s])
        else:
            e = g.expr(r.choice([1, 2, 2, 3, 3]))
        e = sp.sympify(e)
        while any(not p.free_symbols for p in e.atoms(sp.Pow, sp.Function)) or any(p.exp.is_Rational and not p.exp.is_Integer and p.exp not in (sp.Rational(1, 2), -sp.Rational(1, 2), -sp.Rational(3, 2), -sp.Rational(5, 2)) for p in e.atoms(sp.Pow)) or e.has(sp.zoo, sp.nan, sp.oo, sp.I) or e.count_ops() > 160 or any(abs(q.p) > 10**7 or q.q > 10**7 for q in e.atoms(sp.Rational)):
            e = sp.sympify(g.expr(2))
        if not e.free_symbols and n == 1:
            e = e + g.syms[0]
        exprs.append(e)
    kw = dict(enable_simd=True)
    if r.random() < 0.3:
        kw["enable_GoldenKernels"] = True
    else:
        kw["enable_cse_preprocess"] = r.random() < 0.5
        kw["simd_find_more_subs"] = r.random() < 0.5
        kw["simd_find_more_FMAsFMSs"] = r.random() < 0.6
    if r.random() < 0.3:
        kw["simd_clean_NegativeOnes_after_processing"] = True
    if r.random() < 0.3:
        kw["cse_varprefix"] = r.choice(["FOO", "RHS_"])
    kw["cse_sorting"] = r.choice(["canonical", "none"])
    kw["verbose"] = False
    kw["include_braces"] = r.random() < 0.5
    return dict(exprs=exprs, syms=g.syms, kw=kw, infra=r.choice(["BHaH", "ETLegacy", "CarpetX"]))


def batch(arg):
    bid, nk = arg
    mon = Monitor("C02")
    cases, srcs = [], []
    for i in range(nk):
        r = rng("c02", bid, i)
        try:
            with vlib.time_limit(8):
                c = make_case(r, i)
        except vlib.SlowCase:
            mon.count("slow_cases_abandoned")
            continue
        par.set_parval_from_str("Infrastructure", c["infra"])
        c["desc"] = f"batch {bid} kernel {i}: exprs={[str(e) for e in c['exprs']]} opts={c['kw']} infra={c['infra']}"
        out = [f"const REAL_SIMD_ARRAY o{j}" for j in range(len(c["exprs"]))]
        try:
            with quiet(), vlib.time_limit(30):
                kw = dict(c["kw"])
                kw["poststring"] = "".join(f"WriteSIMD(&out[{j}*simd_width], o{j});\n" for j in range(len(out)))
                code = ccg.c_codegen(list(c["exprs"]), out, **kw)
        except vlib.SlowCase:
            mon.count("slow_cases_abandoned")
            continue
        except Exception as ex:
            tb = traceback.format_exc()
            if "/repo/" not in tb:
                raise
            mon.violation("generator-exception:" + type(ex).__name__, f"c_codegen raised {ex!r}: {c['desc']}", tb)
            continue
        ins = "".join(f"const REAL_SIMD_ARRAY {s.name} = ReadSIMD(&in[{k}*simd_width]); (void){s.name};\n" for k, s in enumerate(c["syms"]))
        c["k"], c["src"] = i, f"static void k{i}(const double *in, double *out) {{\n{ins}{code}\n}}\n"
        W = 8
        c["pts"] = [[float(round(r.uniform(r.choice([0.2, -2.0]), 2.0) * 65536)) / 65536 or 0.5 for _ in c["syms"]] for _ in range(W)]
        cases.append(c)
    head = "#define REAL double\n#include <math.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include \"simd_intrinsics.h\"\n" + EMU
    body = head + "".join(c["src"] for c in cases) + "int main(void){\n"
    for c in cases:
        ns, no = len(c["syms"]), len(c["exprs"])
        arr = ",".join("{" + ",".join(repr(p[k]) for p in c["pts"]) + "}" for k in range(ns))
        body += (
            f"{{ static const double P[{ns}][8]={{{arr}}}; for(int b=0;b<8;b+=simd_width){{ double in[{ns}*simd_width], out[{no}*simd_width];"
            f" for(int s=0;s<{ns};s++) for(int l=0;l<simd_width;l++) in[s*simd_width+l]=P[s][b+l];"
            f" k{c['k']}(in,out); for(int l=0;l<simd_width;l++){{ for(int j=0;j<{no};j++) printf(\"%.17g \",out[j*simd_width+l]); printf(\"\\n\"); }} }} }}\n"
        )
    body += "return 0;}\n"
    d = scratch(f"s{bid}")
    (d / "simd_intrinsics.h").write_text((REPO / "nrpy/helpers/simd_intrinsics.h").read_text())
    (d / "k.c").write_text(body)
    names = list(ISAS)
    # every batch runs on two instruction sets; all are covered across batches
    for isa in {names[bid % len(names)], names[(bid * 2 + 3) % len(names)]}:
        fl = ISAS[isa]
        rc, so, se = sh(["gcc", "-O1", "-std=gnu99", "-w"] + fl + ["-o", f"k_{isa}", "k.c", "-lm"], cwd=d, timeout=240)
        if rc != 0:
            for c in cases:
                (d / "o.c").write_text(head + c["src"] + "int main(void){return 0;}")
                rc2, _, se2 = sh(["gcc", "-O0", "-std=gnu99", "-w"] + fl + ["-c", "-o", "o.o", "o.c"], cwd=d)
                if rc2:
                    mon.violation("kernel-does-not-compile", f"[{isa}] {c['desc']}\n{se2[:800]}", c["src"])
                    break
            else:
                mon.violation("header-does-not-compile:" + isa, se[:1500])
            continue
        rc, so, se = sh([f"./k_{isa}"], cwd=d, timeout=60)
        if rc != 0:
            mon.violation("kernel-crash", f"[{isa}] batch {bid} rc={rc} {se[:500]}")
            continue
        lines = so.splitlines()
        li = 0
        for c in cases:
            bad = False
            for vals in c["pts"]:
                got = lines[li].split()
                li += 1
                if bad:
                    continue
                ev = exprgen.Eval({s.name: v for s, v in zip(c["syms"], vals)}, EPS)
                for j, e in enumerate(c["exprs"]):
                    try:
                        v, er = ev(e)
                    except exprgen.Undefined:
                        mon.count("points_undefined")
                        continue
                    if er > 1e-6 * max(abs(v), mp.mpf(10) ** -6):
                        mon.count("points_illconditioned")
                        continue
                    mon.count("lanes_compared_" + isa)
                    mon.count("lanes_compared")
                    gv = mp.mpf(got[j]) if "n" not in got[j] else None
                    tol = 5000 * er + mp.mpf(10) ** -14
                    if gv is None or abs(gv - v) > tol:
                        mon.violation("wrong-value", f"[{isa}] {c['desc']}\n output {j} = {e} at {dict(zip([s.name for s in c['syms']], vals))}: SIMD={got[j]} expected={mp.nstr(v, 20)} tol={mp.nstr(tol,3)}", c["src"])
                        bad = True
                        break
            mon.observe(key=(isa + str(c["exprs"]) + str(sorted(c["kw"].items()))) if any(e.count_ops() >= 2 for e in c["exprs"]) else None,
                        sample=c["desc"][:500] if c["k"] == 2 else None)
    return mon.part()


HDR = r"""
#define REAL double
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include "simd_intrinsics.h"
int main(void){
  double v[24]; for(int i=0;i<24;i++) v[i]=((i*7)%11-5)*0.37+0.01*i;
  double o[8];
  REAL_SIMD_ARRAY a=ReadSIMD(&v[0]), b=ReadSIMD(&v[8]), c=ReadSIMD(&v[16]);
  const REAL_SIMD_ARRAY upwind_Integer_0=ConstSIMD(0.0); const REAL_SIMD_ARRAY upwind_Integer_1=ConstSIMD(1.0);
  (void)upwind_Integer_0; (void)upwind_Integer_1;
#define OUT(n,x) WriteSIMD(o,x); for(int l=0;l<simd_width;l++) printf("%s %d %.17g\n",n,l,o[l]);
  OUT("Add",AddSIMD(a,b)) OUT("Sub",SubSIMD(a,b)) OUT("Mul",MulSIMD(a,b)) OUT("Div",DivSIMD(a,b))
  OUT("FMA",FusedMulAddSIMD(a,b,c)) OUT("FMS",FusedMulSubSIMD(a,b,c)) OUT("NFMA",NegFusedMulAddSIMD(a,b,c)) OUT("NFMS",NegFusedMulSubSIMD(a,b,c))
  OUT("Abs",AbsSIMD(a)) OUT("Sqrt",SqrtSIMD(MulSIMD(a,a))) OUT("Const",ConstSIMD(2.75)) OUT("Zero",SetZeroSIMD) OUT("Up",UPWIND_ALG(a)) OUT("Up0",UPWIND_ALG(SubSIMD(a,a)))
  double h=HorizAddSIMD(a); printf("HAdd %d %.17g\n",simd_width,h);
  return 0; }
"""


def header(_):
    """Every macro of the repository's SIMD header, on every instruction set, lane by lane."""
    mon = Monitor("C02")
    d = scratch("hdr")
    (d / "simd_intrinsics.h").write_text((REPO / "nrpy/helpers/simd_intrinsics.h").read_text())
    (d / "h.c").write_text(HDR)
    v = [((i * 7) % 11 - 5) * 0.37 + 0.01 * i for i in range(24)]
    for isa, fl in ISAS.items():
        for opt in ("-O0", "-O2"):
            rc, so, se = sh(["gcc", opt, "-std=gnu99", "-w"] + fl + ["-o", "h", "h.c", "-lm"], cwd=d)
            if rc:
                mon.violation("header-does-not-compile:" + isa, se[:1500])
                continue
            rc, so, se = sh(["./h"], cwd=d)
            n = 0
            for line in so.splitlines():
                op, l, x = line.split()
                l, x = int(l), float(x)
                if op == "HAdd":
                    exp = sum(v[:l])
                else:
                    a, b, c = v[l], v[8 + l], v[16 + l]
                    exp = {"Add": a + b, "Sub": a - b, "Mul": a * b, "Div": a / b, "FMA": a * b + c, "FMS": a * b - c, "NFMA": c - a * b,
                           "NFMS": -a * b - c, "Abs": abs(a), "Sqrt": abs(a), "Const": 2.75, "Zero": 0.0, "Up": 1.0 if a > 0 else 0.0, "Up0": 0.0}[op]
                n += 1
                mon.observe(key=f"hdr {isa} {op} {l}")
                mon.count("header_lane_ops")
                if not abs(x - exp) < 1e-13:
                    mon.violation(f"header-op:{isa}:{op}", f"{isa} {opt}: {op}SIMD lane {l} = {x}, expected {exp}")
            if n < 15 and rc != 0:
                mon.violation("header-crash:" + isa, se[:500])
    return mon.part()


def dispatch(a):
    return header(a) if a[0] == "hdr" else batch(a)


def main():
    mon = Monitor("C02", "exploration",
                  "random SymPy expressions (flat sums of products, powers, nested) x SIMD generator options, compiled against the repository's SIMD header for each instruction set the CPU has; every lane holds a different point and is compared with a 40-digit evaluation; non-trivial: distinct (instruction set, expressions, options) with >=2 operations")
    nb = 36 if QUICK else 360
    for i, st, p in run_isolated(dispatch, [("hdr", 0)] + [(b, 24) for b in range(nb)], timeout=600, deadline=100 if QUICK else 3000):
        if st == "ok":
            mon.merge(p)
        else:
            raise vlib.HarnessError(f"batch {i}: {st} {p}")
    mon.require("lanes_compared", 3000)
    mon.require("header_lane_ops", 50)
    mon.assumptions = ["Sin/Cos/ExpSIMD map to Intel SVML, absent from gcc, and are emulated per lane; expressions needing intrinsics the header does not define at all (log, cbrt, general powers, irrational constants) fail to compile loudly and are outside the supported set"]
    mon.finish({"instruction_sets": list(ISAS)})


vlib.main(main)
