"""C01: scalar C kernels evaluate to the SymPy expression they were generated from."""
import json
import random
import sympy as sp
import mpmath as mp
import vlib
from vlib import Monitor, run_isolated, rng, scratch, sh, quiet, QUICK
import exprgen
import nrpy.params as par
import nrpy.c_codegen as ccg

CT = {"double": ("double", 2.0**-53, 1e-6), "float": ("float", 2.0**-24, 2e-3),
      "long double": ("long double", 2.0**-64, 1e-9)}


def make_case(r, idx):
    fp = r.choice(["double", "double", "double", "float", "long double"])
    g = exprgen.Gen(r, nsyms=r.randint(2, 6))
    depth = r.choice([1, 2, 2, 3, 3, 4])
    n = r.choice([1, 1, 2, 3, 4, 6])
    exprs = []
    for _ in range(n):
        e = g.expr(depth)
        while e.has(sp.zoo, sp.nan, sp.oo, sp.I) or e.count_ops() > 220 or any(abs(q.p) > 10**7 or q.q > 10**7 for q in e.atoms(sp.Rational)):
            e = g.expr(2)
        exprs.append(sp.sympify(e))
    infra = r.choice(["NRPy", "BHaH", "ETLegacy", "CarpetX"])
    kw = dict(fp_type=fp)
    kw["enable_cse"] = r.random() < 0.85
    if kw["enable_cse"]:
        kw["cse_sorting"] = r.choice(["canonical", "none"])
        kw["enable_cse_preprocess"] = r.random() < 0.5
        if r.random() < 0.3:
            kw["cse_varprefix"] = r.choice(["FOO", "q_", "RHS"])
        if r.random() < 0.3:
            kw["enable_GoldenKernels"] = True
        if r.random() < 0.3:
            kw["rational_const_alias"] = "const"
    kw["include_braces"] = r.random() < 0.5
    kw["verbose"] = r.random() < 0.3
    if r.random() < 0.2:
        kw["fp_type_alias"] = "MYREAL"
    style = r.choice(["out", "decl", "ptr"])
    mode = r.random()
    subst, scal = {}, False
    if mode < 0.12:
        for s in g.syms:
            if r.random() < 0.6:
                subst[s.name] = r.choice(["_new", "_gf", "9"])
    elif mode < 0.27 and kw["enable_cse"] and n >= 2:
        scal = True
    return dict(fp=fp, exprs=exprs, syms=g.syms, infra=infra, kw=kw, style=style, subst=subst, scal=scal)


def emit(case, idx):
    """Run the real generator; return C function text."""
    fp, exprs, kw = case["fp"], case["exprs"], dict(case["kw"])
    n = len(exprs)
    par.set_parval_from_str("Infrastructure", case["infra"])
    style = case["style"]
    pre = post = ""
    if case["scal"]:
        # first outputs are scalar temporaries that the following ones refer to
        k = max(1, n // 2)
        tmps = [sp.Symbol(f"stmp_{i}", real=True) for i in range(k)]
        out = [t.name for t in tmps] + [f"out[{i}]" for i in range(k, n)]
        gen = list(exprs[:k]) + [e + (i + 2) * tmps[i % k] for i, e in enumerate(exprs[k:])]
        kw["SCALAR_TMP_varnames"] = [t.name for t in tmps]
        kw["SCALAR_TMP_sympyexprs"] = tmps
        case["ref"] = [None] * k + [e + (i + 2) * exprs[i % k] for i, e in enumerate(exprs[k:])]
        code = ccg.c_codegen(gen, out, **kw)
    else:
        if style == "out":
            out = [f"out[{i}]" for i in range(n)]
        elif style == "ptr":
            out = [f"*(p{i})" for i in range(n)]
        else:
            out = [f"const RT o{i}" for i in range(n)]
            kw["prestring"] = "/*pre*/"
            kw["poststring"] = "".join(f"out[{i}] = o{i};\n" for i in range(n))
        if case["subst"]:
            kw["postproc_substitution_dict"] = dict(case["subst"])
        if n == 1 and idx % 2:
            code = ccg.c_codegen(exprs[0], out[0], **kw)
        else:
            code = ccg.c_codegen(list(exprs), list(out), **kw)
        case["ref"] = exprs
    ins = ""
    for i, s in enumerate(case["syms"]):
        nm = s.name + case["subst"].get(s.name, "") if not case["scal"] else s.name
        ins += f"const RT {nm} = in[{i}]; (void){nm};\n"
    ptrs = "".join(f"RT *p{i} = &out[{i}]; (void)p{i};\n" for i in range(n))
    rt = CT[fp][0]
    return (
        f"#define RT {rt}\n#define REAL {rt}\n#define CCTK_REAL {rt}\n#define MYREAL {rt}\n"
        f"void k{idx}(const {rt} *in, {rt} *out) {{\n{ins}{ptrs}{code}\n}}\n"
        "#undef RT\n#undef REAL\n#undef CCTK_REAL\n#undef MYREAL\n"
    )


def batch(arg):
    bid, nk = arg
    mon = Monitor("C01")
    r = rng("c01", bid)
    cases, srcs = [], []
    for i in range(nk):
        r = rng("c01", bid, i)
        try:
            with vlib.time_limit(8):
                case = make_case(r, i)
        except vlib.SlowCase:
            mon.count("slow_cases_abandoned")
            continue
        desc = f"batch {bid} kernel {i}: exprs={[str(e) for e in case['exprs']]} opts={case['kw']} infra={case['infra']} subst={case['subst']} scalar_tmp={case['scal']}"
        case["desc"] = desc
        try:
            with quiet(), vlib.time_limit(20):
                srcs.append(emit(case, i))
        except vlib.SlowCase:
            mon.count("slow_cases_abandoned")
            continue
        except Exception as ex:
            import traceback
            tb = traceback.format_exc()
            if "/repo/" not in tb:
                raise
            mon.violation("generator-exception:" + type(ex).__name__ + (":subst" if case["subst"] else ""),
                          f"c_codegen raised {ex!r} on a valid request; {desc}", tb)
            continue
        case["k"] = i
        cases.append(case)
    npt = 5
    main = ["#include <math.h>\n#include <stdio.h>\n#include <stdlib.h>\n"]
    main += srcs
    main.append("int main(void){\n")
    for c in cases:
        c["pts"] = []
        rt = CT[c["fp"]][0]
        for _ in range(npt):
            lo = r.choice([0.2, -2.0, -2.0])
            vals = [round(r.uniform(lo, 2.0), 3) or 0.5 for _ in c["syms"]]
            if rt == "float":
                vals = [float(round(v * 128)) / 128 or 0.5 for v in vals]
            else:
                vals = [float(round(v * 65536)) / 65536 or 0.5 for v in vals]
            c["pts"].append(vals)
            n = len(c["exprs"])
            main.append(
                f"{{ {rt} in[]={{{','.join(repr(v) for v in vals)}}}; {rt} out[{n}]; for(int i=0;i<{n};i++) out[i]=-7.25e30;\n k{c['k']}(in,out); for(int i=0;i<{n};i++) printf(\"%.21Lg \",(long double)out[i]); printf(\"\\n\"); }}\n"
            )
    main.append("return 0;}\n")
    d = scratch(f"b{bid}")
    (d / "k.c").write_text("".join(main))
    cc = ["gcc", "clang"][bid % 2]
    rc, so, se = sh([cc, "-O1", "-std=gnu99", "-w", "-D_GNU_SOURCE", "-Werror=implicit-function-declaration", "-fsanitize=undefined", "-fno-sanitize-recover=all", "-o", "k", "k.c", "-lm"], cwd=d, timeout=240)
    if rc != 0:
        # isolate the kernel
        for c, s in zip(cases, srcs):
            (d / "o.c").write_text("#include <math.h>\n#include <stdlib.h>\n" + s)
            rc2, _, se2 = sh([cc, "-O0", "-std=gnu99", "-w", "-D_GNU_SOURCE", "-Werror=implicit-function-declaration", "-c", "-o", "o.o", "o.c"], cwd=d)
            if rc2:
                mon.violation("kernel-does-not-compile", f"{c['desc']}\n{se2[:800]}", s)
                break
        else:
            raise vlib.HarnessError("batch does not compile: " + se[:2000])
        return mon.part()
    rc, so, se = sh(["./k"], cwd=d, timeout=60)
    if rc != 0:
        mon.violation("ubsan", f"batch {bid}: generated kernel stopped by the sanitizer rc={rc}: {se[:1500]}")
        return mon.part()
    lines = so.splitlines()
    li = 0
    for c in cases:
        rt, eps, reltol = CT[c["fp"]]
        for vals in c["pts"]:
            got = lines[li].split()
            li += 1
            ev = exprgen.Eval({s.name: v for s, v in zip(c["syms"], vals)}, eps)
            for j, e in enumerate(c["ref"]):
                if e is None:
                    continue
                try:
                    v, er = ev(sp.sympify(e))
                except exprgen.Undefined:
                    mon.count("points_undefined")
                    continue
                if er > reltol * max(abs(v), mp.mpf(10) ** -6):
                    mon.count("points_illconditioned")
                    continue
                gv = mp.mpf(got[j]) if "n" not in got[j] else None
                tol = 2000 * er + mp.mpf(eps) * 100
                mon.count("values_compared")
                if gv is None or abs(gv - v) > tol:
                    mon.violation("wrong-value:" + ("scalartmp" if c["scal"] else "subst" if c["subst"] else c["fp"]),
                                  f"{c['desc']}\n output {j} = {e}\n at {dict(zip([s.name for s in c['syms']], vals))}: C={got[j]} expected={mp.nstr(v, 20)} tol={mp.nstr(tol, 3)}",
                                  srcs[cases.index(c)])
                    break
        ops = sum(sp.sympify(e).count_ops() for e in c["exprs"])
        mon.observe(key=(str(c["exprs"]) + str(sorted(c["kw"].items())) + c["infra"]) if ops >= 3 else None,
                    sample=c["desc"][:600] if c["k"] == 3 else None)
        mon.count("kernels_" + c["fp"].replace(" ", "_"))
        if c["scal"]:
            mon.count("kernels_scalar_tmp")
        if c["subst"]:
            mon.count("kernels_with_substitution")
    return mon.part()


def main():
    mon = Monitor("C01", "exploration",
                  "random SymPy expression lists x random generator options; each generated kernel is compiled (gcc/clang, UBSan) and run at 5 random points against a 40-digit evaluation with a forward error bound; non-trivial: >=3 operations, distinct (expressions, options, infrastructure)")
    nb = 40 if QUICK else 400
    for i, st, p in run_isolated(batch, [(b, 24) for b in range(nb)], timeout=400, deadline=90 if QUICK else 3000):
        if st == "ok":
            mon.merge(p)
        else:
            raise vlib.HarnessError(f"batch {i}: {st} {p}")
    mon.require("values_compared", 1000)
    mon.require("kernels_scalar_tmp", 10)
    mon.assumptions = ["libm of the sandbox is accurate to a few ulp", "kernel inputs are real and expressions are evaluated away from branch edges"]
    mon.finish()


vlib.main(main)
