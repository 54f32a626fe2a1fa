"""C11: code generation is reproducible: parallel == serial, any schedule, hash seed, cache state, directory."""
import hashlib
import io
import os
import traceback
from collections import Counter
from pathlib import Path
import vlib
from vlib import Monitor, run_isolated, rng, scratch, QUICK
import bhah
import pcgtasks
import nrpy.c_function as cfc
import nrpy.grid as gri
import nrpy.helpers.parallel_codegen as pcg
import nrpy.params as par

EX_QUICK = ["wave_equation_curvilinear", "wave_equation_multicoord_wavetoy", "nrpyelliptic_conformally_flat", "carpet_wavetoy_thorns", "carpetx_wavetoy_thorns", "nrpypn_quasicircular_momenta"]
EX_MORE = ["seobnrv5_aligned_spin_inspiral", "superB_nrpyelliptic_conformally_flat", "wave_equation_cartesian"]
# BSSN kernels: common subexpressions may be named in another order, so only a text comparison between parallel runs is made
EX_BSSN = ["two_blackholes_collide", "spinning_blackhole", "hydro_without_hydro", "blackhole_spectroscopy"]


def plan(k):
    r = rng("c11", k)
    n = r.choice([1, 2, 3, 8, 9, 17, 30])
    T = []
    for i in range(n):
        d = r.choice([0, 0, r.uniform(0, 0.05), r.uniform(0, 0.2)])
        if r.random() < 0.3:
            T.append(("plain", (i, d)))
        else:
            gd = [(r.choice(["grid", "common", "def", "adjust", "nparam"]), r.choice(["shared_mod", f"own{i}", "shared_b"]), j) for j in range(r.choice([0, 1, 3]))]
            T.append(("kernel", (i, d, r.randint(0, 3), r.randint(0, 4), r.randint(0, 3), gd, "")))
    fail = None
    if k % 4 == 3:
        cand = [i for i, t in enumerate(T) if t[0] == "kernel"]
        if cand:
            fail = r.choice(cand)
            a = list(T[fail][1])
            a[6] = r.choice(["value", "key"])
            T[fail] = ("kernel", tuple(a))
    return T, fail, r.choice([1, 2, 3, 8, 16])


def snapshot(d):
    """everything a project generator consumes from the registries, independent of registration order"""
    S = {}
    for n, c in cfc.CFunction_dict.items():
        S["F " + n] = (c.function_prototype, c.full_function, c.subdirectory)
    for n, g in gri.glb_gridfcs_dict.items():
        S["G " + n] = tuple(sorted((a, str(v)) for a, v in vars(g).items()))
    for n, p in par.glb_code_params_dict.items():
        S["P " + n] = tuple(sorted((a, str(v)) for a, v in vars(p).items()))
    for n, p in par.glb_params_dict.items():
        if not n.startswith("parallel_codegen"):
            S["N " + n] = (str(p.value),)
    for a, sub in par.glb_extras_dict.items():
        for b, v in sub.items():
            S[f"X {a} {b}"] = tuple(sorted(str(vars(x)) for x in v)) if isinstance(v, list) else (str(v),)
    bhah.raw_main("return 0;\n")
    bhah.write_project(d)
    for f in sorted(Path(d).rglob("*")):
        if f.is_file():
            S["file " + str(f.relative_to(d))] = f.read_text()
    return S


def one(arg):
    k, mode = arg
    import logging
    import multiprocess
    logging.disable(logging.CRITICAL)
    T, fail, nproc = plan(k)
    d = scratch(f"c11_{k}_{mode}")
    pcgtasks.LOG = str(d / "LOG")
    exc = None
    with vlib.quiet():
        par.set_parval_from_str("parallel_codegen_enable", mode == "parallel")
        os.cpu_count = lambda: nproc
        try:
            pcgtasks.base()
            for name, a in T:
                getattr(pcgtasks, name)(*a)
            pcg.do_parallel_codegen()
        except Exception as e:
            exc = traceback.format_exc()
    log = Counter((d / "LOG").read_text().splitlines()) if (d / "LOG").exists() else Counter()
    if exc is not None:
        return dict(exc=exc, log=log)
    pcgtasks.LOG = None
    return dict(S=snapshot(d / "p"), log=log)


def tree(d):
    H = {}
    for f in sorted(Path(d).rglob("*")):
        if f.is_file() and f.suffix != ".log":
            H[str(f.relative_to(d))] = hashlib.sha256(f.read_bytes()).hexdigest()
    return H


def example(arg):
    name, variant, mode, nproc, seed, cold = arg
    d = scratch(f"ex_{name}_{variant}" + ("/deep er/dir" if variant == "c" else ""))
    cache = vlib.SCRATCH / (f"cache_{name}_{variant}" if cold else "sharedcache")
    cache.mkdir(exist_ok=True)
    rc, out, err = vlib.sh(
        ["python", str(vlib.ROOT / "lib/run_example.py"), f"/repo/nrpy/examples/{name}.py", mode, str(nproc)],
        cwd=str(d), env={"PYTHONHASHSEED": str(seed), "XDG_CACHE_HOME": str(cache), "PYTHONDONTWRITEBYTECODE": "1"}, timeout=800,
    )
    return rc, err[-3000:], tree(d), str(d)


def main():
    m = Monitor("C11", rule="distinct (task set, worker count) schedules and example variants")
    ks = list(range(24 if QUICK else 200))
    args = [(k, mode) for k in ks for mode in ("serial", "parallel")]
    R = {}
    for i, st, res in run_isolated(one, args, timeout=120, procs=8):
        if st == "ok":
            R[args[i]] = res
        else:
            raise vlib.HarnessError(f"{args[i]}: {st} {res[2] if st == 'exc' else res}")
    for k in ks:
        T, fail, nproc = plan(k)
        s, p = R[(k, "serial")], R[(k, "parallel")]
        tag = f"{len(T)} tasks on {nproc} workers"
        m.observe(key=f"{k}:{tag}", n=len(T), sample=tag + f" {T[:2]}")
        m.count("tasks", len(T))
        if fail is not None:
            if "exc" not in p:
                m.violation("failure-lost", f"{tag}: task {T[fail]} raised, but parallel generation reported success")
            m.count("failing task sets")
            continue
        if "exc" in p or "exc" in s:
            e = p.get("exc") or s.get("exc")
            if "/repo/" not in e or ("exc" in p and "exc" in s):
                raise vlib.HarnessError(e)
            m.violation("raises", f"{tag}: {'parallel' if 'exc' in p else 'serial'} generation raised", e)
            continue
        if p["log"] != s["log"] or any(v != 1 for v in p["log"].values()):
            m.violation("exactly-once", f"{tag}: executed calls {dict(p['log'] - s['log'])} extra, {dict(s['log'] - p['log'])} missing", T)
        a, b = s["S"], p["S"]
        for key in sorted(set(a) | set(b)):
            if a.get(key) != b.get(key):
                m.violation("merge", f"{tag}: {key}: serial {str(a.get(key))[:300]} / parallel {str(b.get(key))[:300]}", T)
                break
            m.observe()
        m.count("registry comparisons")
    # real projects
    exs = EX_QUICK if QUICK else EX_QUICK + EX_MORE + EX_BSSN
    V = []
    sd = vlib.SEED
    for e in exs:
        r = rng("c11ex", e)
        V.append((e, "a", "parallel", 8, r.randint(1, 10**6), True))
        if e not in EX_BSSN:
            V.append((e, "b", "serial", 8, r.randint(1, 10**6), True))
        V.append((e, "c", "parallel", r.choice([1, 2, 3, 5]), r.randint(1, 10**6), False))
    out = {}
    for i, st, res in run_isolated(example, V, timeout=900, procs=6):
        if st != "ok":
            raise vlib.HarnessError(f"{V[i]}: {st} {res}")
        out[V[i][:2]] = (V[i], res)
    # second pass with the warm shared cache
    W = [(e, "d", "parallel", 4, 123 + sd, False) for e in (exs[:2] if QUICK else exs)]
    for i, st, res in run_isolated(example, W, timeout=900, procs=6):
        if st != "ok":
            raise vlib.HarnessError(f"{W[i]}: {st} {res}")
        out[W[i][:2]] = (W[i], res)
    for e in exs:
        ref = None
        for v in "abcd":
            if (e, v) not in out:
                continue
            cfg, (rc, err, t, d) = out[(e, v)]
            if rc:
                if "/repo/" in err:
                    m.violation("example-fails", f"{e} {cfg}: generation failed rc={rc}", err)
                    break
                raise vlib.HarnessError(f"{cfg}: rc={rc} {err}")
            if not t:
                raise vlib.HarnessError(f"{e}: no files generated")
            m.count("example generations")
            m.observe(key=f"{e}{v}", n=len(t))
            if ref is None:
                ref = (cfg, t, d)
            elif t != ref[1]:
                diff = sorted(f for f in set(t) | set(ref[1]) if t.get(f) != ref[1].get(f))
                f0 = diff[0]
                _, dd, _ = vlib.sh(["diff", f"{ref[2]}/{f0}", f"{d}/{f0}"])
                m.violation("example-differs", f"{e}: output of {cfg[2:]} differs from {ref[0][2:]} in {diff[:6]}", dd[:3000])
    m.require("registry comparisons", 10)
    m.require("example generations", 10)
    m.finish()


vlib.main(main)
