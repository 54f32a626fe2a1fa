"""C07: every symbolic reference-metric quantity is the geometry of flat space in the given coordinates."""
import mpmath as mp
import sympy as sp
import vlib
from vlib import Monitor, run_isolated, rng, QUICK
from geom import SYSTEMS, R3, geometry, flat, rand_point
import nrpy.params as par
import nrpy.reference_metric as refmetric
import nrpy.helpers.jacobians as jac
import nrpy.indexedexp as ixp

NAMES = ["xx_to_Cart", "Jac_dUCart_dDrfmUD", "Jac_dUrfm_dDCartUD", "xxSph", "Jac_dUSph_dDrfmUD", "Jac_dUrfm_dDSphUD", "scalefactor_orthog", "ghatDD", "ghatUU", "ghatDDdD", "ghatDDdDD",
         "detgammahat", "detgammahatdD", "detgammahatdDD", "GammahatUDD", "GammahatUDDdD", "ReU", "ReUdD", "ReUdDD", "ReD", "ReDdD", "ReDdDD", "ReDD", "ReDDdD", "ReDDdDD", "UnitVectors"]


def evaluator(rfm, cs, names, extra=()):
    """One compiled function returning every component of the named attributes."""
    items, exprs = [], []
    for n in names:
        for k, e in flat(getattr(rfm, n)):
            items.append((n, k))
            exprs.append(sp.sympify(e))
    for (n, e) in extra:
        items.append((n, ()))
        exprs.append(sp.sympify(e))
    # table entries of a precomputed metric stand for the functions recorded with them
    table = {}
    if cs.endswith("_rfm_precompute"):
        for n, v in getattr(rfm, "_vmon_table"):
            table[n] = v
    syms = set()
    for _ in range(2):
        exprs = [e.xreplace({s: table[str(s)] for s in e.free_symbols if str(s) in table}) for e in exprs]
    for e in exprs:
        syms |= e.free_symbols
    syms = sorted(syms, key=str)
    fn = sp.lambdify(syms, exprs, modules="mpmath", cse=True)
    return items, syms, fn


def values(q, p, syms):
    env = {f"xx{i}": q[i] for i in R3}
    env.update(p)
    env["PI"] = env["M_PI"] = mp.pi
    return [env[str(s)] for s in syms]


def one(task):
    cs, pre, seed, npts = task
    m = Monitor("C07")
    r = rng("rfm", cs, pre, seed)
    key = cs + ("_rfm_precompute" if pre else "")
    rfm = refmetric.reference_metric[key]
    names = list(NAMES)
    if pre:
        # what the tables hold: base functions and their derivatives, by name
        direct = refmetric.reference_metric[cs]
        tab = []
        for base, var in (("f0_of_xx0", 0), ("f1_of_xx1", 1), ("f2_of_xx0", 0), ("f3_of_xx2", 2), ("f4_of_xx1", 1)):
            f = getattr(rfm, base)
            if isinstance(f, sp.Symbol) and str(f) == base:
                continue
            e = f
            tab.append((base, e))
            for order in (1, 2, 3):
                e = sp.diff(e, rfm.xx[var])
                tab.append((f"{base}__{'D' * order}{str(var) * order}", e))
        rfm._vmon_table = tab
        names.remove("scalefactor_orthog")  # kept in functional form in this variant
        for n in ("xx_to_Cart",):
            pass
    items, syms, fn = evaluator(rfm, key, names)
    unknown = [str(s) for s in syms if str(s) not in ("xx0", "xx1", "xx2", "M_PI", "PI") and str(s) not in rand_point(cs, r)[1]]
    if unknown:
        m.violation(f"unexpected-symbols:{key}", f"{key}: expressions contain symbols without a meaning: {unknown}")
        return m.part()
    for pt in range(npts):
        q, p = rand_point(cs, r)
        want = geometry(cs, q, p)
        got = fn(*values(q, p, syms))
        scale_of = {}
        for n in names:
            scale_of[n] = max([abs(v) for _, v in flat(want[n])] + [mp.mpf(1)])
        wl = {(n, k): v for n in names for k, v in flat(want[n])}
        for it, g in zip(items, got):
            w = wl[it]
            g = mp.mpmathify(g)
            m.observe()
            if not abs(g - w) <= mp.mpf(10) ** -18 * scale_of[it[0]]:
                m.violation(f"{it[0]}:{key}", f"{key}.{it[0]}{list(it[1])} = {mp.nstr(g, 12)}, geometry gives {mp.nstr(w, 12)} at xx = {[mp.nstr(x, 8) for x in q]}, {({k: mp.nstr(v, 6) for k, v in p.items()})}")
        m.count("points")
        m.count("components", len(items))
        m.observe(f"{key}:{pt}", n=0)
    # tensors between bases
    if True:
        q, p = rand_point(cs, r)
        want = geometry(cs, q, p)
        Jc, Ji = want["Jac_dUCart_dDrfmUD"], want["Jac_dUrfm_dDCartUD"]
        V = [mp.mpf(r.uniform(-2, 2)) for _ in R3]
        T = [[mp.mpf(r.uniform(-2, 2)) for _ in R3] for _ in R3]  # not symmetric on purpose
        T4 = [[mp.mpf(r.uniform(-2, 2)) for _ in range(4)] for _ in range(4)]
        sV = [sp.Symbol(f"v{i}") for i in R3]
        sT = [[sp.Symbol(f"t{i}{j}") for j in R3] for i in R3]
        sT4 = [[sp.Symbol(f"w{i}{j}") for j in range(4)] for i in range(4)]
        J4 = [[1 if (a == b == 0) else (Jc[a - 1][b - 1] if a and b else 0) for b in range(4)] for a in range(4)]
        I4 = [[1 if (a == b == 0) else (Ji[a - 1][b - 1] if a and b else 0) for b in range(4)] for a in range(4)]
        R4 = range(4)
        cases = [
            ("basis_transform_vectorU_from_rfmbasis_to_Cartesian", sV, [sum(Jc[i][l] * V[l] for l in R3) for i in R3]),
            ("basis_transform_vectorD_from_rfmbasis_to_Cartesian", sV, [sum(Ji[l][i] * V[l] for l in R3) for i in R3]),
            ("basis_transform_tensorDD_from_rfmbasis_to_Cartesian", sT, [[sum(Ji[l][i] * Ji[k][j] * T[l][k] for l in R3 for k in R3) for j in R3] for i in R3]),
            ("basis_transform_vectorU_from_Cartesian_to_rfmbasis", sV, [sum(Ji[i][l] * V[l] for l in R3) for i in R3]),
            ("basis_transform_vectorD_from_Cartesian_to_rfmbasis", sV, [sum(Jc[l][i] * V[l] for l in R3) for i in R3]),
            ("basis_transform_tensorDD_from_Cartesian_to_rfmbasis", sT, [[sum(Jc[l][i] * Jc[k][j] * T[l][k] for l in R3 for k in R3) for j in R3] for i in R3]),
            ("basis_transform_4tensorUU_from_time_indep_rfmbasis_to_Cartesian", sT4, [[sum(J4[a][c] * J4[b][d] * T4[c][d] for c in R4 for d in R4) for b in R4] for a in R4]),
            ("basis_transform_4tensorUU_from_Cartesian_to_time_indep_rfmbasis", sT4, [[sum(I4[a][c] * I4[b][d] * T4[c][d] for c in R4 for d in R4) for b in R4] for a in R4]),
        ]
        env = dict(values_env(q, p))
        env.update({f"v{i}": V[i] for i in R3})
        env.update({f"t{i}{j}": T[i][j] for i in R3 for j in R3})
        env.update({f"w{i}{j}": T4[i][j] for i in range(4) for j in range(4)})
        for name, src, want_t in cases:
            res = getattr(jac, name)(key, src)
            ex = [sp.sympify(e) for _, e in flat(res)]
            sy = sorted(set().union(*[e.free_symbols for e in ex]), key=str)
            got = sp.lambdify(sy, ex, modules="mpmath", cse=True)(*[env[str(s)] for s in sy])
            wf = [v for _, v in flat(want_t)]
            sc = max([abs(v) for v in wf] + [1])
            m.count("basis transforms")
            for (k, _), g, w in zip(flat(res), got, wf):
                m.observe()
                if not abs(g - w) <= mp.mpf(10) ** -18 * sc * 100:
                    m.violation(f"{name}:{key}", f"{name}({key}) component {list(k)} = {mp.nstr(g, 12)}, change of basis gives {mp.nstr(w, 12)} at {[mp.nstr(x, 8) for x in q]}")
            m.observe(f"{name}:{key}", n=0)
    return m.part()


def values_env(q, p):
    env = {f"xx{i}": q[i] for i in R3}
    env.update(p)
    env["PI"] = env["M_PI"] = mp.pi
    return env


def main():
    m = Monitor("C07", "exploration", rule="distinct = (coordinate system, variant, random point)")
    tasks = [(cs, pre, vlib.SEED, 2 if QUICK else 12) for cs in sorted(SYSTEMS, key=lambda c: -("SymTP" in c or "v2n" in c)) for pre in (False, True)]
    for i, st, pl in run_isolated(one, tasks, timeout=600):
        if st == "ok":
            m.merge(pl)
        elif st == "exc":
            m.violation(f"raises:{tasks[i][0]}", f"{tasks[i]}: {pl[0]} {pl[1]}", pl[2])
        else:
            raise vlib.HarnessError(f"{tasks[i]} {st}")
    m.require("points", 40)
    m.require("basis transforms", 200)
    m.finish()


vlib.main(main)
