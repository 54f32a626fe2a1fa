"""C14: declared tensors and registered grid functions have exactly the stated components, symmetries and properties."""
import itertools
import os
import re
import subprocess
import sys
from fractions import Fraction
import sympy as sp
import vlib
from vlib import Monitor, run_isolated, rng, scratch, sh, quiet, QUICK
import nrpy.grid as gri
import nrpy.indexedexp as ixp
import nrpy.params as par

WORDS = ["h", "A", "my_data", "vet_", "x", "K_dot", "alpha", "lamb", "sigma_dx", "T4", "F", "d", "_d", "u_dDot", "phi_dup", "dD", "Z_ddn"]


def base(r, deriv=None, tail="D"):
    """Basename (ends in a letter as NRPy requires) and the number of derivative indices it asks for."""
    b = r.choice(WORDS) + r.choice(["", "q", "Bar"]) + tail
    return b


# ------------------------------------------------ symmetry model
def gens_of(spec):
    """'sym01_anti23' -> [(perm as transposition, sign)]"""
    g = []
    for part in spec.split("_"):
        sign = 1 if part.startswith("sym") else -1
        if part == "nosym":
            continue
        ids = [int(c) for c in re.sub("[a-z]", "", part)]
        g += [((a, b), sign) for a, b in zip(ids, ids[1:])]
    return g


def orbit(idx, gens):
    """All indices related to idx, with sign; forced zero if both signs reach idx."""
    seen = {idx: 1}
    todo = [idx]
    zero = False
    while todo:
        c = todo.pop()
        for (a, b), s in gens:
            d = list(c)
            d[a], d[b] = d[b], d[a]
            d = tuple(d)
            v = seen[c] * s
            if d not in seen:
                seen[d] = v
                todo.append(d)
            elif seen[d] != v:
                zero = True
    return seen, zero


SPECS = {
    2: [None, "nosym", "sym01", "anti01"],
    3: [None, "nosym", "sym01", "sym02", "sym12", "sym012", "anti01", "anti02", "anti12", "anti012", "sym01_sym12", "anti01_anti12"],
    4: [None, "nosym", "sym01", "sym02", "sym03", "sym12", "sym13", "sym23", "anti01", "anti02", "anti03", "anti12", "anti13", "anti23",
        "sym012", "sym013", "sym023", "sym123", "anti012", "anti013", "anti023", "anti123", "sym0123", "anti0123",
        "sym01_sym23", "sym02_sym13", "sym03_sym12", "anti01_anti23", "anti02_anti13", "anti03_anti12", "sym01_anti23", "anti01_sym23", "sym03_anti12", "anti02_sym13",
        "sym01_sym12_sym23", "sym12_sym23"],
}


def get(t, idx):
    for i in idx:
        t = t[i]
    return t


def tensors(seed):
    m = Monitor("C14")
    r = rng("tensors", seed)
    for _ in range(40 if QUICK else 300):
        rank = r.choice([1, 2, 2, 3, 3, 4])
        dim = r.choice([1, 2, 3, 3, 3, 4, 4] if rank < 4 else [2, 3, 4])
        spec = r.choice(SPECS[rank]) if rank > 1 else None
        axes = r.choice(["", "", "0", "1", "2", "01", "12", "02", "012"])
        # derivative suffix or not (derivative indices are only ever symmetrised among themselves)
        suf = r.choice(["", "", "_dD", "_dD", "_dDD", "_dupD", "_ddnD", "_dKOD", "_dfullupD", "_dfulldnD"])
        norder = 0 if not suf else (2 if suf == "_dDD" else 1)
        if norder > rank:
            suf, norder = "_dD", 1
        if norder and spec and any((max(g) >= rank - norder) != (min(g) >= rank - norder) for g, _ in gens_of(spec)):
            spec = None
        name = base(r, tail=r.choice(["", "U", "D", "DD", "UD", "DDD"])) + suf
        if not norder and re.search(r"_d(up|dn|KO|full)?.?.?D+$", name):
            name += "X"
        kw = dict(dimension=dim)
        if dim == 3 and r.random() < 0.3:
            kw = {}
        if spec:
            kw["symmetry"] = spec
        par.set_parval_from_str("symmetry_axes", axes)
        case = f"{name} rank {rank} {kw} axes '{axes}'"
        try:
            if r.random() < 0.3:
                t = ixp.declare_indexedexp(name, rank=rank, **kw)
            else:
                t = getattr(ixp, f"declarerank{rank}")(name, **kw)
        except Exception as e:
            m.violation("declare:raises", f"{case}: {type(e).__name__} {e}")
            continue
        finally:
            par.set_parval_from_str("symmetry_axes", "")
        m.observe(case, sample=case)
        gens = gens_of(spec) if spec else []
        bad = None
        names = {}
        for idx in itertools.product(range(dim), repeat=rank):
            c = sp.sympify(get(t, idx))
            orb, zero = orbit(idx, gens)
            canon = min(orb)
            m.count("components")
            # a component vanishes iff antisymmetry or a derivative across a symmetry axis forces it to
            if norder and axes and any(str(i) in axes for i in idx[rank - norder:]):
                zero = True
            want = sp.Integer(0) if zero else orb[canon] * sp.Symbol(name + "".join(map(str, canon)))
            if c != want:
                bad = bad or f"component {idx} is {c}, should be {want}"
            elif c != 0:
                names.setdefault(str(c if c.is_Symbol else -c), set()).add(canon)
        for nme, cs in names.items():
            if len(cs) > 1:
                bad = bad or f"components {cs} share the symbol {nme}"
        if bad:
            m.violation(f"declare:rank{rank}:{spec}:{suf}:{'axes' if axes else ''}", f"{case}: {bad}")
    # shapes of zero tensors; every component its own object
    for rank in (1, 2, 3, 4):
        for dim in (-1, 2, 3, 4):
            z = getattr(ixp, f"zerorank{rank}")(*([] if dim < 0 and r.random() < 0.5 else [dim]))
            n = 3 if dim < 0 else dim
            if any(get(z, i) != 0 for i in itertools.product(range(n), repeat=rank)) or len(z) != n or ixp.get_rank(z) != rank:
                m.violation("zerorank", f"zerorank{rank}({dim}) = {z}")
            at = tuple(r.randrange(n) for _ in range(rank))
            get(z, at[:-1])[at[-1]] = sp.Symbol("q")
            nz = [i for i in itertools.product(range(n), repeat=rank) if get(z, i) != 0]
            if nz != [at] or any(get(getattr(ixp, f"zerorank{rank}")(dimension=dim), i) != 0 for i in itertools.product(range(n), repeat=rank)):
                m.violation("zerorank", f"setting one component of zerorank{rank}({dim}) changed {nz}")
            m.observe(n=n**rank)
    # malformed requests are refused
    for f, a, kw in [(ixp.declarerank2, "a", dict(symmetry="sym02")), (ixp.declarerank3, "a", dict(symmetry="sym03")), (ixp.declarerank4, "a", dict(symmetry="foo01")),
                     (ixp.declarerank1, "a", dict(symmetry="sym01")), (ixp.declarerank2, "a b", {}), (ixp.declarerank2, "a", dict(DIM=3)),
                     (ixp.declarerank3, "a", dict(symmetry="anti34")), (ixp.declarerank4, "a", dict(symmetry="sym45")), (ixp.declarerank2, "a", dict(symmetry="sym01_bad")),
                     (ixp.declare_indexedexp, "a", dict(rank=5)), (ixp.declare_indexedexp, "a", dict(rank=0))]:
        try:
            v = f(a, **kw)
            m.violation("malformed-accepted", f"{f.__name__}({a!r}, {kw}) returned {str(v)[:100]}")
        except ValueError:
            pass
        m.count("malformed requests")
        m.observe()
    return m.part()


# ------------------------------------------------ inverses
def frac_inv(A):
    n = len(A)
    M = [list(map(Fraction, row)) + [Fraction(int(i == j)) for j in range(n)] for i, row in enumerate(A)]
    det = Fraction(1)
    for c in range(n):
        p = next((i for i in range(c, n) if M[i][c] != 0), None)
        if p is None:
            return None, Fraction(0)
        if p != c:
            M[c], M[p] = M[p], M[c]
            det = -det
        det *= M[c][c]
        d = M[c][c]
        M[c] = [v / d for v in M[c]]
        for i in range(n):
            if i != c and M[i][c] != 0:
                f = M[i][c]
                M[i] = [x - f * y for x, y in zip(M[i], M[c])]
    return [row[n:] for row in M], det


def inverses(seed):
    m = Monitor("C14")
    r = rng("inverses", seed)
    S = lambda q: sp.Rational(q.numerator, q.denominator)
    for n in (2, 3, 4):
        for kind in ("symm", "generic"):
            f = getattr(ixp, f"{kind}_matrix_inverter{n}x{n}")
            syms = [[sp.Symbol(f"m{i}{j}" if kind == "generic" or i <= j else f"m{j}{i}") for j in range(n)] for i in range(n)]
            finv, fdet = f(syms)
            for rep in range(14 if QUICK else 100):
                A = [[Fraction(r.randint(-9, 9), r.choice([1, 1, 2, 3, 7])) if r.random() < 0.8 else Fraction(0) for _ in range(n)] for _ in range(n)]
                if r.random() < 0.25:  # singular: one row a combination of others
                    a, b = r.sample(range(n), 2)
                    A[a] = [2 * v for v in A[b]]
                if kind == "symm":
                    for i in range(n):
                        for j in range(i):
                            A[i][j] = A[j][i]
                inv, det = frac_inv(A)
                m.observe((kind, n, rep, seed))
                m.count("matrices inverted" if inv else "singular matrices")
                case = f"{kind} {n}x{n} {[[str(v) for v in row] for row in A]}"
                M = [[S(v) for v in row] for row in A]
                try:
                    o, d = f(M)
                except ixp.NonInvertibleMatrixError:
                    if inv is not None:
                        m.violation(f"inverse:{kind}{n}", f"{case}: refused although its determinant is {det}")
                    continue
                except Exception as e:
                    m.violation(f"inverse:{kind}{n}", f"{case}: {type(e).__name__} {e}")
                    continue
                if inv is None:
                    m.violation(f"inverse:{kind}{n}", f"{case}: singular, but inverted to {o}")
                    continue
                if sp.sympify(d) != S(det) or any(sp.sympify(o[i][j]) != S(inv[i][j]) for i in range(n) for j in range(n)):
                    m.violation(f"inverse:{kind}{n}", f"{case}: inverse {o}, determinant {d}; should be {inv}, {det}")
                if any(M[i][j] != S(A[i][j]) for i in range(n) for j in range(n)):
                    m.violation(f"inverse:{kind}{n}", f"{case}: the input was changed")
                if rep < 4:
                    sub = {syms[i][j]: M[i][j] for i in range(n) for j in range(n)}
                    if sp.sympify(fdet).subs(sub) != S(det) or any(sp.sympify(finv[i][j]).subs(sub) != S(inv[i][j]) for i in range(n) for j in range(n)):
                        m.violation(f"inverse:{kind}{n}:symbolic", f"{case}: the symbolic inverse evaluates to something else")
    sg = sp.Symbol("sg")
    for up, t in ((None, ixp.LeviCivitaSymbol_dim3_rank3()), (True, ixp.LeviCivitaTensorUUU_dim3_rank3(sg)), (False, ixp.LeviCivitaTensorDDD_dim3_rank3(sg))):
        for idx in itertools.product(range(3), repeat=3):
            e = sp.LeviCivita(*idx) * (1 if up is None else (1 / sg if up else sg))
            m.observe()
            if sp.sympify(get(t, idx)) != e:
                m.violation("LeviCivita", f"{up} {idx}: {get(t, idx)}")
    return m.part()


# ------------------------------------------------ grid functions
PAR_TENSOR = {(0, 0): 4, (0, 1): 5, (0, 2): 6, (1, 1): 7, (1, 2): 8, (2, 2): 9}


def model_parity(idx, dim):
    sp_idx = [i - 1 for i in idx if i > 0] if dim == 4 else list(idx)
    if any(i > 2 for i in sp_idx):
        return None
    if len(sp_idx) == 0:
        return 0
    if len(sp_idx) == 1:
        return sp_idx[0] + 1
    if len(sp_idx) == 2:
        return PAR_TENSOR[tuple(sorted(sp_idx))]
    return None


def rand_requests(r, infra):
    """List of registrations: dict(names/basename, rank, dim, sym, kwargs) and the expected components."""
    reqs = []
    used = set()
    for k in range(r.randint(2, 7)):
        rank = r.choice([0, 0, 1, 1, 2, 2, 3, 4]) if infra != "BHaH" else r.choice([0, 0, 1, 1, 2, 2, 2])
        dim = r.choice([3, 3, 3, 4]) if rank else 3
        if infra != "BHaH" and rank == 1 and r.random() < 0.2:
            dim = 2
        b = r.choice(["phi", "Pi", "uu", "vv", "psi_dot", "a", "chi", "rho_b", "T"]) + r.choice(["", "X", "Y", "zz"]) + "ABCDEFG"[k]
        if b.lower() in used:
            continue
        used.add(b.lower())
        grp = r.choice(["EVOL", "EVOL", "AUX", "AUXEVOL"] + (["EXTERNAL", "CORE", "TILE_TMP"] if infra == "CarpetX" else []))
        q = dict(rank=rank, dim=dim, base=b + ("" if rank == 0 else r.choice(["U", "D"]) * rank), sym=None, kw={}, fn="rankN" if rank > 2 else r.choice(["own", "rankN"] if rank else ["own"]))
        if r.random() < 0.8:
            q["kw"]["group"] = grp
        else:
            grp = "EVOL"
        if rank >= 2:
            q["sym"] = r.choice([None, "nosym", "sym01", "anti01", "sym01"] + (["sym012", "anti012", "sym12"] if rank == 3 else []) + (["sym01_sym23", "anti01_anti23", "sym0123"] if rank == 4 else []))
        if rank == 0:
            names = [q["base"]] + ([q["base"] + "p" + str(j) for j in range(r.randint(1, 3))] if r.random() < 0.4 else [])
            if len(names) > 1:
                q["kw"]["is_basename"] = False
            comps = [(n, ()) for n in names]
            q["names"] = names
        else:
            gens = gens_of(q["sym"]) if q["sym"] else []
            comps = []
            for idx in itertools.product(range(dim), repeat=rank):
                orb, zero = orbit(idx, gens)
                if not zero and min(orb) == idx:
                    comps.append((q["base"] + "".join(map(str, idx)), idx))
        for p, d in (("f_infinity", 0.0), ("wavespeed", 1.0)):
            z = r.random()
            if z < 0.3:
                v = round(r.uniform(-3, 3), 3)
                q["kw"][p] = v
                vals = [v] * len(comps)
            elif z < 0.6:
                vals = [round(r.uniform(-3, 3), 3) if r.random() < 0.85 else 0.0 for _ in comps]
                q["kw"][p] = list(vals)
            else:
                vals = [d] * len(comps)
            q[p] = vals
        if not comps:
            continue
        q["group"], q["comps"] = grp, comps
        reqs.append(q)
    return reqs


def do_register(q):
    kw = {k: (list(v) if isinstance(v, list) else v) for k, v in q["kw"].items()}
    if q["rank"] == 0:
        return gri.register_gridfunctions(q["names"] if len(q["names"]) > 1 else q["names"][0], q["dim"], **kw)
    if q["fn"] == "rankN":
        a = dict(symmetry=q["sym"]) if q["sym"] else {}
        return gri.register_gridfunctions_for_single_rankN(q["base"], rank=q["rank"], dimension=q["dim"], **a, **kw)
    if q["rank"] == 1:
        return gri.register_gridfunctions_for_single_rank1(q["base"], dimension=q["dim"], **kw)
    a = dict(symmetry=q["sym"]) if q["sym"] else {}
    return gri.register_gridfunctions_for_single_rank2(q["base"], dimension=q["dim"], **a, **kw)


SUFFIX = {"EXTERNAL": "_ext", "CORE": "_core", "TILE_TMP": "_tile_tmp"}


def registration(seed):
    m = Monitor("C14")
    r = rng("reg", seed)
    for rep in range(12 if QUICK else 60):
        infra = r.choice(["BHaH", "BHaH", "ETLegacy", "CarpetX"])
        gri.glb_gridfcs_dict.clear()
        par.set_parval_from_str("Infrastructure", infra)
        reqs = rand_requests(r, infra)
        want = {}
        order = []
        case = f"{infra} {[(q['base'], q['rank'], q['dim'], q['sym'], q['fn'], q['kw']) for q in reqs]}"
        try:
            for q in reqs:
                t = do_register(q)
                for j, (n, idx) in enumerate(q["comps"]):
                    want[n] = dict(name=n + (SUFFIX.get(q["group"], "") if infra == "CarpetX" else ""), group=q["group"], rank=q["rank"], dimension=q["dim"], f_infinity=q["f_infinity"][j], wavespeed=q["wavespeed"][j], idx=idx)
                    order.append(n)
                    c = t[j] if q["rank"] == 0 else get(t, idx)
                    if str(c) != n:
                        m.violation("registration:symbol", f"{case}: the symbol of {n} is {c}")
        except Exception as e:
            m.violation(f"registration:raises", f"{case}: {type(e).__name__} {e}")
            continue
        m.observe((infra, rep, seed), n=len(want), sample=case[:300])
        m.count("grid functions", len(want))
        got = list(gri.glb_gridfcs_dict)
        if sorted(got) != sorted(order):
            m.violation("registration:components", f"{case}: registered {got}, should be {order}")
            continue
        if got != order:
            m.violation("registration:order", f"{case}: registered in the order {got}, should be {order}")
        for n, w in want.items():
            g = gri.glb_gridfcs_dict[n]
            for a in ("name", "group", "rank", "dimension", "f_infinity", "wavespeed"):
                if getattr(g, a) != w[a]:
                    m.violation(f"registration:{a}", f"{case}: {n}.{a} = {getattr(g, a)!r}, should be {w[a]!r}")
        groups = gri.GridFunction.gridfunction_lists()
        for gname, lst in zip(("EVOL", "AUX", "AUXEVOL"), groups):
            if sorted(lst) != sorted(w["name"] for w in want.values() if w["group"] == gname) or [x.lower() for x in lst] != sorted(x.lower() for x in lst):
                m.violation("gridfunction_lists", f"{case}: {gname}: {lst}")
            for n in lst:
                w = next(v for v in want.values() if v["name"] == n)
                mp_ = model_parity(w["idx"], w["dimension"])
                try:
                    p = gri.GridFunction.set_parity_types([n])
                except ValueError:
                    p = None
                m.count("parities")
                if (mp_ is not None and w["rank"] <= 2 and w["dimension"] in (3, 4) and p != [mp_]) or (p is not None and mp_ is not None and p != [mp_]) or (p is not None and w["rank"] > 2):
                    m.violation("parity", f"{case}: parity of {n} (indices {w['idx']}, dimension {w['dimension']}) is {p}, should be {mp_}")
            if lst:
                try:
                    ps = gri.GridFunction.set_parity_types(lst)
                    if ps != [gri.GridFunction.set_parity_types([n])[0] for n in lst]:
                        m.violation("parity:list", f"{case}: {ps}")
                except ValueError:
                    pass
        if infra == "BHaH":
            compile_defines(m, case, want, rep, seed)
    # the same grid function again is the same one; unknown groups and bad names are refused
    for infra in ("BHaH", "ETLegacy", "CarpetX"):
        gri.glb_gridfcs_dict.clear()
        par.set_parval_from_str("Infrastructure", infra)
        with quiet():
            a = gri.register_gridfunctions_for_single_rank2("gDD", symmetry="sym01", group="AUX")
            b = gri.register_gridfunctions_for_single_rank2("gDD", symmetry="sym01", group="AUX")
        if a != b or len(gri.glb_gridfcs_dict) != 6:
            m.violation("registration:again", f"{infra}: registering twice gives {list(gri.glb_gridfcs_dict)}")
        for nm, kw in (("zz", dict(group="NONSENSE")), ("q7", {}), ("", {})):
            m.count("malformed requests")
            try:
                gri.register_gridfunctions(nm, **kw)
                m.violation("registration:malformed-accepted", f"{infra}: register_gridfunctions({nm!r}, {kw}) accepted")
            except ValueError:
                pass
            m.observe()
    # names that would share a C macro must not silently share an index
    gri.glb_gridfcs_dict.clear()
    par.set_parval_from_str("Infrastructure", "BHaH")
    b = r.choice(["Pi", "phiA", "Kxx", "rhoStar"])
    g1, g2 = r.choice(["EVOL", "AUX"]), r.choice(["EVOL", "AUXEVOL"])
    with quiet():
        try:
            gri.register_gridfunctions("zeta", group=g1)
            gri.register_gridfunctions(b, group=g1)
            gri.register_gridfunctions(b.swapcase(), group=g2)
            src = gri.BHaHGridFunction.gridfunction_defines()
            macs = re.findall(r"#define\s+(\w+)GF\s+(\d+)", src)
            if len({a for a, _ in macs}) != len(macs):
                m.violation("defines:macro-shared", f"{b} ({g1}) and {b.swapcase()} ({g2}) share one macro: {macs}")
        except ValueError:
            pass
    m.observe(("case", b, g1, g2))
    return m.part()


def compile_defines(m, case, want, rep, seed):
    src = gri.BHaHGridFunction.gridfunction_defines()
    ev = [w for w in want.values() if w["group"] == "EVOL"]
    body = '#include <stdio.h>\ntypedef double REAL;\n' + src + "\nint main(void){\n"
    for w in want.values():
        body += f'printf("{w["name"]} %d\\n", {w["name"].upper()}GF);\n'
    for g in ("EVOL", "AUX", "AUXEVOL"):
        body += f'printf("#{g} %d\\n", NUM_{g}_GFS);\n'
    if ev:
        body += 'for(int i=0;i<NUM_EVOL_GFS;i++) printf("@%d %.17g %.17g\\n", i, gridfunctions_f_infinity[i], gridfunctions_wavespeed[i]);\n'
    d = scratch(f"defs{seed}")
    (d / f"d{rep}.c").write_text(body + "return 0;}\n")
    rc, o, e = sh(["gcc", "-Werror", "-o", str(d / f"d{rep}"), str(d / f"d{rep}.c")])
    if rc:
        m.violation("defines:compile", f"{case}: {e[:500]}")
        return
    rc, o, e = sh([str(d / f"d{rep}")])
    vals = {ln.split()[0]: ln.split()[1:] for ln in o.splitlines()}
    m.count("compiled index tables")
    for g in ("EVOL", "AUX", "AUXEVOL"):
        ns = [w for w in want.values() if w["group"] == g]
        if int(vals["#" + g][0]) != len(ns) or sorted(int(vals[w["name"]][0]) for w in ns) != list(range(len(ns))):
            m.violation("defines:indices", f"{case}: {g}: {vals}")
            return
        lst = gri.GridFunction.gridfunction_lists()[("EVOL", "AUX", "AUXEVOL").index(g)]
        if [int(vals[n][0]) for n in lst] != list(range(len(lst))):
            m.violation("defines:order", f"{case}: {g} indices do not follow gridfunction_lists() (parities are stored in that order)")
    for w in ev:
        i = vals[w["name"]][0]
        f, s = map(float, vals["@" + i])
        m.observe()
        if f != w["f_infinity"] or s != w["wavespeed"]:
            m.violation("defines:f_infinity-wavespeed", f"{case}: {w['name']} has {f}, {s}; registered {w['f_infinity']}, {w['wavespeed']}")


# ------------------------------------------------ determinism across hash seeds
DET = r"""
import sys, json, random
sys.path.insert(0, sys.argv[1])
import c14, nrpy.grid as gri, nrpy.params as par, nrpy.indexedexp as ixp
r = random.Random(int(sys.argv[2]))
out = []
for infra in ("BHaH", "ETLegacy", "CarpetX"):
    gri.glb_gridfcs_dict.clear(); par.set_parval_from_str("Infrastructure", infra)
    for q in c14.rand_requests(r, infra):
        out.append(str(c14.do_register(q)))
    out.append([(k, sorted(v.__dict__.items(), key=str)) for k, v in gri.glb_gridfcs_dict.items()])
    if infra == "BHaH": out.append(gri.BHaHGridFunction.gridfunction_defines())
print("RESULT" + json.dumps(out, default=str))
"""


def determinism(seed):
    m = Monitor("C14")
    r = rng("det", seed)
    for _ in range(2 if QUICK else 8):
        s = r.randrange(10**6)
        outs = []
        for hs in ("0", "1", str(r.randrange(2, 4000000))):
            rc, o, e = sh([sys.executable, "-c", DET, str(vlib.ROOT / "checks"), str(s)], env={"PYTHONHASHSEED": hs, "C14_LIB": "1"}, timeout=120)
            if "RESULT" not in o:
                m.violation("determinism:raises", f"seed {s} hash seed {hs}: {e[-800:]}")
                break
            outs.append(o[o.index("RESULT"):])
        m.observe(("det", s))
        m.count("hash-seed comparisons")
        if len(set(outs)) > 1:
            d = next((i for i, (a, b) in enumerate(zip(outs[0], outs[1])) if a != b), 0)
            m.violation("determinism", f"registrations depend on the hash seed (request seed {s}): ...{outs[0][max(0, d - 100):d + 100]}... vs ...{outs[-1][max(0, d - 100):d + 100]}...")
    return m.part()


def job(a):
    return globals()[a[0]](a[1])


def main():
    m = Monitor("C14", "exploration", rule="distinct = (tensor declaration), (matrix), (set of registrations)")
    k = 6 if QUICK else 24
    tasks = [(f, i) for i in range(k) for f in ("tensors", "inverses", "registration")] + [("determinism", i) for i in range(2 if QUICK else 6)]
    for i, st, pl in run_isolated(job, tasks, timeout=400):
        if st == "ok":
            m.merge(pl)
        elif st == "exc":
            raise vlib.HarnessError(f"{tasks[i]}: {pl[0]} {pl[1]}\n{pl[2]}")
        else:
            raise vlib.HarnessError(f"{tasks[i]} {st} {pl}")
    m.require("components", 2000)
    m.require("matrices inverted", 100)
    m.require("grid functions", 200)
    m.finish()


if not os.environ.get("C14_LIB"):
    vlib.main(main)
