"""C21: generated Einstein Toolkit BSSN thorns are consistent and compute what they are scheduled to compute.

Thorns are generated with the repository's ETLegacy and CarpetX registration functions for random options.  Their
CCL files are parsed and checked against the registered grid functions and each other, and the sources are built
with ASan+UBSan against a miniature Cactus (lib/etshim.py) in which a scheduled function sees only the variables
its schedule entry declares.  Every function is run on random smooth fields with undeclared regions poisoned;
sampled points are compared with textbook conversions and with high-precision evaluations of the BSSN expressions
(judged by C15) on exact finite-difference stencils; the calls into the flesh are recorded and judged.
"""
import math
import re
import struct
import sys
import time
import mpmath as mp
import bhah
import etproj
import etshim as S
import vlib
from dageval import DagEval
from fdsten import stencil
from vlib import Monitor, QUICK, quiet, rng, run_isolated, scratch
import nrpy.grid as gri

FLAGS = bhah.SAN.replace("-g ", "").replace("-std=gnu99 ", "")
R3 = range(3)
SYM = [(i, j) for i in R3 for j in range(i, 3)]
SYM4 = [(i, j) for i in range(4) for j in range(i, 4)]
EVOL = [f"aDD{i}{j}" for i, j in SYM] + ["alpha"] + [f"betU{i}" for i in R3] + ["cf"] + [f"hDD{i}{j}" for i, j in SYM] + [f"lambdaU{i}" for i in R3] + ["trK"] + [f"vetU{i}" for i in R3]
LAPSES = ["OnePlusLog", "HarmonicSlicing", "OnePlusLogAlt"]
SHIFTS = ["GammaDriving2ndOrder_Covariant", "GammaDriving2ndOrder_NoCovariant", "GammaDriving1stOrder_Covariant", "NonAdvectingGammaDriving"]
POISON = float.fromhex("0x1.23456789abcdep+900")


def config(k, r):
    infra = ["ETLegacy", "CarpetX", "ETLegacy", "ETLegacy", "CarpetX"][k % 5]
    X = infra == "CarpetX"
    t4 = [False, True, True, False, False][k % 5] if QUICK else r.random() < 0.5
    simd = not X and (k % 5 == 0 if QUICK else r.random() < 0.5)
    cf = r.choice(["W", "chi"] if simd else ["W", "chi", "phi"])
    imp = k % 5 in (2, 3)
    pick = lambda p: imp and r.random() < p
    lapse = r.choice(LAPSES if cf != "chi" else [x for x in LAPSES if x != "HarmonicSlicing"])
    orders = r.sample([2, 4, 6, 8], 2) if not QUICK else r.sample([2, 4], 2) if k == 3 else [r.choice([2, 4] if X else [2, 4, 4, 6])]
    return dict(infra=infra, thorn=("Baikal" if t4 else "BaikalVacuum") + ("X" if X else ""), t4=t4, simd=simd, cf=cf, lapse=lapse, shift=r.choice(SHIFTS), ko=r.random() < 0.85,
                cako=(pick(0.6) if not X else r.random() < 0.4), cahd=not X and pick(0.6), ssl=not X and pick(0.6), orders=orders)


def smooth(r, n3, base, amp):
    terms = [(r.uniform(-1, 1), [r.uniform(-0.35, 0.35) for _ in R3], r.uniform(0, 6.28)) for _ in range(4)]
    return [base + amp * sum(c * math.sin(k[0] * i + k[1] * j + k[2] * l + p) for c, k, p in terms) for l in range(n3[2]) for j in range(n3[1]) for i in range(n3[0])]


def sym3(f, p, names):
    t = [[None] * 3 for _ in R3]
    for (i, j), nm in zip(SYM, names):
        t[i][j] = t[j][i] = f(nm, p)
    return t


def inv3(a):
    d = det3(a)
    return [[(a[(j + 1) % 3][(i + 1) % 3] * a[(j + 2) % 3][(i + 2) % 3] - a[(j + 1) % 3][(i + 2) % 3] * a[(j + 2) % 3][(i + 1) % 3]) / d for j in R3] for i in R3]


def det3(a):
    return sum(a[0][i] * (a[1][(i + 1) % 3] * a[2][(i + 2) % 3] - a[1][(i + 2) % 3] * a[2][(i + 1) % 3]) for i in R3)


def parity(name, dim):
    dg = re.search(r"\d*$", name)[0]
    s = [1, 1, 1]
    for ch in dg:
        q = int(ch) - (1 if dim == 4 else 0)
        if q >= 0:
            s[q] *= -1
    return s


def reach(items, bin_):
    """precedence relation among the entries of one schedule bin, transitively closed"""
    its = [it for it in items if it["bin"].upper() == bin_.upper()]
    names = {}
    for n, it in enumerate(its):
        names.setdefault(it["alias"], set()).add(n)
        names.setdefault(it["fn"], set()).add(n)
    E = {n: set() for n in range(len(its))}
    for n, it in enumerate(its):
        for b in it["before"]:
            E[n] |= names.get(b, set())
        for a in it["after"]:
            for q in names.get(a, set()):
                E[q].add(n)
    for q in E:
        for a in E:
            if q in E[a]:
                E[a] |= E[q]
    return its, E


def thorn(k):
    m = Monitor("C21")
    r = rng("thorn", k)
    c = config(k, r)
    mp.mp.dps = 30
    X = c["infra"] == "CarpetX"
    th = c["thorn"]
    d = scratch(f"t{k}")
    tag = " ".join(f"{a}={b}" for a, b in c.items())
    t0 = time.time()
    with quiet():
        td = etproj.generate(d, c)
    t1 = time.time()
    bad = lambda what, text: m.violation(what, f"{tag}: {text}")
    # ---------------------------------------------------------------- CCL files
    try:
        iface = S.interface(td / "interface.ccl")
        prm = S.params(td / "param.ccl")
        storage, items = S.schedule(td / "schedule.ccl")
        G = iface["groups"]
        want = {"evol_variables": [], "evol_variables_rhs": [], "auxevol_variables": [], "aux_variables": []}
        for g, o in gri.glb_gridfcs_dict.items():
            key = {"EVOL": "evol_variables", "AUXEVOL": "auxevol_variables", "AUX": "aux_variables"}.get(o.group)
            if key:
                want[key].append(g + "GF")
                if o.group == "EVOL":
                    want["evol_variables_rhs"].append(g + "_rhsGF")
        for g, vs in want.items():
            m.observe()
            if sorted(G.get(g, ([], ""))[0]) != sorted(vs):
                bad("groups", f"interface.ccl group {g} holds {G.get(g)}, registered are {sorted(vs)}")
        if sorted(v[:-2] for v in G["evol_variables"][0]) != sorted(EVOL):
            bad("evol", f"evolved variables {G['evol_variables'][0]}")
        for g, (vs, tags) in G.items():
            lv = int(re.search(r"Timelevels=(\d+)", tags)[1])
            if not 1 <= storage.get(g, 0) <= lv:
                bad("storage", f"group {g}: storage for {storage.get(g)} of {lv} time levels")
            if X and g != "evol_variables_rhs":
                par_ = [int(x) for x in re.search(r"parities=<([^>]*)>", tags)[1].split()]
                exp = [s for v in vs for s in parity(v[:-2], gri.glb_gridfcs_dict[v[:-2]].dimension)]
                if par_ != exp:
                    bad("parities", f"group {g}: parities {par_} for {vs}")
                m.count("parities checked", len(vs))
            if X and g == "evol_variables" and 'rhs="evol_variables_rhs"' not in tags:
                bad("rhs-tag", f"group {g} does not name its right-hand sides: {tags}")
        named = [it["alias"] for it in items] + [it["fn"] for it in items]
        for it in items:
            for nm in it["before"] + it["after"]:
                if nm.startswith(th + "_") and nm not in named:
                    bad("order-name", f"{it['fn']} is ordered relative to {nm}, which is not scheduled")
        conds = {it["cond"] for it in items if it["cond"]}
        if conds != {f"FD_order == {o}" for o in c["orders"]} and {re.sub(r"\s", "", x) for x in conds} != {f"FD_order=={o}" for o in c["orders"]}:
            bad("conditions", f"schedule conditions {conds} for orders {c['orders']}")
        rhsbin, post = ("ODESolvers_RHS", "ODESolvers_PostStep") if X else ("MoL_CalcRHS", "MoL_PostStep")
        conbin = post if X else "MoL_PseudoEvolution"
        for o in c["orders"]:
            act = [it for it in items if not it["cond"] or re.sub(r"\s", "", it["cond"]) == f"FD_order=={o}"]
            fn = lambda part, bin_: [it for it in act if it["fn"].startswith(th + "_" + part) and it["bin"].upper() == bin_.upper() and not it["group"]]
            for part, bin_ in [("rhs_eval", rhsbin), ("Ricci_eval", rhsbin), ("BSSN_constraints", conbin), ("ADM_to_BSSN", "CCTK_INITIAL"), ("BSSN_to_ADM", post), ("floor_the_lapse", post), ("enforce_det", post), ("specify_NewRad", rhsbin), ("zero_rhss", "BASEGRID")] \
                    + ([("T4DD_to_T4UU", rhsbin), ("T4DD_to_T4UU", conbin)] if c["t4"] else []) \
                    + ([] if X else [("MoL_registration", "MoL_Register"), ("Symmetry_registration", "BASEGRID"), ("specify_Driver", "Driver_BoundarySelect"), ("specify_evol", post), ("specify_aux", conbin), ("RegisterSlicing", "STARTUP")]):
                m.observe()
                if len(fn(part, bin_)) != 1:
                    bad("scheduled", f"{th}_{part}* is scheduled {len(fn(part, bin_))} times in {bin_} at FD_order {o}")
                    return m.part()
            order = [(rhsbin, "Ricci_eval", "rhs_eval"), (rhsbin, "rhs_eval", "specify_NewRad")]
            if c["t4"]:
                order += [(rhsbin, "T4DD_to_T4UU", "rhs_eval"), (conbin, "T4DD_to_T4UU", "BSSN_constraints")]
            order += [(post, "floor_the_lapse", "enforce_det")]
            order += [(post, "enforce_det", "BSSN_to_ADM")] if X else [(post, "specify_evol", "BSSN_to_ADM"), (conbin, "BSSN_constraints", "specify_aux")]
            for bin_, a, b in order:
                its, E = reach(act, bin_)
                ia = [n for n, it in enumerate(its) if it["fn"].startswith(f"{th}_{a}")][0]
                ib = [n for n, it in enumerate(its) if it["fn"].startswith(f"{th}_{b}")][0]
                m.observe(f"order {bin_} {a} {b} {th}")
                if ib not in E[ia]:
                    bad("order", f"in {bin_}, {its[ia]['fn']} is not scheduled before {its[ib]['fn']}")
                if ia in E[ib] or ia in E[ia]:
                    bad("order-cycle", f"in {bin_}, {its[ia]['fn']} and {its[ib]['fn']} are ordered in a cycle")
        for it in items:
            if not it["group"] and [x[0] for x in it["lang"]] != ["C"]:
                bad("lang", f"{it['fn']}: LANG {it['lang']}")
        values = {}
        for p, (t, dv) in prm.items():
            if t in ("CCTK_INT", "INT", "int"):
                values[p] = c["orders"][0] if p == "FD_order" else int(dv)
            else:
                float(dv) if p != "PI" else abs(float(dv) - math.pi) < 1e-15 or bad("pi", f"PI = {dv}")
                values[p] = math.pi if p == "PI" else r.uniform(0.7, 0.9) if p == "lapse_floor" else round(r.uniform(0.2, 1.4), 3)
        needp = {"eta", "FD_order", "lapse_floor"} | ({"PI"} if c["t4"] else set()) | (({"diss_strength_gauge", "diss_strength_nongauge"} if c["cako"] else {"diss_strength"}) if c["ko"] else set())
        needp |= ({"SSL_h", "SSL_sigma"} if c["ssl"] else set()) | ({"C_CAHD", "CFL_FACTOR__ignore_repeats_Carpet_timeref_factors"} if c["cahd"] else set())
        if not needp <= set(prm):
            bad("params", f"param.ccl lacks {sorted(needp - set(prm))}")
            return m.part()
        rc, log, V, srcs, fns = S.build(td, th, X, iface, prm, items, values, FLAGS.replace("-O1", "-O0") if X else FLAGS + (" -mavx2 -mfma" if c["simd"] else ""), jobs=2)
    except S.CCLError as ex:
        bad("ccl", str(ex))
        return m.part()
    t2 = time.time()
    ext = ".cxx" if X else ".c"
    if sorted(srcs) != sorted(f + ext for f in fns):
        bad("sources", f"make.code.defn lists {sorted(set(srcs) ^ {f + ext for f in fns})} unlike the schedule")
    if rc:
        bad("build", f"{log[-1800:]}")
        return m.part()
    # ---------------------------------------------------------------- data
    ng = [max(c["orders"]) // 2 + 1] * 3
    ni = [r.choice([6, 8]), r.choice([5, 6]), r.choice([5, 6])]
    lsh = [ni[a] + 2 * ng[a] for a in R3]
    ash = [lsh[0] + r.choice([0, 3]), lsh[1] + r.choice([0, 1]), lsh[2]]
    lev = r.choice([1, 2])
    delta = [round(r.uniform(0.2, 0.6), 4) for _ in R3]
    time_ = r.choice([0.0, 3.25])
    dx = [mp.mpf(x) / lev for x in delta]
    (td / "grid.txt").write_text("".join(f"{lsh[a]} {ash[a]} {ng[a]} {lev} {delta[a]!r} {-1.5!r}\n" for a in R3) + f"{time_!r}\n")
    n = ash[0] * ash[1] * ash[2]
    lin = lambda q: q[0] + ash[0] * (q[1] + ash[1] * q[2])
    rb = lambda nm: {"alpha": (0.8, 0.05), "cf": (0.9, 0.05), "trK": (0.1, 0.1)}.get(nm, (0.0, 0.04 if nm.startswith("h") else 0.1))
    D = {}
    for v in V:
        b = v[:-2] if v.endswith("GF") else v
        if v.endswith("_rhsGF") or b in ("H", "MSQUARED", "MU0", "MU1", "MU2"):
            D[v] = [POISON] * n
        elif v in ("gxx", "gyy", "gzz"):
            D[v] = smooth(r, ash, 1.3, 0.1)
        elif v == "alp":
            D[v] = smooth(r, ash, 0.8, 0.1)
        elif b.startswith("RbarDD"):
            D[v] = smooth(r, ash, 0.1, 0.2)
        elif b.startswith("T4UU") or v.startswith("eT"):
            D[v] = smooth(r, ash, 0.01, 0.01)
        else:
            D[v] = smooth(r, ash, *rb(b))
    box = [(i, j, l) for l in range(ash[2]) for j in range(ash[1]) for i in range(ash[0])]
    inside = {q for q in box if all(ng[a] <= q[a] < lsh[a] - ng[a] for a in R3)}
    owned = {q for q in box if all(q[a] < lsh[a] for a in R3)}
    for v in V:  # auxevol variables are declared valid in the interior only
        if v.startswith("RbarDD"):
            D[v] = [x if q in inside else math.nan for q, x in zip(box, D[v])]
    (td / "in.bin").write_bytes(b"".join(struct.pack(f"{n}d", *D[v]) for v in V))
    fl = sorted(fns)
    outs = []
    for t in (1, 3):
        rc, o, e = vlib.sh([str(td / "prog")] + fl, cwd=td, env=dict(OMP_NUM_THREADS=str(t)))[:3]
        rep = bhah.san_report(rc, e)
        if rc or rep or "CCTK_ERROR" in o or "INDEX" in o:
            bad("run", f"rc {rc} {rep or ''} {e[-600:]} {o[-300:]}")
            return m.part()
        outs.append((td / "out.bin").read_bytes())
    if outs[0] != outs[1] and not c["simd"]:
        bad("threads", "functions give other results with three threads than with one")
    raw = outs[0]
    sz = 8 * n * len(V)
    cache = {}

    def out(f, v):
        if (f, v) not in cache:
            o_ = fl.index(f) * sz + 8 * n * V.index(v)
            cache[f, v] = struct.unpack(f"{n}d", raw[o_:o_ + 8 * n])
        return cache[f, v]

    # ---------------------------------------------------------------- recorded calls
    calls, cur = {}, None
    for ln in o.splitlines():
        w = ln.split()
        if w and w[0] == "FUNC":
            cur = calls.setdefault(w[1], [])
        elif w and w[0] == "CALL":
            cur.append(w[1:])
    unk = sorted({w[1] for f in calls.values() for w in f if w[0] == "UnknownParameter"})
    if unk:
        bad("unknown-parameter", f"parameters requested that param.ccl does not declare: {unk}")
    allc = [w for f in calls.values() for w in f]
    decl = iface["functions"]
    for kind, need in dict(MoL="MoLRegisterEvolvedGroup", Boundary="Boundary_SelectVarForBC", Driver="Driver_SelectVarForBC", Extrapolate="ExtrapolateGammas", NewRad="NewRad_Apply").items():
        if not X and any(w[0] == kind for w in allc) and need not in decl:
            bad("function-decl", f"{need} is called but not declared in interface.ccl")
    sel = lambda kind: [tuple(w[1:]) for w in allc if w[0] == kind]
    full = lambda g: f"{th}::{g}GF"
    gfs = gri.glb_gridfcs_dict
    bw = str(c["orders"][0] // 2 + 1)
    finf = {"alpha": (1.0, math.sqrt(2)), "cf": (0.0 if c["cf"] == "phi" else 1.0, 1.0)}

    def cmp_calls(kind, got, exp):
        m.observe(f"calls {kind} {th}")
        m.count("recorded calls", len(got))
        if sorted(got) != sorted(exp):
            bad("calls-" + kind, f"{kind}: unexpected {sorted(set(got) - set(exp))[:4]}, missing {sorted(set(exp) - set(got))[:4]}, {len(got)} calls for {len(exp)}")
    nr = [(a, b, f"{float(v0):.12g}", f"{float(s):.12g}", p) for a, b, v0, s, p in sel("NewRad")]
    cmp_calls("NewRad", nr, [(g + "GF", g + "_rhsGF", f"{finf.get(g, (0.0, 1.0))[0]:.12g}", f"{finf.get(g, (0.0, 1.0))[1]:.12g}", "1") for g in EVOL])
    if not X:
        cmp_calls("Sym", sel("Sym"), [(full(g),) + tuple(str(s) for s in parity(g, o_.dimension)) for g, o_ in gfs.items() if o_.group in ("EVOL", "AUX", "AUXEVOL")])
        faces = str(0x1248)
        ev = [(full(g), "none", "1", faces, "-1") for g, o_ in gfs.items() if o_.group == "EVOL"]
        ax = [(full(g), "flat", bw, faces, "-1") for g, o_ in gfs.items() if o_.group == "AUX"]
        cmp_calls("Driver", sel("Driver"), ev + ax)
        cmp_calls("Boundary", [w for w in sel("Boundary")], ev + ax)
        cmp_calls("Extrapolate", sel("Extrapolate"), [(f"lambdaU{i}GF",) for i in R3] * len(c["orders"]))
        gl = list(G)
        cmp_calls("MoL", sel("MoL"), [(str(gl.index("evol_variables")), str(gl.index("evol_variables_rhs")))])
        cmp_calls("Slicing", sel("Slicing"), [(th,)])
    # ---------------------------------------------------------------- what each function touched
    same = lambda a, b: a == b or (a != a and b != b)
    for f in fl:
        rd, wr = fns[f]
        for v in V:
            if v not in wr and v in rd:
                o_ = out(f, v)
                if any(not same(a, b) for a, b in zip(o_, D[v])):
                    bad("wrote", f"{f} changes {v}, which it only reads")
            if v in wr and f != f"{th}_specify_NewRad_BoundaryConditions_parameters":
                ch = {q for q, a, b in zip(box, out(f, v), D[v]) if not same(a, b)}
                reg = owned if wr[v] == "everywhere" else inside
                m.count("write regions judged")
                m.observe(f"region {f} {v} {k}")
                if v.endswith("_rhsGF") or v[:-2] in ("H", "MSQUARED", "MU0", "MU1", "MU2"):
                    if not reg <= ch:
                        bad("not-written", f"{f} leaves {v} unset at {sorted(reg - ch)[:3]} of its declared region")
                if wr[v] == "interior" and not c["simd"] and not ch <= inside:
                    bad("outside", f"{f} writes {v} outside the declared interior at {sorted(ch - inside)[:3]}")
                if not ch <= owned and not c["simd"]:
                    bad("outside", f"{f} writes {v} outside the grid at {sorted(ch - owned)[:3]}")
    # ---------------------------------------------------------------- algebraic functions, every point
    E4 = {"W": lambda x: x ** -2, "chi": lambda x: 1 / x, "phi": lambda x: math.exp(4 * x)}[c["cf"]]  # e^{4 phi}
    CFE = {"W": lambda e4: e4 ** -0.5, "chi": lambda e4: 1 / e4, "phi": lambda e4: math.log(e4) / 4}[c["cf"]]
    XX = ["xx", "xy", "xz", "yy", "yz", "zz"]
    kr = lambda i, j: 1.0 if i == j else 0.0
    nb = {}

    def judge(f, v, q, exp, tol=1e-11):
        g = out(f, v)[lin(q)]
        m.observe()
        m.count("values compared")
        if not abs(g - exp) <= tol * max(1.0, abs(exp)):
            nb[f] = nb.get(f, 0) + 1
            if nb[f] <= 2:
                bad("value", f"{f}: {v} at {q} is {g!r}, expected {float(exp)!r}")
    inp = lambda v, q: D[v][lin(q)]
    pts = sorted(owned)
    r.shuffle(pts)
    for q in pts[:120]:
        for o in c["orders"]:
            f = f"{th}_ADM_to_BSSN_order_{o}"
            gam = sym3(inp, q, ["g" + a for a in XX])
            K = sym3(inp, q, ["k" + a for a in XX])
            det = det3(gam)
            gi = inv3(gam)
            e4 = det ** (1 / 3)
            trK = sum(gi[i][j] * K[i][j] for i in R3 for j in R3)
            judge(f, "cfGF", q, CFE(e4))
            judge(f, "trKGF", q, trK)
            judge(f, "alphaGF", q, inp("alp", q))
            for i in R3:
                judge(f, f"vetU{i}GF", q, inp("beta" + "xyz"[i], q))
                judge(f, f"betU{i}GF", q, inp("dtbeta" + "xyz"[i], q))
            for i, j in SYM:
                judge(f, f"hDD{i}{j}GF", q, gam[i][j] / e4 - kr(i, j))
                judge(f, f"aDD{i}{j}GF", q, (K[i][j] - gam[i][j] * trK / 3) / e4)
        f = f"{th}_BSSN_to_ADM"
        h = sym3(inp, q, [f"hDD{i}{j}GF" for i, j in SYM])
        aa = sym3(inp, q, [f"aDD{i}{j}GF" for i, j in SYM])
        e4 = E4(inp("cfGF", q))
        judge(f, "alp", q, inp("alphaGF", q))
        for i in R3:
            judge(f, "beta" + "xyz"[i], q, inp(f"vetU{i}GF", q))
            judge(f, "dtbeta" + "xyz"[i], q, inp(f"betU{i}GF", q))
        for (i, j), a in zip(SYM, XX):
            g_ = e4 * (kr(i, j) + h[i][j])
            judge(f, "g" + a, q, g_)
            judge(f, "k" + a, q, e4 * aa[i][j] + g_ * inp("trKGF", q) / 3)
        judge(f"{th}_floor_the_lapse", "alphaGF", q, max(inp("alphaGF", q), values["lapse_floor"]), 0)
        gb = [[kr(i, j) + h[i][j] for j in R3] for i in R3]
        dt = det3(gb)
        for i, j in SYM:
            judge(f"{th}_enforce_detgammahat_constraint", f"hDD{i}{j}GF", q, dt ** (-1 / 3) * gb[i][j] - kr(i, j))
        for v in G["evol_variables_rhs"][0]:
            judge(f"{th}_zero_rhss", v, q, 0.0, 0)
        if c["t4"]:
            al = inp("alphaGF", q)
            be = [inp(f"vetU{i}GF", q) for i in R3]
            gi = inv3([[e4 * (kr(i, j) + h[i][j]) for j in R3] for i in R3])
            # the repository normalises det(gammabar)=1 when inverting; so do these fields only approximately
            g4 = [[-1 / al**2] + [be[i] / al**2 for i in R3]] + [[be[i] / al**2] + [gi[i][j] - be[i] * be[j] / al**2 for j in R3] for i in R3]
            T = [[0.0] * 4 for _ in range(4)]
            for a, b in SYM4:
                T[a][b] = T[b][a] = inp("eT" + "txyz"[a] + "txyz"[b], q)
            for a, b in SYM4:
                judge(f"{th}_T4DD_to_T4UU", f"T4UU{a}{b}GF", q, sum(T[x][y] * g4[a][x] * g4[b][y] for x in range(4) for y in range(4)))
    m.count("points (algebraic)", 120)
    # lambda^i: same-order differences of the conformal metric the function itself produced
    pin = sorted(inside)
    r.shuffle(pin)
    for o in c["orders"]:
        f = f"{th}_ADM_to_BSSN_order_{o}"
        for q in pin[:25]:
            H = lambda nm, p: out(f, nm)[lin(p)]
            gb = sym3(H, q, [f"hDD{i}{j}GF" for i, j in SYM])
            gb = [[kr(i, j) + gb[i][j] for j in R3] for i in R3]
            gi = inv3(gb)
            dg = [[[sum(float(w) * H(f"hDD{min(i, j)}{max(i, j)}GF", [q[a] + off[a] for a in R3]) for off, w in stencil(f"dD{l}", o).items()) / float(dx[l]) for l in R3] for j in R3] for i in R3]
            for i in R3:
                lam = sum(gi[j][l] * 0.5 * sum(gi[i][s] * (dg[s][l][j] + dg[s][j][l] - dg[j][l][s]) for s in R3) for j in R3 for l in R3)
                judge(f, f"lambdaU{i}GF", q, lam, 1e-10)
    # ---------------------------------------------------------------- differential kernels
    with quiet():
        from nrpy.equations.general_relativity.BSSN_RHSs import BSSN_RHSs
        from nrpy.equations.general_relativity.BSSN_gauge_RHSs import BSSN_gauge_RHSs
        from nrpy.equations.general_relativity.BSSN_constraints import BSSN_constraints
        from nrpy.equations.general_relativity.BSSN_quantities import BSSN_quantities
        sfx = "_T4munu" if c["t4"] else ""
        ref = dict(BSSN_RHSs["Cartesian_RbarDD_gridfunctions" + sfx].BSSN_RHSs_varname_to_expr_dict)
        al_, ve_, be_ = BSSN_gauge_RHSs(CoordSystem="Cartesian", enable_rfm_precompute=False, enable_T4munu=c["t4"], LapseEvolutionOption=c["lapse"], ShiftEvolutionOption=c["shift"])
        ref["alpha_rhs"] = al_
        for i in R3:
            ref[f"vet_rhsU{i}"], ref[f"bet_rhsU{i}"] = ve_[i], be_[i]
        ref = {kk.replace("_rhs", ""): v for kk, v in ref.items()}
        conR = BSSN_constraints["Cartesian_RbarDD_gridfunctions" + sfx] if c["cahd"] else None
        con = BSSN_constraints["Cartesian" + sfx]
        Bq = BSSN_quantities["Cartesian"]
    t3 = time.time()
    for o in c["orders"]:
        for pt, q in enumerate(pin[:3 if QUICK else 6]):

            def fdv(g, op):
                nm = op.rstrip("0123456789")
                dirs = [int(z) for z in op[len(nm):]]
                if nm == "dupD" and not D[f"vetU{dirs[0]}GF"][lin(q)] > 0:
                    op = op.replace("dup", "ddn")
                s = mp.mpf(0)
                for off, w in stencil(op, o).items():
                    s += mp.mpf(w.numerator) / w.denominator * D[g + "GF"][lin([q[a] + off[a] for a in R3])]
                for a in dirs:
                    s /= dx[a]
                return s

            def value(name):
                if name + "GF" in D:
                    return mp.mpf(D[name + "GF"][lin(q)])
                if name in values:
                    return mp.mpf(values[name])
                if name == "PI":
                    return mp.pi + 0
                mm = re.fullmatch(r"(.+)_(d(?:up|dn|KO)?D{1,2})(\d+)", name)
                if mm:
                    b, op, ix = mm.groups()
                    nd = 2 if op == "dDD" else 1
                    return fdv(b + ix[:-nd], op + ix[-nd:])
                raise vlib.HarnessError("symbol " + name)
            base = {}

            def ev(pert):
                pr = rng("pert", k, pt, pert)
                vals = {}

                def look(name):
                    if name not in vals:
                        if name not in base:
                            base[name] = value(name)
                        v = base[name]
                        vals[name] = v * (1 + mp.mpf(10) ** -11 * pr.choice([-1, 1])) if pert and name != "PI" else v
                    return vals[name]
                E = DagEval(look)
                W = {"W": lambda x: x, "chi": mp.sqrt, "phi": lambda x: mp.exp(-2 * x)}[c["cf"]](look("cf"))
                res = {}
                for g in EVOL:
                    v = E(ref[g])
                    if c["ko"] and not (g[:3] == "bet" and "2ndOrder" not in c["shift"]):
                        gauge = g == "alpha" or g[:3] in ("vet", "bet")
                        s = W * values["diss_strength_gauge" if gauge else "diss_strength_nongauge"] if c["cako"] else values["diss_strength"]
                        for a in R3:
                            v += s * look(f"{g}_dKOD{a}" if not g[-1].isdigit() else re.sub(r"(\d+)$", rf"_dKOD\g<1>{a}", g))
                    if g == "cf" and c["cahd"]:
                        pre = mp.mpf(values["C_CAHD"]) * values["CFL_FACTOR__ignore_repeats_Carpet_timeref_factors"] * min(dx)
                        v += -pre * E(conR.H) * {"phi": 1, "W": -2 * look("cf"), "chi": -4 * look("cf")}[c["cf"]]
                    if g == "alpha" and c["ssl"]:
                        v -= W * mp.mpf(values["SSL_h"]) * mp.exp(-mp.mpf(time_) ** 2 / (2 * mp.mpf(values["SSL_sigma"]) ** 2)) * (look("alpha") - W)
                    res[f"{th}_rhs_eval_order_{o}", g + "_rhs"] = v
                f = f"{th}_BSSN_constraints_order_{o}"
                res[f, "H"], res[f, "MSQUARED"] = E(con.H), E(con.Msquared)
                for i in R3:
                    res[f, f"MU{i}"] = E(con.MU[i])
                for i, j in SYM:
                    res[f"{th}_Ricci_eval_order_{o}", f"RbarDD{i}{j}"] = E(Bq.Ricci_exprs[Bq.Ricci_varnames.index(f"RbarDD{i}{j}")])
                return res
            r0, r1, r2 = ev(0), ev(1), ev(2)
            for kk, v in r0.items():
                tol = 3 * max(abs(r1[kk] - v), abs(r2[kk] - v)) + mp.mpf(10) ** -11 * abs(v) + mp.mpf(10) ** -13
                g = out(kk[0], kk[1] + "GF")[lin(q)]
                m.observe()
                m.count("kernel values compared")
                if not abs(g - v) <= tol:
                    nb[kk[0]] = nb.get(kk[0], 0) + 1
                    if nb[kk[0]] <= 3:
                        bad("kernel", f"{kk[0]}: {kk[1]} at {q}: {g!r}, expected {mp.nstr(v, 17)} (tolerance {mp.nstr(tol, 3)})")
            m.observe(f"{th} {o} {q} {k}", n=0)
    m.count("thorns")
    if "-v" in sys.argv:
        print(tag, "gen", round(t1 - t0), "build", round(t2 - t1), "judge", round(t3 - t2), "eval", round(time.time() - t3), file=sys.stderr)
    return m.part()


def main():
    m = Monitor("C21", rule="distinct schedule relations, call lists, write regions and kernel points judged")
    jobs = list(range(5 if QUICK else 24))
    for i, st, res in run_isolated(thorn, jobs, timeout=700):
        if st == "ok":
            m.merge(res)
        else:
            raise vlib.HarnessError(f"{i}: {st} {res}")
    m.require("thorns", 1)
    m.require("kernel values compared", 50)
    m.finish()


vlib.main(main)
