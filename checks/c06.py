"""C06: curvilinear boundary conditions hold at every ghost point of every coordinate system."""
import math
import struct
import traceback
import vlib
from vlib import Monitor, run_isolated, rng, scratch, QUICK
import bhah
import coords as co
import gridproj as gp

SYM = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)]


def cases():
    out = []
    reps = 1 if QUICK else 6
    for rep in range(reps):
        for cs in co.ALL:
            out.append((cs, rep))
    return out


def pick(cs, rep):
    r = rng("c06", cs, rep)
    fd = r.choice([2, 4, 6])
    ng = fd // 2
    fam = co.family(cs)
    lo = max(2 * ng, 5)
    N = [r.randint(lo, lo + 3) for _ in range(3)]
    even = lambda n: n + (n & 1)
    if fam in ("sph", "symtp"):
        N[2] = even(N[2]); N[1] = max(N[1], 4)
        if r.random() < 0.25 and cs != "RingHoleySinhSpherical" and fd <= 4:
            N[2] = 2
    elif fam == "cyl":
        N[1] = even(N[1])
        if r.random() < 0.25 and fd <= 4:
            N[1] = 2
    rad = r.choice([2, 4, 6])
    if min(N) + 2 * ng < rad + 2:
        rad = 2
    size = r.choice([1.0, 7.5, 10.0, 100.0])
    hole = size * r.uniform(0.3, 0.5)
    if cs == "HoleySinhSpherical" or cs == "RingHoleySinhSpherical" or "Wedge" in cs:
        N[0] += 4
    if cs == "RingHoleySinhSpherical" or "Wedge" in cs:
        N[1] = max(N[1], 2 * ng + 4)
    return dict(cs=cs, rep=rep, fd=fd, N=N, rad=rad, size=size, hole=hole)


def task(c):
    cfg = pick(*c)
    cs = cfg["cs"]
    m = Monitor("C06")
    d = scratch(f"c06_{cs}_{cfg['rep']}")
    import nrpy.params as par
    tag = f"{cs} Nxx={cfg['N']} fd={cfg['fd']} rad={cfg['rad']} size={cfg['size']}"
    try:
        with vlib.quiet():
            gp.register([cs], [cfg["size"]], {cs: cfg["N"]}, cfg["fd"], cfg["rad"])
            r = rng("c06p", cs, cfg["rep"])
            G = par.glb_code_params_dict
            for w in ("SINHW", "SINHWRHO", "SINHWZ", "SINHWXYZ", "SINHWAA"):
                if w in G:
                    par.adjust_CodeParam_default(w, round(r.uniform(0.15, 0.6), 3))
            for w in ("r_slope", "rho_slope", "z_slope"):
                if w in G:
                    par.adjust_CodeParam_default(w, round(cfg["size"] * r.uniform(0.02, 0.3), 3))
            if "bScale" in G:
                par.adjust_CodeParam_default("bScale", round(cfg["size"] * r.uniform(0.05, 0.4), 3))
            if "grid_hole_radius" in G:
                par.adjust_CodeParam_default("grid_hole_radius", round(cfg["hole"], 3))
            gp.finish(d)
    except Exception as e:
        tb = traceback.format_exc()
        if "/repo/" in tb:
            m.violation(f"codegen-{cs}", f"{tag}: generation failed: {e}", tb)
            return m.part()
        raise
    rc, log = bhah.make(d, jobs=2)
    if rc:
        m.violation(f"compile-{cs}", f"{tag}: generated project does not compile", log[-3000:])
        return m.part()
    rc, out, err = bhah.run(d, ["info"])
    rep = bhah.san_report(rc, err)
    if rc or rep:
        m.violation(f"setup-{cs}", f"{tag}: grid/BC set-up failed rc={rc}: {(rep or err or out[-500:])[:1200]}")
        return m.part()
    C, P, X = gp.info(out)
    p, xx = P[0], X[0]
    NG = int(C["NGHOSTS"])
    n = [len(xx[i]) for i in range(3)]
    ord_ = gp.gf_order(d)
    ntot = n[0] * n[1] * n[2]
    comp = {}  # gf index -> ("s",) ("v",i) ("t",i,j)
    comp[ord_["UU"]] = ("s",)
    for i in range(3):
        comp[ord_[f"VU{i}"]] = ("v", i)
    for i, j in SYM:
        comp[ord_[f"HDD{i}{j}"]] = ("t", i, j)
    ngf = len(comp)
    pts = [(i, j, k) for k in range(n[2]) for j in range(n[1]) for i in range(n[0])]
    lin = lambda q: q[0] + n[0] * (q[1] + n[1] * q[2])
    interior = [all(NG <= q[a] < n[a] - NG for a in range(3)) for q in pts]
    lo = [p[f"xxmin{a}"] for a in range(3)]
    dx = [p[f"dxx{a}"] for a in range(3)]
    src = []
    for q, inn in zip(pts, interior):
        if inn:
            src.append(lin(q)); continue
        x = [xx[a][q[a]] for a in range(3)]
        f = co.fold(cs, x)
        g = [round((f[a] - lo[a]) / dx[a] - 0.5) + NG for a in range(3)]
        if any(abs((f[a] - lo[a]) / dx[a] - 0.5 + NG - g[a]) > 1e-6 or not 0 <= g[a] < n[a] for a in range(3)):
            raise vlib.HarnessError(f"{tag}: fold of {q} leaves the grid: {f}")
        src.append(lin(g))
    canon = [src[i] == i for i in range(ntot)]
    r = rng("c06f", cs, cfg["rep"])
    # Cartesian tensor field
    S = cfg["size"]
    cf = lambda: [r.uniform(-1.5, 1.5) for _ in range(4)]
    sc, vc, tc = cf(), [cf() for _ in range(3)], {ij: cf() for ij in SYM}
    ev = lambda c, Xc: 1.0 + math.sin(c[0] + (c[1] * Xc[0] + c[2] * Xc[1] + c[3] * Xc[2]) / S)
    exact = [[0.0] * ntot for _ in range(ngf)]
    for l, q in enumerate(pts):
        x = [xx[a][q[a]] for a in range(3)]
        Xc = co.cartr(cs, x, p)
        e = co.units(cs, x, p)
        V = [ev(c, Xc) for c in vc]
        T = {ij: ev(c, Xc) for ij, c in tc.items()}
        for gf, k in comp.items():
            if k[0] == "s":
                v = ev(sc, Xc)
            elif k[0] == "v":
                v = sum(V[a] * e[k[1]][a] for a in range(3))
            else:
                v = sum(T[(min(a, b), max(a, b))] * e[k[1]][a] * e[k[2]][b] for a in range(3) for b in range(3))
            exact[gf][l] = v
    NAN = float("nan")
    inA = [exact[g][l] if canon[l] else NAN for g in range(ngf) for l in range(ntot)]
    inB = [r.uniform(-1, 1) if interior[l] else NAN for g in range(ngf) for l in range(ntot)]
    # radiation: per-gf polynomial in normalised coordinates
    D = cfg["rad"]
    polys = []
    for g in range(ngf):
        terms = []
        for _ in range(4):
            terms.append((r.uniform(-1, 1), [r.randint(0, D) for _ in range(3)]))
        polys.append(terms)
    mid = [(xx[a][0] + xx[a][-1]) / 2 for a in range(3)]
    half = [(xx[a][-1] - xx[a][0]) / 2 for a in range(3)]

    def pol(g, q, der=None):
        u = [(xx[a][q[a]] - mid[a]) / half[a] for a in range(3)]
        t = 0.0
        for c, ex in polys[g]:
            v = c
            for a in range(3):
                if a == der:
                    v *= ex[a] * u[a] ** (ex[a] - 1) / half[a] if ex[a] else 0.0
                else:
                    v *= u[a] ** ex[a]
            t += v
        return t

    inC = [pol(g, q) for g in range(ngf) for q in pts]
    ws = [r.uniform(0.3, 2) for _ in range(ngf)]
    fi = [r.uniform(-1, 1) for _ in range(ngf)]
    rhsC = [r.uniform(-1, 1) if interior[l] else NAN for g in range(ngf) for l in range(ntot)]
    with open(d / "in.bin", "wb") as f:
        f.write(struct.pack("2i", 0, 0) + gp.pack(inA))
        f.write(struct.pack("2i", 1, 0) + gp.pack(inB))
        f.write(struct.pack("2i", 2, 0) + gp.pack(inC) + gp.pack(ws) + gp.pack(fi) + gp.pack(rhsC))
    outs = []
    for th in (1, 4):
        rc, out, err = bhah.run(d, ["ops"], env={"OMP_NUM_THREADS": str(th)})
        rep = bhah.san_report(rc, err)
        if rc or rep:
            m.violation(f"run-{cs}", f"{tag}: threads={th} rc={rc}: {(rep or err or out[-300:])[:1500]}")
            return m.part()
        outs.append((d / "out.bin").read_bytes())
    if outs[0] != outs[1]:
        m.violation("threads", f"{tag}: boundary conditions differ between 1 and 4 OpenMP threads")
    data = struct.unpack(f"{len(outs[0])//8}d", outs[0])
    N = ngf * ntot
    A, B, Crhs, Cg = data[:N], data[N:2 * N], data[2 * N:3 * N], data[3 * N:4 * N]
    same = lambda a, b: a == b or (a != a and b != b)
    nin = nout = 0
    names = {v: k for k, v in ord_.items()}

    def bad(mech, g, l, msg):
        m.violation(f"{mech}", f"{tag}: {names.get(g)} at ghost {pts[l]} (x={[xx[a][pts[l][a]] for a in range(3)]}): {msg}")

    for g in range(ngf):
        o = g * ntot
        for l in range(ntot):
            if canon[l]:
                if not same(A[o + l], inA[o + l]):
                    bad("inner-touches-canonical", g, l, f"apply_bcs_inner_only changed {inA[o+l]} to {A[o+l]}")
            else:
                nin += 1
                if not abs(A[o + l] - exact[g][l]) <= 1e-9 * (1 + abs(exact[g][l])):
                    bad("inner-value", g, l, f"inner BC gives {A[o+l]!r}, smooth field there is {exact[g][l]!r}")
        # extrapolation
        for l, q in enumerate(pts):
            v = B[o + l]
            if interior[l]:
                if v != inB[o + l]:
                    bad("extrap-touches-interior", g, l, f"{inB[o+l]} -> {v}")
                continue
            if v != v:
                bad("extrap-unset", g, l, "ghost point left unset (NaN)")
                continue
            if canon[l]:
                nout += 1
                ok = False
                for a in range(3):
                    s = 1 if q[a] < NG else -1 if q[a] >= n[a] - NG else 0
                    if not s:
                        continue
                    qs = []
                    for k in (1, 2, 3):
                        z = list(q); z[a] += s * k; qs.append(B[o + lin(z)])
                    ref = 3 * qs[0] - 3 * qs[1] + qs[2]
                    if abs(ref - v) <= 1e-9 * (1 + abs(qs[0]) * 3 + abs(qs[1]) * 3 + abs(qs[2])):
                        ok = True
                if not ok:
                    bad("extrap-value", g, l, f"value {v} is no quadratic extrapolation along any inward normal")
            else:
                s = B[o + src[l]]
                e1, e2 = exact[g][l], exact[g][src[l]]
                # parity: ratio of the field at the two representations of the same point
                par_ = 1 if abs(e1 - e2) <= abs(e1 + e2) else -1
                if abs(e1) > 1e-6 and v != par_ * s:
                    bad("inner-copies-source", g, l, f"{v} is not {par_}*source {s}")
        # radiation
        for l, q in enumerate(pts):
            if not same(Cg[o + l], inC[o + l]):
                bad("radiation-touches-gfs", g, l, f"{inC[o+l]} -> {Cg[o+l]}")
            v = Crhs[o + l]
            if interior[l]:
                if v != rhsC[o + l]:
                    bad("radiation-touches-interior", g, l, f"{rhsC[o+l]} -> {v}")
                continue
            if v != v:
                bad("radiation-unset", g, l, "rhs at ghost point left unset")
                continue
            if not canon[l]:
                continue
            ok = False
            refs = []
            for a in range(3):
                s = 1 if q[a] < NG else -1 if q[a] >= n[a] - NG else 0
                if not s:
                    continue
                z = list(q); z[a] += s
                tot = []
                scale = 0.0
                for w in (q, tuple(z)):
                    x = [xx[b][w[b]] for b in range(3)]
                    Xc = co.cartr(cs, x, p)
                    rr = math.sqrt(sum(t * t for t in Xc))
                    Ji = co.inv3(co.jac(cs, x, p))
                    dr = 0.0
                    for b in range(3):
                        dxdr = sum(Ji[b][k] * Xc[k] / rr for k in range(3))
                        t = dxdr * pol(g, w, b)
                        dr += t
                        scale += abs(t) + abs(dxdr) / half[b] * 20
                    f = pol(g, w)
                    tot.append((rr, -ws[g] * (dr + (f - fi[g]) / rr)))
                    scale += abs(f - fi[g]) / rr
                (r0, w0), (r1, w1) = tot
                ft = Crhs[o + lin(z)]
                ref = w0 + (r1 / r0) ** 3 * (ft - w1)
                scale = scale * max(1, (r1 / r0) ** 3) + abs(ft) * (r1 / r0) ** 3
                refs.append((ref, scale))
                if abs(ref - v) <= 1e-8 * scale:
                    ok = True
                    break
            nout += 1
            if not ok:
                bad("radiation-value", g, l, f"rhs {v} != outgoing-wave formula {refs}")
    m.count("inner ghost values", nin)
    m.count("outer ghost values", nout)
    m.count("projects")
    m.observe(key=tag, n=nin + nout, sample=f"{tag}: {nin} inner, {nout} outer ghost values")
    return m.part()


def main():
    m = Monitor("C06", rule="distinct (coordinate system, resolution, order) projects")
    for i, st, res in run_isolated(task, cases(), timeout=280, deadline=None if not QUICK else 200):
        if st == "ok":
            m.merge(res)
        elif st == "exc":
            raise vlib.HarnessError(f"{cases()[i]}: {res[2]}")
        else:
            m.count("abandoned")
            if st == "timeout":
                continue
            raise vlib.HarnessError(f"{cases()[i]}: {st} {res}")
    m.require("projects", 12)
    m.finish()


vlib.main(main)
