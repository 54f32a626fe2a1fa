"""C08: numerical grids, coordinate maps, CFL step and rfm lookup tables of generated projects."""
import math
import struct
import traceback
import vlib
from vlib import Monitor, run_isolated, rng, scratch, QUICK
import bhah
import coords as co
import gridproj as gp
import nrpy.c_codegen as ccg
import nrpy.c_function as cfc
import nrpy.grid as gri
import nrpy.params as par
import nrpy.reference_metric as refmetric
from nrpy.infrastructures.BHaH import simple_loop as lp
from nrpy.infrastructures.BHaH import xx_tofrom_Cart

CPU = " " + open("/proc/cpuinfo").read().replace("\n", " ") + " "
RANKS = dict(detgammahat=0, ReU=1, ReD=1, detgammahatdD=1, ghatDD=2, ghatUU=2, ReDD=2, ReUdD=2, ReDdD=2, ReDDdD=3, ghatDDdD=3, GammahatUDD=3)


def hat_exprs(rfm):
    out = {}

    def rec(name, t, rank):
        if rank == 0:
            out[name] = t
        else:
            for i in range(3):
                rec(name + str(i), t[i], rank - 1)

    for nm, rk in RANKS.items():
        rec(nm, getattr(rfm, nm), rk)
    return out


def pick(k):
    r = rng("c08", k)
    nc = r.choice([1, 1, 2, 3])
    base = co.ALL[k % len(co.ALL)]
    cs = [base]
    while len(cs) < nc:
        c = r.choice(co.ALL)
        if c not in cs:  # a CoordSystem can be registered once per project
            cs.append(c)
    if len(cs) > 1:
        r.shuffle(cs)
    fd = r.choice([2, 4, 6, 8])
    ng = fd // 2
    simd = r.random() < 0.4
    N = {}
    for c in cs:
        if c in N:
            continue
        n = [r.randint(max(ng, 4), 9) for _ in range(3)]
        f = co.family(c)
        if f in ("sph", "symtp"):
            n[2] = r.choice([2, 4, 6, 8]) if ng <= 2 else 8
        elif f == "cyl":
            n[1] = r.choice([2, 4, 6, 8]) if ng <= 2 else 8
        n = [max(v, ng) if v != 2 else v for v in n]
        if simd:
            n[0] = 8
        if "Holey" in c or "Wedge" in c:
            n[0] = max(n[0], 12) if not simd else 16
            n[1] = max(n[1], 2 * ng + 2)
        N[c] = n
    sizes = [r.choice([1.0, 3.25, 10.0, 200.0]) for _ in cs]
    if any("Holey" in c or "Wedge" in c for c in cs):
        sizes = [sizes[0]] * len(cs)  # grid_hole_radius is one parameter for all grids
    holes = min(sizes) * r.uniform(0.45, 0.6)
    cfs = [1.0] if simd else r.sample([1.0, 2.0, 1.5], 2)
    for c in cs:  # the number of phi cells must stay even (inner boundary map phi -> phi+pi)
        a = {"sph": 2, "symtp": 2, "cyl": 1}.get(co.family(c))
        if a is not None and 1.5 in cfs and N[c][a] != 2 and N[c][a] % 4:
            N[c][a] += 2
    return dict(k=k, cs=cs, fd=fd, N=N, sizes=sizes, hole=round(holes, 4), simd=simd, cfs=cfs, pre=True)


EXTRA = r"""
  if(argc>1 && strcmp(argv[1],"info0")!=0) {
    FILE *o=fopen("pts.bin","wb"), *in=fopen("frac.bin","rb");
    for(int g=0; g<commondata.NUMGRIDS; g++) {
      params_struct *params=&griddata[g].params;
      REAL orig[3]; int np; if(!in || fread(orig,sizeof(REAL),3,in)!=3 || fread(&np,sizeof(int),1,in)!=1) return 4;
      params->Cart_originx=orig[0]; params->Cart_originy=orig[1]; params->Cart_originz=orig[2];
      REAL *fx[3]; for(int d=0;d<3;d++) { fx[d]=(REAL*)malloc(sizeof(REAL)*np); if(fread(fx[d],sizeof(REAL),np,in)!=(size_t)np) return 4; }
      for(int i=0;i<np;i++) {
        REAL X[3], xx[3]={0,0,0}, xg[3]={0,0,0}; int id[3]={-7,-7,-7}, ig[3];
        xx_to_Cart(&commondata, params, fx, i,i,i, X);
        if(HAS_INV(params->CoordSystem_hash)) {
          Cart_to_xx_and_nearest_i0i1i2(&commondata, params, X, xx, id);
          const REAL Xl[3]={X[0]-orig[0],X[1]-orig[1],X[2]-orig[2]};
          Cart_to_xx_and_nearest_i0i1i2_global_grid_center(&commondata, params, Xl, xg, ig);
        }
        REAL buf[12]={X[0],X[1],X[2],xx[0],xx[1],xx[2],id[0],id[1],id[2],xg[0],xg[1],xg[2]};
        fwrite(buf,sizeof(REAL),12,o);
      }
      for(int d=0;d<3;d++) free(fx[d]);
    }
    if(in) fclose(in); fclose(o);
    FILE *h=fopen("hat.bin","wb");
    for(int g=0; g<commondata.NUMGRIDS; g++) {
      params_struct *params=&griddata[g].params;
      const size_t n=(size_t)NUM_AUX_GFS*params->Nxx_plus_2NGHOSTS0*params->Nxx_plus_2NGHOSTS1*params->Nxx_plus_2NGHOSTS2;
      for(int pass=0;pass<2;pass++) {
        REAL *q=(REAL*)malloc(sizeof(REAL)*n); for(size_t i=0;i<n;i++) q[i]=-12345.0;
        if(pass==0) hats_pre(&commondata, params, &griddata[g].rfmstruct, q); else hats_dir(&commondata, params, griddata[g].xx, q);
        fwrite(q,sizeof(REAL),n,h); free(q);
      }
    }
    fclose(h);
  }
"""


def task(k):
    cfg = pick(k)
    m = Monitor("C08")
    tag = f"{cfg['cs']} N={cfg['N']} fd={cfg['fd']} simd={cfg['simd']} sizes={cfg['sizes']}"
    d = scratch(f"c08_{k}")
    cs, simd = cfg["cs"], cfg["simd"]
    uniq = list(dict.fromkeys(cs))
    inv = [c for c in uniq if c not in co.NO_INVERSE]
    try:
        with vlib.quiet():
            gp.register(cs, cfg["sizes"], cfg["N"], cfg["fd"], 2, rfm_pre=True)
            r = rng("c08p", k)
            G = par.glb_code_params_dict
            for w in ("SINHW", "SINHWRHO", "SINHWZ", "SINHWXYZ", "SINHWAA"):
                if w in G:
                    par.adjust_CodeParam_default(w, round(r.uniform(0.15, 0.6), 3))
            for w in ("r_slope", "rho_slope", "z_slope"):
                if w in G:
                    par.adjust_CodeParam_default(w, round(min(cfg["sizes"]) * r.uniform(0.02, 0.3), 3))
            if "bScale" in G:
                par.adjust_CodeParam_default("bScale", round(min(cfg["sizes"]) * r.uniform(0.05, 0.4), 3))
            if "grid_hole_radius" in G:
                par.adjust_CodeParam_default("grid_hole_radius", cfg["hole"])
            cfl = round(r.uniform(0.1, 0.9), 3)
            if "CFL_FACTOR" in G:
                par.adjust_CodeParam_default("CFL_FACTOR", cfl)
            for c in inv:
                xx_tofrom_Cart.register_CFunction__Cart_to_xx_and_nearest_i0i1i2(CoordSystem=c)
                xx_tofrom_Cart.register_CFunction__Cart_to_xx_and_nearest_i0i1i2(CoordSystem=c, relative_to="global_grid_center")
            extra_pre = ""
            if not inv:
                sig = "const commondata_struct *restrict c, const params_struct *restrict p, const REAL xCart[3], REAL xx[3], int i[3]"
                extra_pre = f"static void Cart_to_xx_and_nearest_i0i1i2({sig}) {{ (void)c;(void)p;(void)xCart;(void)xx;(void)i; }}\nstatic void Cart_to_xx_and_nearest_i0i1i2_global_grid_center({sig}) {{ (void)c;(void)p;(void)xCart;(void)xx;(void)i; }}\n"
            extra_pre += "#define HAS_INV(h) (0" + "".join(f" || (h)=={c.upper()}" for c in inv) + ")\n"
            # hatted quantities: with lookup tables (possibly SIMD) and directly
            zero = {}
            names = []
            for c in uniq:
                zero[c] = {}
                for pre in (True, False):
                    ex = hat_exprs(refmetric.reference_metric[c + ("_rfm_precompute" if pre else "")])
                    nz = {n: e for n, e in ex.items() if e != 0}
                    zero[c][pre] = set(ex) - set(nz)
                    for n in nz:
                        if n not in names:
                            names.append(n)
            names.sort()
            cap = 18 if simd else 40
            if QUICK and len(names) > cap:
                names = sorted(r.sample(names, cap))
            for n in names:
                gri.register_gridfunctions("q_" + n + "q", group="AUX")
            for c in uniq:
                for pre in (True, False):
                    ex = hat_exprs(refmetric.reference_metric[c + ("_rfm_precompute" if pre else "")])
                    nz = [n for n in names if ex[n] != 0]
                    s = simd and pre
                    body = lp.simple_loop(
                        loop_body=ccg.c_codegen(
                            [ex[n] for n in nz],
                            [gri.BHaHGridFunction.access_gf("q_" + n + "q", gf_array_name="q") for n in nz],
                            enable_simd=s, verbose=False, enable_fd_codegen=s,
                        ),
                        loop_region="interior", enable_simd=s, CoordSystem=c, enable_rfm_precompute=pre, read_xxs=not pre,
                        OMP_collapse=r.choice([1, 2]),
                    )
                    cfc.register_CFunction(
                        includes=["BHaH_defines.h"] + (["intrinsics/simd_intrinsics.h"] if s else []),
                        desc="hats", CoordSystem_for_wrapper_func=c, name="hats_pre" if pre else "hats_dir",
                        params="const commondata_struct *restrict commondata, const params_struct *restrict params, "
                        + ("const rfm_struct *restrict rfmstruct" if pre else "REAL *restrict xx[3]") + ", REAL *restrict q",
                        include_CodeParameters_h=True, enable_simd=s, body=body,
                    )
            gp.finish(d, extra=EXTRA, extra_pre=extra_pre, rfm_pre=True, simd=simd)
    except Exception as e:
        tb = traceback.format_exc()
        if "/repo/" in tb:
            m.violation("codegen", f"{tag}: generation failed: {e}", tb)
            return m.part()
        raise
    flags = bhah.SAN
    if simd and " avx2 " in CPU and " fma " in CPU:
        flags += " -mavx2 -mfma"
    rc, log = bhah.make(d, jobs=2, flags=flags)
    if rc:
        m.violation("compile", f"{tag}: generated project does not compile", log[-3000:])
        return m.part()
    ord_ = gp.gf_order(d)
    for cf in cfg["cfs"]:
        # phase 1: fractional positions need the grid; ask for it
        rc, out, err = bhah.run(d, ["info0", cf])
        C, P, X = gp.info(out)
        if rc or bhah.san_report(rc, err):
            m.violation("setup", f"{tag} cf={cf}: grid set-up failed rc={rc}: {(bhah.san_report(rc, err) or err)[:1500]}")
            return m.part()
        NG = int(C["NGHOSTS"])
        if int(C["NUMGRIDS"]) != len(cs):
            m.violation("numgrids", f"{tag}: NUMGRIDS={C['NUMGRIDS']} for {len(cs)} grids")
            return m.part()
        if C["time"] != 0 or C["nn"] != 0:
            m.violation("time-init", f"{tag}: time={C['time']} nn={C['nn']} after first set-up")
        dsmin = 1e300
        buf = b""
        req = []
        rr = rng("c08f", k, cf)
        for g, c in enumerate(cs):
            p = P[g]
            size = cfg["sizes"][g]
            bad = lambda mech, msg: m.violation(mech, f"{tag} cf={cf} grid {g} ({c}): {msg}")
            if p["grid_physical_size"] != size:
                bad("size", f"grid_physical_size={p['grid_physical_size']} != {size}")
            for kk, v in co.size_params(c, size).items():
                if p.get(kk) != v:
                    bad("size-param", f"{kk}={p.get(kk)} for grid_physical_size {size}")
            lo, hi = co.ranges(c, p)
            for a in range(3):
                n0 = cfg["N"][c][a]
                n = n0 if n0 == 2 else int(n0 * cf)
                if p[f"Nxx{a}"] != n or p[f"Nxx_plus_2NGHOSTS{a}"] != n + 2 * NG or len(X[g][a]) != n + 2 * NG:
                    bad("nxx", f"Nxx{a}={p[f'Nxx{a}']} expected {n}")
                    return m.part()
                L = hi[a] - lo[a]
                eps = 1e-12 * max(abs(lo[a]), abs(hi[a]))
                if abs(p[f"xxmin{a}"] - lo[a]) > eps or abs(p[f"xxmax{a}"] - hi[a]) > eps:
                    bad("range", f"direction {a}: [{p[f'xxmin{a}']},{p[f'xxmax{a}']}], documented [{lo[a]},{hi[a]}]")
                dx = L / n
                if abs(p[f"dxx{a}"] - dx) > 1e-12 * dx or abs(p[f"invdxx{a}"] * dx - 1) > 1e-12:
                    bad("dxx", f"dxx{a}={p[f'dxx{a}']} invdxx{a}={p[f'invdxx{a}']}, expected {dx}")
                for j, v in enumerate(X[g][a]):
                    if abs(v - (lo[a] + (j - NG + 0.5) * dx)) > 1e-11 * (abs(lo[a]) + L):
                        bad("xx", f"xx[{a}][{j}]={v}, cell centre {lo[a]+(j-NG+0.5)*dx}")
                        break
                m.observe(n=n + 2 * NG)
            xs = X[g]
            for i in range(len(xs[0])):
                for j in range(len(xs[1])):
                    for l in range(len(xs[2])):
                        h = co.scale(c, [xs[0][i], xs[1][j], xs[2][l]], p)
                        dsmin = min(dsmin, *(abs(h[a] * p[f"dxx{a}"]) for a in range(3)))
            np = 60
            org = [rr.choice([0.0, rr.uniform(-3, 3)]) for _ in range(3)]
            if rr.random() < 0.3:
                org = [0.0] * 3
            fx = [[], [], []]
            idx = []
            for _ in range(np):
                q = []
                fr = [rr.uniform(-0.42, 0.42) for _ in range(3)] if rr.random() < 0.6 else [0, 0, 0]
                for a in range(3):
                    i = rr.randint(NG, len(xs[a]) - NG - 1)
                    q.append(i)
                    fx[a].append(xs[a][i] + fr[a] * p[f"dxx{a}"])
                idx.append(q)
            buf += struct.pack("3di", *org, np)
            for a in range(3):
                buf += gp.pack(fx[a])
            req.append((org, fx, idx))
        if abs(C["dt"] - C["CFL"] * dsmin) > 1e-11 * dsmin or C["CFL"] != cfl:
            m.violation("dt", f"{tag} cf={cf}: dt={C['dt']} but CFL_FACTOR({C['CFL']}) * smallest grid spacing({dsmin}) = {C['CFL']*dsmin}")
        m.count("dt checked")
        (d / "frac.bin").write_bytes(buf)
        hats = []
        for th in (1, 3):
            rc, out, err = bhah.run(d, ["info", cf], env={"OMP_NUM_THREADS": str(th)})
            rep = bhah.san_report(rc, err)
            if rc or rep:
                m.violation("run", f"{tag} cf={cf}: rc={rc} {(rep or err)[:1500]}")
                return m.part()
            hats.append((d / "hat.bin").read_bytes())
        if hats[0] != hats[1]:
            m.violation("threads", f"{tag} cf={cf}: lookup-table loop differs between 1 and 3 threads")
        pts = (d / "pts.bin").read_bytes()
        vals = struct.unpack(f"{len(pts)//8}d", pts)
        off = 0
        for g, c in enumerate(cs):
            p = P[g]
            org, fx, idx = req[g]
            for i in range(len(idx)):
                v = vals[off:off + 12]
                off += 12
                x = [fx[a][i] for a in range(3)]
                Xc = co.cartr(c, x, p)
                nrm = max(max(map(abs, Xc)), max(map(abs, org)), 1e-3)
                for a in range(3):
                    if not abs(v[a] - Xc[a] - org[a]) <= 1e-11 * nrm:
                        m.violation("xx_to_Cart", f"{tag} grid {g} ({c}): xx={x} origin={org} -> {v[:3]}, expected {[Xc[b]+org[b] for b in range(3)]}")
                        break
                m.observe()
                m.count("map points")
                if c in co.NO_INVERSE:
                    continue
                # conditioning of the inverse map: dx = J^-1 dX
                Ji = co.inv3(co.jac(c, x, p))
                okp = True
                for a in range(3):
                    tol = 1e-13 * nrm * 50 * (sum(abs(t) for t in Ji[a]) + 1e-3) + 1e-12 * (abs(x[a]) + 1)
                    if c in ("SymTP", "SinhSymTP"):
                        # rho,z -> AA goes through the difference rSph^2-bScale^2+sqrt(...): allow its cancellation
                        AA = abs(co.radial(c, x[0], p)[0]) or 1e-300
                        tol += 1e-13 * (p["bScale"] ** 2 + nrm * nrm) / (AA * p["bScale"]) * 50
                    if not abs(v[3 + a] - x[a]) <= tol + 1e-9 * p[f"dxx{a}"]:
                        okp = False
                        AAv = co.radial(c, x[0], p)[0].real if c == "SinhSymTP" else None
                        if c == "SinhSymTP" and a == 0 and abs(v[3] - AAv) <= 1e-6 * abs(AAv):
                            # xx0 comes back as AA itself, without the sinh inverse
                            m.violation("Cart_to_xx-SinhSymTP-returns-AA", f"({c}): Cart_to_xx(xx_to_Cart({x})) = {v[3:6]}")
                            continue
                        m.violation("Cart_to_xx", f"{tag} grid {g} ({c}): Cart_to_xx(xx_to_Cart({x})) = {v[3:6]}")
                        break
                    if not abs(v[9 + a] - x[a]) <= tol * 10 + 1e-9 * p[f"dxx{a}"]:
                        okp = False
                        m.violation("Cart_to_xx-global", f"{tag} grid {g} ({c}): Cart_to_xx_..._global_grid_center({[v[b]-org[b] for b in range(3)]}) = {v[9:12]}, expected {x}")
                        break
                if okp and [int(t) for t in v[6:9]] != idx[i]:
                    m.violation("nearest-index", f"{tag} grid {g} ({c}): xx={x}: nearest index {v[6:9]}, expected {idx[i]}")
                m.count("round trips")
        # hatted quantities
        data = struct.unpack(f"{len(hats[0])//8}d", hats[0])
        off = 0
        for g, c in enumerate(cs):
            p = P[g]
            n = [len(X[g][a]) for a in range(3)]
            nt = n[0] * n[1] * n[2]
            ngf = len(names)
            passes = [data[off:off + ngf * nt], data[off + ngf * nt:off + 2 * ngf * nt]]
            off += 2 * ngf * nt
            step = max(1, (n[0] - 2 * NG) * (n[1] - 2 * NG) * (n[2] - 2 * NG) // 120)
            cnt = 0
            for l in range(n[2]):
                for j in range(n[1]):
                    for i in range(n[0]):
                        inside = all(NG <= q < n[a] - NG for a, q in enumerate((i, j, l)))
                        if not inside:
                            continue
                        cnt += 1
                        if cnt % step:
                            continue
                        ref = co.hatted(c, [X[g][0][i], X[g][1][j], X[g][2][l]], p)
                        lin = i + n[0] * (j + n[1] * l)
                        big = {}
                        for nme, t in ref.items():
                            b = nme.rstrip("012")
                            big[b] = max(big.get(b, 0.0), abs(t))
                        for pre in (True, False):
                            D = passes[0 if pre else 1]
                            for nme in ref:
                                if nme in zero[c][pre]:
                                    v = 0.0
                                elif nme not in names:
                                    continue
                                else:
                                    v = D[ord_[("q_" + nme + "q").upper()] * nt + lin]
                                t = ref[nme]
                                # derivative quantities may cancel: relative tolerance plus roundoff of the largest sibling
                                if not abs(v - t) <= 1e-7 * abs(t) + 1e-13 * big[nme.rstrip("012")]:
                                    m.violation(
                                        "rfm-precompute" if pre else "rfm-direct",
                                        f"{tag} cf={cf} grid {g} ({c}) {'lookup' if pre else 'direct'}{' SIMD' if simd and pre else ''}: {nme} at {(i,j,l)} = {v!r}, expected {t!r}",
                                    )
                        m.observe(n=2 * len(ref))
                        m.count("hatted points")
        m.observe(key=f"{tag} cf={cf}", n=0, sample=f"{tag} cf={cf} dt={C['dt']}")
    m.count("projects")
    return m.part()


def noinverse(k):
    """systems without a closed-form inverse: Cart_to_xx has to say so (or invert), never return something else"""
    m = Monitor("C08")
    r = rng("noinv", k)
    c = list(co.NO_INVERSE)[k % len(co.NO_INVERSE)]
    d = scratch(f"noinv{k}")
    with vlib.quiet():
        gp.register([c], [5.0], {c: [6, 6, 6]}, 2, 2)
        xx_tofrom_Cart.register_CFunction__Cart_to_xx_and_nearest_i0i1i2(CoordSystem=c)
    gp.finish(d, extra=r"""
  { REAL X[3], xx[3] = {0,0,0}; int id[3] = {0,0,0}; params_struct *params = &griddata[0].params;
    xx_to_Cart(&commondata, params, griddata[0].xx, 5, 4, 5, X);
    Cart_to_xx_and_nearest_i0i1i2(&commondata, params, X, xx, id);
    printf("RET %.17g %.17g %.17g %d %d %d\n", xx[0]-griddata[0].xx[0][5], xx[1]-griddata[0].xx[1][4], xx[2]-griddata[0].xx[2][5], id[0], id[1], id[2]); fflush(stdout); }
""")
    rc, log = bhah.make(d)
    if rc:
        m.violation("build", f"{c}: {log[-1000:]}")
        return m.part()
    rc, o, e = bhah.run(d, ["info0"], env=dict(ASAN_OPTIONS="detect_leaks=0"))
    ret = [ln.split() for ln in o.splitlines() if ln.startswith("RET")]
    m.observe(f"no inverse {c}")
    if ret:
        if not (all(abs(float(v)) < 1e-6 for v in ret[0][1:4]) and ret[0][4:] == ["5", "4", "5"]):
            m.violation("no-inverse", f"{c}: Cart_to_xx_and_nearest_i0i1i2 returned {ret[0]} (errors, indices) without reporting that it cannot invert")
    elif rc == 0 or not e.strip():
        m.violation("no-inverse", f"{c}: rc {rc}, no message")
    return m.part()


def main():
    m = Monitor("C08", rule="distinct (grids, resolution, factor) configurations")
    ks = list(range(16)) if QUICK else list(range(160))
    ks += [("noinverse", k) for k in range(len(co.NO_INVERSE))]
    for i, st, res in run_isolated(lambda k: noinverse(k[1]) if isinstance(k, tuple) else task(k), ks, timeout=280, deadline=None if not QUICK else 240):
        if st == "ok":
            m.merge(res)
        elif st == "exc":
            raise vlib.HarnessError(f"{ks[i]}: {res[2]}")
        elif st == "timeout":
            m.count("abandoned")
        else:
            raise vlib.HarnessError(f"{ks[i]}: {st} {res}")
    m.require("projects", 10)
    m.finish()


vlib.main(main)
