"""C20: diagnostic output files hold the fields at the points and times they claim.

Part 1: the real 0d/1d/2d output functions are generated for every coordinate system, built with
ASan+UBSan and run on fields whose value identifies (field, grid point).  One output column is the
linear index of the point, so each row of each file can be traced to a point and judged against the
textbook coordinate map: nearest to the axis / plane / centre, each line of the grid exactly once,
ordered, and with that point's values.
Part 2: complete evolution programs; the monitor records (iteration, time) at every call of
diagnostics() and hashes/dumps the state, and the files on disk must be exactly those of the
iterations closest to the multiples of the output interval.
"""
import math
import re
import shutil
import struct
import bhah
import coords as co
import gridproj as G
import vlib
import waveproj as W
from vlib import Monitor, QUICK, SEED, quiet, rng, run_isolated, scratch, sh
import nrpy.grid as gri
import nrpy.params as par
from nrpy.infrastructures.BHaH.diagnostics import output_0d_1d_2d_nearest_gridpoint_slices as out

FLAGS = bhah.SAN + " -fsanitize=float-cast-overflow"
EXTRA = r"""
  for(int nth=0; nth<3; nth++) {
  commondata.nn = nth == 0 ? 0 : nth == 1 ? 3 : 5; commondata.time = nth == 0 ? 0.0 : nth == 1 ? @T1@ : @T1@ + 1e-4;
  for(int g=0; g<commondata.NUMGRIDS; g++) {
    params_struct *restrict params=&griddata[g].params;
    MoL_gridfunctions_struct gf; memset(&gf, 0, sizeof gf);
    MoL_malloc_y_n_gfs(&commondata, params, &gf);
    MoL_malloc_non_y_n_gfs(&commondata, params, &gf);
    const int n=params->Nxx_plus_2NGHOSTS0*params->Nxx_plus_2NGHOSTS1*params->Nxx_plus_2NGHOSTS2;
    for(int f=0; f<NUM_EVOL_GFS; f++) for(int i=0;i<n;i++) gf.y_n_gfs[(size_t)f*n+i] = (f+1)*0.37 + i*(1.0+0.001*f) + 1e-7*(nth+1);
    for(int f=0; f<NUM_AUX_GFS; f++) for(int i=0;i<n;i++) gf.diagnostic_output_gfs[(size_t)f*n+i] = -(f+1)*0.11 - i*(3.0+0.001*f) - 1e-7*(nth+1);
    for(int f=0; f<NUM_AUXEVOL_GFS; f++) for(int i=0;i<n;i++) gf.auxevol_gfs[(size_t)f*n+i] = (f+1)*0.77 + i*(5.0+0.001*f) + 1e-7*(nth+1);
    @CALLS@
    MoL_free_memory_y_n_gfs(&gf); MoL_free_memory_non_y_n_gfs(&gf);
  }}
"""


def nxx(r, cs):
    f = co.family(cs)
    if f == "cart":
        return [r.choice([4, 5, 6, 7]) for _ in range(3)]
    if f == "cyl":
        return [r.choice([4, 5, 6]), r.choice([2, 4, 6, 10]), r.choice([4, 5, 7])]
    return [r.choice([4, 5, 6]), r.choice([4, 6] if f != "wedge" else [4, 5]), r.choice([2, 4, 6, 8, 10] if f != "wedge" else [4, 5])]


def ok(a, b, tol=2e-15):
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-300


def task(t):
    k, coords = t
    m = Monitor("C20")
    r = rng("diag", k)
    d = scratch(f"diag{k}")
    Nxx = {cs: nxx(r, cs) for cs in coords}
    size = r.choice([1.0, 7.5, 20.0])
    if size == 1.0 and any("Holey" in c or "Wedge" in c for c in coords):
        size = 7.5  # the hole (default radius 2) has to fit into the grid
    t1 = r.choice([0.5, 3.25, 12.121])
    tag = f"{','.join(f'{c}{Nxx[c]}' for c in coords)} size {size}"
    with quiet():
        gri.register_gridfunctions("diagb", group="AUX", gf_array_name="diagnostic_output_gfs")
        gri.register_gridfunctions("diaga", group="AUX", gf_array_name="diagnostic_output_gfs")
        gri.register_gridfunctions("auxe", group="AUXEVOL", gf_array_name="auxevol_gfs")
        G.register(list(coords), [size] * len(coords), Nxx, r.choice([2, 4]))
    items = [(("int", "id3"), "idx3"), (("REAL", "u"), "y_n_gfs[IDX4pt(UUGF, idx3)]"), (("REAL", "h"), "y_n_gfs[IDX4pt(HDD12GF, idx3)]"),
             (("REAL", "dg"), "diagnostic_output_gfs[IDX4pt(DIAGAGF, idx3)]"), (("REAL", "ax"), "auxevol_gfs[IDX4pt(AUXEGF, idx3)]"), (("int", "seven"), "7"),
             (("REAL", "comb"), "2.0*y_n_gfs[IDX4pt(VU1GF, idx3)] - diagnostic_output_gfs[IDX4pt(DIAGBGF, idx3)]")]
    r.shuffle(items)
    items = items[:r.randint(3, 7)]
    if not any(i[0][1] == "id3" for i in items):
        items.insert(r.randrange(len(items)), (("int", "id3"), "idx3"))
    oq = dict(items)
    calls = ""
    no_center = set()
    for cs in coords:
        with quiet():
            try:
                out.register_CFunction_diagnostics_nearest_grid_center(CoordSystem=cs, out_quantities_dict=oq, filename_tuple=("c-%s.txt", "CoordSystemName"))
            except ValueError:
                no_center.add(cs)
            for ax in ("y", "z"):
                out.register_CFunction_diagnostics_nearest_1d_axis(CoordSystem=cs, out_quantities_dict=oq, axis=ax)
            for pl in ("xy", "yz"):
                out.register_CFunction_diagnostics_nearest_2d_plane(CoordSystem=cs, out_quantities_dict=oq, plane=pl)
    if no_center - {"UWedgeHSinhSph", "LWedgeHSinhSph"}:
        m.violation("center-refused", f"{tag}: no grid-centre output for {no_center}")
    guard = "if(strstr(params->CoordSystemName, \"Wedge\") == NULL) " if no_center else ""
    if len(no_center) < len(coords):
        calls += guard + "diagnostics_nearest_grid_center(&commondata, params, &gf);\n"
    for f in ("1d_y_axis", "1d_z_axis", "2d_xy_plane", "2d_yz_plane"):
        calls += f"diagnostics_nearest_{f}(&commondata, params, griddata[g].xx, &gf);\n"
    with quiet():
        W.progress.register_CFunction_progress_indicator()
    G.finish(d, extra=EXTRA.replace("@CALLS@", calls).replace("@T1@", repr(t1)))
    rc, log = bhah.make(d, flags=FLAGS)
    if rc:
        m.violation("build", f"{tag}: {log[-1500:]}")
        return m.part()
    outs = []
    for th in (1, 3):
        for f in list(d.glob("*.txt")):
            f.unlink()
        # stale content of an earlier run must be replaced at iteration 0
        for cs in coords:
            (d / f"c-{cs}.txt").write_text("stale\n")
            (d / f"out1d-y-{cs}-conv_factor1.00-t00000.00.txt").write_text("stale\n")
        rc, o, e = bhah.run(d, ["info"], env=dict(OMP_NUM_THREADS=str(th)))
        rep = bhah.san_report(rc, e)
        if rc or rep:
            m.violation("run", f"{tag} threads {th}: rc {rc} {rep or e[-800:]}")
            return m.part()
        outs.append({f.name: f.read_text() for f in d.glob("*.txt")})
    if outs[0] != outs[1]:
        m.violation("threads", f"{tag}: output differs between 1 and 3 threads: {[n for n in outs[0] if outs[0][n] != outs[1].get(n)]}")
    C, P, X = G.info(o)
    NG = int(C["NGHOSTS"])
    gfs = G.gf_order(d)
    for g, cs in enumerate(coords):
        judge(m, tag, cs, P[g], X[g], NG, gfs, outs[0], items, t1, cs in no_center)
    m.count("projects")
    return m.part()


def judge(m, tag, cs, p, X, NG, gfs, files, items, t1, no_center):
    f = co.family(cs)
    N = [len(X[a]) - 2 * NG for a in range(3)]
    n = [len(X[a]) for a in range(3)]
    interior = {}
    for i in range(N[0]):
        for j in range(N[1]):
            for k in range(N[2]):
                q = (i + NG, j + NG, k + NG)
                x = [X[a][q[a]] for a in range(3)]
                interior[q[0] + n[0] * (q[1] + n[1] * q[2])] = (q, co.cartr(cs, x, p))
    names = [i[0][1] for i in items]
    scale = max(abs(v) for q, Xc in interior.values() for v in Xc)

    def values(idx, nth):
        y = lambda g: (gfs[g] + 1) * 0.37 + idx * (1.0 + 0.001 * gfs[g]) + 1e-7 * (nth + 1)
        a = lambda g: -(gfs[g] + 1) * 0.11 - idx * (3.0 + 0.001 * gfs[g]) - 1e-7 * (nth + 1)
        x = lambda g: (gfs[g] + 1) * 0.77 + idx * (5.0 + 0.001 * gfs[g]) + 1e-7 * (nth + 1)
        return dict(id3=idx, u=y("UU"), h=y("HDD12"), dg=a("DIAGA"), ax=x("AUXE"), seven=7, comb=2.0 * y("VU1") - a("DIAGB"))

    def rows(fn, ncoord):
        """-> list of (coordinate columns, idx, values) or None"""
        if fn not in files:
            m.violation("missing-file", f"{tag} {cs}: {fn} was not written ({sorted(files)[:8]})")
            return None
        res = []
        for ln in files[fn].splitlines():
            t = ln.split()
            if len(t) != ncoord + len(names):
                m.violation("columns", f"{tag} {cs}: {fn}: row {ln!r} does not have {ncoord + len(names)} columns")
                return None
            v = dict(zip(names, t[ncoord:]))
            try:
                res.append(([float(z) for z in t[:ncoord]], int(v["id3"]), v))
            except ValueError:
                m.violation("columns", f"{tag} {cs}: {fn}: row {ln!r}")
                return None
        return res

    def check_values(fn, rs, nth):
        for c, idx, v in rs:
            if idx not in interior:
                m.violation("outside", f"{tag} {cs}: {fn}: point {idx} is not an interior grid point")
                return False
            ref = values(idx, nth)
            for k in names:
                if not ok(float(v[k]), ref[k], 2e-15 if k != "comb" else 1e-12):
                    m.violation("value", f"{tag} {cs}: {fn}: column {k} of point {interior[idx]} is {v[k]}, the field there is {ref[k]!r}")
                    return False
        return True

    # grid centre: one row per call, appended
    if not no_center:
        fn = f"c-{cs}.txt"
        rs = rows(fn, 1)
        if rs is not None:
            if len(rs) != 3:
                m.violation("center-rows", f"{tag} {cs}: {fn} has {len(rs)} rows after outputs at iterations 0, 3 and 5")
            else:
                rmin = min(math.hypot(*Xc) for q, Xc in interior.values())
                for nth, row in enumerate(rs):
                    tt = [0.0, t1, t1 + 1e-4][nth]
                    if not abs(row[0][0] - tt) <= 1e-6 * tt:
                        m.violation("center-time", f"{tag} {cs}: {fn}: time {row[0][0]} instead of {tt}")
                    if check_values(fn, [row], nth):
                        rr = math.hypot(*interior[row[1]][1])
                        if rr > rmin * (1 + 1e-9) + 1e-12 * scale:
                            m.violation("center-point", f"{tag} {cs}: {fn}: point at radius {rr}, the closest to the centre is at {rmin}")
                m.observe(f"{tag} centre {cs}", n=3)
    specs = [("y", 1), ("z", 2)]
    free1 = {"cart": {"y": 1, "z": 2}, "cyl": {"y": 0, "z": 2}}.get(f, {"y": 0, "z": 0})
    for ax, a in specs:
        none = (f == "wedge" and ax == "y") or (cs == "RingHoleySinhSpherical" and ax == "z")
        fn0 = f"out1d-{ax}-{cs}-conv_factor1.00-t00000.00.txt"
        fn1 = f"out1d-{ax}-{cs}-conv_factor1.00-t{t1:08.2f}.txt"
        r0, r1 = rows(fn0, 1), rows(fn1, 1)
        if r0 is None or r1 is None:
            continue
        if none:
            if r0 or r1:
                m.violation("axis-rows", f"{tag} {cs}: {fn0}: {len(r0)} rows though no grid point is next to this axis")
            continue
        if len(r1) != 2 * len(r0):
            m.violation("append", f"{tag} {cs}: {fn1}: {len(r1)} rows after two outputs of {len(r0)} rows each")
            continue
        h = len(r1) // 2
        for fn, rs, nth in ((fn0, r0, 0), (fn1, r1[:h], 1), (fn1, r1[h:], 2)):
            if not check_values(fn, rs, nth):
                continue
            if any(rs[i][0][0] > rs[i + 1][0][0] for i in range(len(rs) - 1)):
                m.violation("order", f"{tag} {cs}: {fn}: rows are not ordered along the axis")
            dist = lambda Xc: math.hypot(*[Xc[b] for b in range(3) if b != a])
            fr = free1[ax]
            grp = {}
            for idx, (q, Xc) in interior.items():
                grp.setdefault((q[fr], Xc[a] > 0 if f not in ("cart",) and not (f == "cyl" and ax == "z") else True), []).append((dist(Xc), idx))
            seen = {}
            for c, idx, v in rs:
                q, Xc = interior[idx]
                if abs(c[0] - Xc[a]) > 1e-12 * scale:
                    m.violation("coordinate", f"{tag} {cs}: {fn}: coordinate {c[0]} of point {q}, which lies at {Xc}")
                key = (q[fr], Xc[a] > 0 if f not in ("cart",) and not (f == "cyl" and ax == "z") else True)
                if key in seen:
                    m.violation("duplicate", f"{tag} {cs}: {fn}: two rows for grid line {key}: {interior[idx]}, {interior[seen[key]]}")
                seen[key] = idx
                best = min(grp[key])[0]
                if dist(Xc) > best * (1 + 1e-9) + 1e-12 * scale:
                    m.violation("not-nearest", f"{tag} {cs}: {fn}: point {q} is {dist(Xc)} from the {ax} axis; {best} is possible on its grid line")
            if set(seen) != set(grp):
                m.violation("incomplete", f"{tag} {cs}: {fn}: grid lines {sorted(set(grp) - set(seen))[:5]} missing")
            m.count("1d rows", len(rs))
            m.observe(f"{tag} 1d {cs} {ax}", n=len(rs))
    for pl, a, cols in (("xy", 2, (0, 1)), ("yz", 0, (1, 2))):
        fn0 = f"out2d-{pl}-{cs}-conv_factor1.00-t00000.00.txt"
        fn1 = f"out2d-{pl}-{cs}-conv_factor1.00-t{t1:08.2f}.txt"
        r0, r1 = rows(fn0, 2), rows(fn1, 2)
        if r0 is None or r1 is None:
            continue
        if len(r1) != 2 * len(r0):
            m.violation("append", f"{tag} {cs}: {fn1}: {len(r1)} rows after two outputs of {len(r0)} rows each")
            continue
        h = len(r1) // 2
        fr = {("cart", "xy"): (0, 1), ("cart", "yz"): (1, 2), ("cyl", "xy"): (0, 1), ("cyl", "yz"): (0, 2), ("sph", "xy"): (0, 2), ("sph", "yz"): (0, 1),
              ("symtp", "xy"): (0, 2), ("symtp", "yz"): (0, 1), ("wedge", "yz"): (0, 2), ("wedge", "xy"): (0, 1)}[(f, pl)]
        sided = pl == "yz" and f in ("cyl", "sph", "symtp") or (f, pl) == ("wedge", "xy")
        for fn, rs, nth in ((fn0, r0, 0), (fn1, r1[:h], 1), (fn1, r1[h:], 2)):
            if not check_values(fn, rs, nth):
                continue
            grp = {}
            for idx, (q, Xc) in interior.items():
                grp.setdefault(tuple(q[b] for b in fr) + ((Xc[1] > 0) if sided else True,), []).append((abs(Xc[a]), idx))
            seen = {}
            for c, idx, v in rs:
                q, Xc = interior[idx]
                if any(abs(c[z] - Xc[cols[z]]) > 1e-12 * scale for z in (0, 1)):
                    m.violation("coordinate", f"{tag} {cs}: {fn}: coordinates {c} of point {q}, which lies at {Xc}")
                key = tuple(q[b] for b in fr) + ((Xc[1] > 0) if sided else True,)
                if (f, pl) != ("wedge", "xy"):  # the wedge does not contain the xy plane: no nearest-point claim
                    if key in seen:
                        m.violation("duplicate", f"{tag} {cs}: {fn}: two rows for grid line {key}")
                    best = min(grp[key])[0]
                    if abs(Xc[a]) > best * (1 + 1e-9) + 1e-12 * scale:
                        m.violation("not-nearest", f"{tag} {cs}: {fn}: point {q} is {abs(Xc[a])} from the {pl} plane; {best} is possible on its grid line")
                seen[key] = idx
            if (f, pl) != ("wedge", "xy") and set(seen) != set(grp):
                m.violation("incomplete", f"{tag} {cs}: {fn}: {len(set(grp) - set(seen))} of {len(grp)} grid lines missing")
            if len({idx for c, idx, v in rs}) != len(rs):
                m.violation("duplicate", f"{tag} {cs}: {fn}: a point appears twice")
            m.count("2d rows", len(rs))
            m.observe(f"{tag} 2d {cs} {pl}", n=len(rs))


MON2 = r"""
#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
void __real_diagnostics(commondata_struct *restrict commondata, griddata_struct *restrict griddata);
void __wrap_diagnostics(commondata_struct *restrict commondata, griddata_struct *restrict griddata) {
  FILE *f = fopen("diag.log", "ab");
  double h[3] = { (double)commondata->nn, commondata->time, commondata->dt }; fwrite(h, sizeof(double), 3, f);
  for (int g = 0; g < commondata->NUMGRIDS; g++) {
    const params_struct *p = &griddata[g].params;
    const size_t n = (size_t)p->Nxx_plus_2NGHOSTS0 * p->Nxx_plus_2NGHOSTS1 * p->Nxx_plus_2NGHOSTS2;
    fwrite(griddata[g].gridfuncs.y_n_gfs, sizeof(double), n * NUM_EVOL_GFS, f);
  }
  fclose(f);
  __real_diagnostics(commondata, griddata);
}
"""


def times(t):
    """complete program: which iterations write which files, with which numbers"""
    k = t
    m = Monitor("C20")
    r = rng("times", k)
    d = scratch(f"times{k}")
    cs = r.choice(["Spherical", "Cartesian", "Cylindrical", "SinhSpherical", "SinhCylindrical"])
    N = nxx(r, cs)
    pre = r.random() < 0.5
    W.generate(d / "p", coords=(cs,), Nxx={cs: N}, mol=r.choice(["Euler", "RK4", "SSPRK3"]), fd=2, ckpt=False, pre=pre, size=10.0)
    p = d / "p"
    (p / "mon.c").write_text(MON2)
    rc, o, e = sh(f"gcc {FLAGS} -c mon.c -o mon.o_", cwd=str(p))
    if rc:
        raise vlib.HarnessError(e[:1000])
    rc, log = bhah.make(p, flags=FLAGS, extra_ld="mon.o_ -Wl,--wrap=diagnostics")
    if rc:
        m.violation("build", f"{cs}{N}: {log[-1500:]}")
        return m.part()
    import itertools
    for rep in range(3 if QUICK else 12):
        wd = d / f"r{rep}"
        wd.mkdir()
        shutil.copy(p / "prog.par", wd)
        # one probe step gives dt
        W.set_par(wd, t_final=1e-12)
        bhah.run(wd, exe=str(p / "prog"))
        if not (wd / "diag.log").exists():
            m.violation("run", f"{cs}{N}: the program made no diagnostics call")
            return m.part()
        dt = struct.unpack("3d", (wd / "diag.log").read_bytes()[:24])[2]
        for f in list(wd.glob("*.txt")) + [wd / "diag.log"]:
            f.unlink()
        every = dt * r.choice([1.0, 2.0, 2.5, 3.3, 4.75, 7.2, 0.6])
        steps = r.randint(8, 16)
        pe = r.choice([1, 2, 0, -1, 5])
        W.set_par(wd, t_final=dt * (steps - 0.5), diagnostics_output_every=every, output_progress_every=pe)
        case = f"{cs}{N} every {every / dt:.2f} dt, {steps} steps, progress {pe}"
        rc, o, e = bhah.run(wd, exe=str(p / "prog"))
        rp = bhah.san_report(rc, e)
        if rc or rp:
            m.violation("run", f"{case}: rc {rc} {rp or e[-800:]}")
            return m.part()
        raw = (wd / "diag.log").read_bytes()
        text = (p / "BHaH_defines.h").read_text()
        gfo = G.gf_order(p)
        NG = int(re.search(r"#define\s+NGHOSTS\s+(\d+)", text)[1])
        n = [v + 2 * NG for v in N]
        npt = n[0] * n[1] * n[2]
        rec = 24 + 8 * 2 * npt
        calls = []
        for z in range(0, len(raw), rec):
            nn, tt, dd = struct.unpack("3d", raw[z:z + 24])
            calls.append((int(nn), tt, dd, struct.unpack(f"{2 * npt}d", raw[z + 24:z + rec])))
        if [c[0] for c in calls] != list(range(steps)):
            m.violation("calls", f"{case}: diagnostics ran at iterations {[c[0] for c in calls]}")
        prog = len(re.findall(r"It: (\d+)", e))
        want = len([c for c in calls if pe > 0 and c[0] % pe == 0])
        if prog != want:
            m.violation("progress", f"{case}: {prog} progress lines, expected {want}")
        due = [c for c in calls if abs(round(c[1] / every) * every - c[1]) < 0.5 * dt * (1 - 1e-9)]
        amb = [c for c in calls if abs(abs(round(c[1] / every) * every - c[1]) - 0.5 * dt) <= 0.5 * dt * 1e-9]
        # 0d rows
        fn = next(iter(wd.glob("out0d*")), None)
        rws = [x.split() for x in fn.read_text().splitlines()] if fn else []
        got = [float(x[0]) for x in rws]
        miss = [c[1] for c in due if not any(abs(g - c[1]) <= 1e-6 * abs(c[1]) for g in got)]
        extra = [g for g in got if not any(abs(g - c[1]) <= 1e-6 * abs(c[1]) for c in due + amb)]
        if miss or extra:
            m.violation("output-times", f"{case}: dt {dt}: output times {got}; missing {miss}, unexpected {extra}")
            continue
        files = {}
        for f in wd.glob("out[12]d*"):
            files[f.name] = f.read_text().splitlines()
        stamps = {f"t{c[1]:08.2f}" for c in due}
        allowed = stamps | {f"t{c[1]:08.2f}" for c in amb}
        have = {re.search(r"t\d+\.\d\d", fnm)[0] for fnm in files}
        if not stamps <= have or not have <= allowed:
            m.violation("output-files", f"{case}: files stamped {sorted(have)}, due {sorted(stamps)}")
            continue
        sigma = float(re.search(r"^sigma\s*=\s*([-\d.e+]+)", (wd / "prog.par").read_text(), re.M)[1])
        c0 = float(re.search(r"^wavespeed\s*=\s*([-\d.e+]+)", (wd / "prog.par").read_text(), re.M)[1])
        # each 0d row: numerical value of a point of that very state, exact solution, relative error
        for x in rws:
            tt = float(x[0])
            le, lv, eu, nu, ev, nv = map(float, x[1:7])
            st = [c for c in calls if abs(c[1] - tt) <= 1e-6 * abs(tt)][0]
            U = st[3][gfo["UU"] * npt:(gfo["UU"] + 1) * npt]
            V = st[3][gfo["VV"] * npt:(gfo["VV"] + 1) * npt]
            if not any(ok(a, nu) and ok(b, nv) for a, b in zip(U, V)):
                m.violation("num-columns", f"{case}: t={tt}: numerical (u,v)=({nu},{nv}) is no grid point's value at that time")
            if abs(le - math.log10(abs((nu - eu) / (eu + 1e-16)) + 1e-16)) > 1e-3 and abs(nu - eu) > 1e-9:
                m.violation("err-column", f"{case}: t={tt}: log10 relative error {le}, from the columns {nu} {eu}")
            m.observe(f"{case} t{tt:.3f}")
        # exact solution on the axis files (coordinate = position along the axis, so r >= |coordinate|)
        for fnm, lines in files.items():
            if not fnm.startswith("out2d"):
                continue
            tt = [c for c in due + amb if f"t{c[1]:08.2f}" in fnm][0][1]
            for ln in lines[:: max(1, len(lines) // 7)]:
                x = list(map(float, ln.split()))
                m.observe()
                if fnm.startswith("out2d-yz") and cs in ("Cylindrical", "Spherical", "SinhSpherical", "SinhCylindrical") and N[2 if "Sph" in cs else 1] in (2, 6, 10):
                    rr = math.hypot(x[0], x[1])  # these points lie exactly in the plane
                    ex = 2 + sum((rr + s * c0 * tt) / rr * math.exp(-((rr + s * c0 * tt) ** 2) / (2 * sigma**2)) for s in (1, -1))
                    if len([c for c in due + amb if f"t{c[1]:08.2f}" in fnm]) == 1 and abs(ex - x[4]) > 1e-10 * abs(ex):
                        m.violation("exact-column", f"{case}: {fnm}: exact solution column {x[4]} at {x[:2]}, the spherical wave there is {ex}")
        m.count("timed runs")
        m.count("diagnostics calls", len(calls))
        m.count("outputs due", len(due))
    return m.part()


def main():
    m = Monitor("C20", rule="distinct (project, slice) pairs and (run, output time) pairs")
    tasks = []
    k = 0
    for cs in co.ALL:
        tasks.append((k, (cs,)))
        k += 1
    r = rng("pairs")
    for _ in range(4 if QUICK else 24):
        tasks.append((k, tuple(r.sample(co.ALL, r.choice([2, 3])))))
        k += 1
    if not QUICK:
        for rep in range(4):
            for cs in co.ALL:
                tasks.append((k, (cs,)))
                k += 1
    jobs = [("slice", t) for t in tasks] + [("times", i) for i in range(6 if QUICK else 30)]
    for i, st, res in run_isolated(lambda j: task(j[1]) if j[0] == "slice" else times(j[1]), jobs, timeout=280, deadline=300 if QUICK else None):
        if st == "ok":
            m.merge(res)
        elif st == "timeout":
            m.count("abandoned")
        else:
            raise vlib.HarnessError(f"{jobs[i]}: {st} {res}")
    m.require("projects", 14)
    m.require("timed runs", 6)
    m.finish()


vlib.main(main)
