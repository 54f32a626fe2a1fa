"""C04: generated loop nests run their body exactly once per requested grid point."""
import itertools
import vlib
from vlib import Monitor, run_isolated, rng, scratch, sh, QUICK
import nrpy.helpers.loop as hl
import nrpy.params as par
from nrpy.infrastructures.BHaH import simple_loop as bl
from nrpy.infrastructures.ETLegacy import simple_loop as el
from nrpy.infrastructures.CarpetX import simple_loop as cl


def gen_generic(r, i):
    """helpers.loop: random depth, bounds, strides, tiling, OpenMP pragma."""
    nd = r.choice([1, 2, 3, 3, 3, 4])
    names = r.sample(["i", "j", "k", "i0", "i1", "i2", "idx", "p"], nd)
    lo = [r.randint(-3, 4) for _ in range(nd)]
    hi = [l + r.choice([0, 1, 2, 3, 5, 7, 8, 9, 13] if nd < 4 else [1, 2, 3, 5]) for l in lo]
    if r.random() < 0.05:
        hi[0] = lo[0] - 2
    inc = [r.choice([1, 1, 1, 2, 3, 4]) for _ in range(nd)]
    tiled = r.random() < 0.5
    tile = [inc[d] * r.choice([1, 2, 3, 4, 16]) for d in range(nd)]
    omp = r.random() < 0.5
    col = 1
    prag = [""] * nd
    if omp:
        k = r.choice([0, 0, nd - 1]) if not tiled else r.randrange(nd)
        prag[k] = "#pragma omp parallel for"
        if not tiled and k == 0 and nd > 1 and r.random() < 0.5:
            col = r.randint(2, nd)
            prag[k] += f" collapse({col})"
    sym = r.random() < 0.5
    L = [f"L{d}" if sym else str(l) for d, l in enumerate(lo)]
    U = [r.choice([f"U{d}", f"U{d}m1+1", f"(U{d}m1)+1", f"2+U{d}m1-1"]) if sym else str(h) for d, h in enumerate(hi)]
    I = [str(x) if not (sym and r.random() < 0.3) else f"inc{d}" for d, x in enumerate(inc)]
    T = [str(x) for x in tile]
    decl = "".join(f"const int L{d}={lo[d]},U{d}={hi[d]},U{d}m1={hi[d]-1},inc{d}={inc[d]};(void)L{d};(void)U{d};(void)U{d}m1;(void)inc{d};\n" for d in range(nd))
    stride, off = [], "0"
    size = 1
    ext = [max(1, h - l + 20) for l, h in zip(lo, hi)]
    for d in range(nd):
        off += f" + ({names[d]}-({lo[d]}))*{size}"
        stride.append(size)
        size *= ext[d]
    body = f"VISIT({off}, {size});"
    if r.random() < 0.5:
        body = "{\nconst int qq_ = 0;\n" + f"VISIT({off} + qq_, {size});" + "\n}"
    scalar_args = nd == 1 and r.random() < 0.5
    A = (lambda x: x[0]) if scalar_args else (lambda x: x)
    use_body = r.random() < 0.8
    kw = dict(tile_size=A(T)) if tiled else {}
    if use_body:
        code = hl.loop(A(names), A(L), A(U), A(I), A(prag), loop_body=body, **kw)
    else:
        h, f = hl.loop(A(names), A(L), A(U), A(I), A(prag), **kw)
        code = h + body + "\n" + f
    exp = {}
    for pt in itertools.product(*[range(lo[d], hi[d], inc[d]) for d in range(nd)]):
        k = sum((pt[d] - lo[d]) * stride[d] for d in range(nd))
        exp[k] = 1
    desc = f"loop nd={nd} vars={names} lo={lo} hi={hi} inc={inc} tile={tile if tiled else None} pragma={prag}"
    return dict(code="{" + decl + code + "}\n", size=size, exp=exp, desc=desc, kind="generic" + ("_tiled" if tiled else "") + ("_omp" if omp else ""))


def gen_region(r, i, infra):
    ng = r.randint(1, 4)
    N = [r.choice([1, 2, 3, 4, 6, 7, 8, 9]) for _ in range(3)]
    Nt = [n + 2 * ng for n in N]
    region = r.choice(["all points", "interior"] + (["interior plus one upper"] if infra == "BHaH" else []))
    simd = r.random() < 0.25
    kw = dict(loop_region=region, enable_simd=simd)
    kw["enable_OpenMP"] = r.random() < 0.7
    kw["OMP_collapse"] = r.choice([1, 1, 2, 3])
    if simd:
        kw["OMP_collapse"] = r.choice([1, 2])
    if r.random() < 0.15:
        kw["OMP_custom_pragma"] = "#pragma omp parallel for schedule(dynamic,1)"
        kw["OMP_collapse"] = 1
    if not kw["enable_OpenMP"]:
        kw["OMP_collapse"] = r.choice([1, 2, 3])
    off = f"i0 + {Nt[0]+16}*(i1 + {Nt[1]+2}*i2)"
    size = (Nt[0] + 16) * (Nt[1] + 2) * (Nt[2] + 2)
    body = f"VISIT({off}, {size});"
    xxs = infra == "BHaH" and not simd and r.random() < 0.4
    decl = ""
    if infra == "BHaH":
        if xxs:
            kw["read_xxs"] = True
            body = f"if(xx0 != 1000.0+i0 || xx1 != 2000.0+i1 || xx2 != 3000.0+i2) BAD();\n" + body
            decl += "".join(f"double xa{d}[{Nt[d]+1}]; for(int q=0;q<{Nt[d]+1};q++) xa{d}[q]={(d+1)*1000}.0+q;\n" for d in range(3))
            decl += "double *xx[3]={xa0,xa1,xa2};(void)xx;\n"
        decl += f"enum {{ NGHOSTS={ng} }};"
        decl += "".join(f"const int Nxx{d}={N[d]}, Nxx_plus_2NGHOSTS{d}={Nt[d]};(void)Nxx{d};(void)Nxx_plus_2NGHOSTS{d};" for d in range(3)) + "\n"
        code = bl.simple_loop(body, CoordSystem=r.choice(["Cartesian", "Spherical"]), **kw)
        ngs = [ng] * 3
    else:
        ngs = [ng, r.randint(1, 3), r.randint(1, 3)]
        Nt = [N[d] + 2 * ngs[d] for d in range(3)]
        size = (Nt[0] + 16) * (Nt[1] + 2) * (Nt[2] + 2)
        body = f"VISIT(i0 + {Nt[0]+16}*(i1 + {Nt[1]+2}*i2), {size});"
        decl += f"const int cctk_lsh[3]={{{Nt[0]},{Nt[1]},{Nt[2]}}}, cctk_nghostzones[3]={{{ngs[0]},{ngs[1]},{ngs[2]}}};(void)cctk_lsh;(void)cctk_nghostzones;\n"
        code = el.simple_loop(body, **kw)
    lo = [0] * 3 if region == "all points" else ngs
    hi = Nt if region == "all points" else [ngs[d] + N[d] + (1 if "plus one" in region else 0) for d in range(3)]
    if "plus one" in region:
        pass
    exp = {}
    st = 4 if simd else 1
    for i2, i1, i0 in itertools.product(range(lo[2], hi[2]), range(lo[1], hi[1]), range(lo[0], hi[0], st)):
        exp[i0 + (Nt[0] + 16) * (i1 + (Nt[1] + 2) * i2)] = 1
    desc = f"{infra} simple_loop N={N} ng={ngs} {kw}"
    return dict(code="{" + decl + code + "}\n", size=size, exp=exp, desc=desc, kind=f"{infra}:{region}" + (":simd" if simd else "") + (":omp%d" % kw["OMP_collapse"] if kw["enable_OpenMP"] else ""))


CXX_STUB = r"""
#include <cstdio>
#include <array>
#define CCTK_DEVICE
#define CCTK_HOST
#define CCTK_ATTRIBUTE_ALWAYS_INLINE
namespace Loop { struct PointDesc { int I; int i,j,k; int DI[3]; }; }
struct Grid { std::array<int,3> nghostzones; int n[3];
  template<int C0,int C1,int C2,typename F> void run(bool interior, bool dev, const F &f) const {
    // cell-centred directions have one point fewer than vertex-centred ones
    const int m[3] = {n[0]-C0, n[1]-C1, n[2]-C2};
    int lo[3],hi[3]; for(int d=0;d<3;d++){ lo[d]=interior?nghostzones[d]:0; hi[d]=interior?m[d]-nghostzones[d]:m[d]; }
    std::printf("CALL %d %d %d %s %s\n",C0,C1,C2,interior?"int":"all",dev?"device":"host");
    for(int k=lo[2];k<hi[2];k++)for(int j=lo[1];j<hi[1];j++)for(int i=lo[0];i<hi[0];i++){ Loop::PointDesc p{ i+1000*j+1000000*k,i,j,k,{1,1000,1000000}}; f(p);} }
  template<int A,int B,int C,typename F> void loop_all(std::array<int,3>, const F&f) const { run<A,B,C>(false,false,f);}
  template<int A,int B,int C,typename F> void loop_int(std::array<int,3>, const F&f) const { run<A,B,C>(true,false,f);}
  template<int A,int B,int C,typename F> void loop_all_device(std::array<int,3>, const F&f) const { run<A,B,C>(false,true,f);}
  template<int A,int B,int C,typename F> void loop_int_device(std::array<int,3>, const F&f) const { run<A,B,C>(true,true,f);}
};
"""


def carpetx(_):
    mon = Monitor("C04")
    r = rng("c04cx")
    src = CXX_STUB + "static int total;\nint main(){\n"
    cases = []
    for cen in itertools.product([0, 1], repeat=3):
        for region in ("all points", "interior"):
            for dev in (True, False):
                n = [r.randint(5, 8) for _ in range(3)]
                ng = [r.randint(1, 2) for _ in range(3)]
                code = cl.simple_loop("*cnt += 1; if(p.I < 0) *cnt += 1000;", loop_region=region, loop_centering=list(cen), run_on_device=dev)
                src += f"{{ Grid grid{{{{{ng[0]},{ng[1]},{ng[2]}}},{{{n[0]},{n[1]},{n[2]}}}}}; total=0; int *cnt=&total;\n{code}\nstd::printf(\"%d\\n\",total); }}\n"
                m = [n[d] - cen[d] for d in range(3)]
                e = 1
                for d in range(3):
                    e *= m[d] - (2 * ng[d] if region == "interior" else 0)
                cases.append((cen, region, dev, e))
    src += "return 0;}\n"
    d = scratch("cx")
    (d / "l.cpp").write_text(src)
    rc, so, se = sh(["g++", "-std=c++17", "-O0", "-w", "-o", "l", "l.cpp"], cwd=d)
    if rc:
        mon.violation("carpetx-loop-does-not-compile", se[:1500])
        return mon.part()
    rc, so, se = sh(["./l"], cwd=d)
    lines = so.splitlines()
    for k, (cen, region, dev, e) in enumerate(cases):
        want = [f"CALL {cen[0]} {cen[1]} {cen[2]} {'int' if region == 'interior' else 'all'} {'device' if dev else 'host'}", str(e)]
        mon.observe(key=f"carpetx {cen} {region} {dev}")
        mon.count("carpetx_loops")
        if lines[2 * k:2 * k + 2] != want:
            mon.violation("carpetx-loop", f"centering {cen} region {region} device {dev}: got {lines[2*k:2*k+2]} expected {want}")
    for bad in ([2, 0, 0], [0, 0, -1]):
        try:
            cl.simple_loop("x", loop_region="interior", loop_centering=bad)
            mon.violation("carpetx-bad-centering-accepted", str(bad))
        except ValueError:
            pass
    return mon.part()


HEAD = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#define REAL double
#define MAYBE_UNUSED __attribute__((unused))
#ifndef MIN
#define MIN(A, B) (((A) < (B)) ? (A) : (B))
#endif
#define simd_width 4
static int *cnt_; static long cap_; static int bad_, oob_;
#define VISIT(off, size) do { long o_ = (off); if(o_<0 || o_>=(long)(size)) __atomic_fetch_add(&oob_,1,__ATOMIC_RELAXED); else __atomic_fetch_add(&cnt_[o_],1,__ATOMIC_RELAXED); } while(0)
#define BAD() __atomic_fetch_add(&bad_,1,__ATOMIC_RELAXED)
static void report(long size){ printf("%d %d", bad_, oob_); for(long i=0;i<size;i++) if(cnt_[i]) printf(" %ld:%d", i, cnt_[i]); printf("\n"); free(cnt_); }
static void fresh(long size){ cnt_=(int*)calloc(size,sizeof(int)); bad_=oob_=0; }
"""


def batch(arg):
    bid, nk = arg
    mon = Monitor("C04")
    cases = []
    src = HEAD
    m = "int main(void){\n"
    for i in range(nk):
        r = rng("c04", bid, i)
        u = r.random()
        try:
            c = gen_generic(r, i) if u < 0.5 else gen_region(r, i, "BHaH" if u < 0.8 else "ETLegacy")
        except Exception as ex:
            import traceback
            tb = traceback.format_exc()
            if "/repo/" not in tb:
                raise
            mon.violation("generator-exception:" + type(ex).__name__, f"batch {bid} case {i}: {ex!r}", tb)
            continue
        src += f"static void c{i}(void) {c['code']}\n"
        m += f"fresh({c['size']}); c{i}(); report({c['size']});\n"
        cases.append((i, c))
    d = scratch(f"l{bid}")
    (d / "l.c").write_text(src + m + "return 0;}\n")
    rc, so, se = sh(["gcc", "-std=gnu99", "-O1", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-w", "-o", "l", "l.c", "-lm"], cwd=d)
    if rc:
        for i, c in cases:
            (d / "o.c").write_text(HEAD + f"void c{i}(void) {c['code']}\n")
            rc2, _, se2 = sh(["gcc", "-std=gnu99", "-O0", "-fopenmp", "-w", "-c", "-o", "o.o", "o.c"], cwd=d)
            if rc2:
                mon.violation("loop-does-not-compile:" + c["kind"].split(":")[0], f"{c['desc']}\n{se2[:600]}", c["code"])
                break
        else:
            raise vlib.HarnessError(se[:1500])
        return mon.part()
    for nt in ("1", "4"):
        rc, so, se = sh(["./l"], cwd=d, env=dict(vlib.SAN_ENV, OMP_NUM_THREADS=nt))
        lines = so.splitlines()
        if rc:
            mon.violation("sanitizer", f"{cases[len(lines)][1]['desc'] if len(lines) < len(cases) else ''} {se[:800]}")
        for (i, c), ln in zip(cases, lines):
            f = ln.split()
            got = {int(x.split(":")[0]): int(x.split(":")[1]) for x in f[2:]}
            mon.count("points_visited", len(got))
            if int(f[0]) or int(f[1]) or got != c["exp"]:
                miss = sorted(set(c["exp"]) - set(got))[:5]
                extra = sorted(set(got) - set(c["exp"]))[:5]
                multi = [k for k, v in got.items() if v != 1][:5]
                mon.violation("wrong-iteration:" + c["kind"], f"batch {bid} case {i} threads={nt}: {c['desc']}: wrong coordinates seen {f[0]}, out of range {f[1]}, missing {miss} extra {extra} repeated {multi}", c["code"])
            if nt == "4":
                mon.count("loops_" + c["kind"].split(":")[0])
                mon.observe(key=c["desc"] if len(c["exp"]) > 1 else None, sample=c["desc"] if i == 2 else None)
    return mon.part()


def main():
    mon = Monitor("C04", "exploration", "random loop requests (depth, bounds, strides, tiles, regions, OpenMP options, infrastructures); visit counters at every index compared with the requested index set, with 1 and 4 threads, ASan+UBSan; non-trivial: more than one point")
    nb = 24 if QUICK else 240
    jobs = [("b", (b, 40)) for b in range(nb)] + [("x", None)]
    for i, st, p in run_isolated(lambda a: batch(a[1]) if a[0] == "b" else carpetx(0), jobs, timeout=300):
        if st == "ok":
            mon.merge(p)
        else:
            raise vlib.HarnessError(f"job {i}: {st} {p}")
    for k in ("loops_BHaH", "loops_ETLegacy", "loops_generic_tiled", "carpetx_loops"):
        mon.require(k, 30)
    mon.assumptions = ["with tiling, tile sizes are multiples of the stride (as cache blocking requires)"]
    mon.finish()


vlib.main(main)
