"""A miniature Cactus: parses the CCL files of a generated thorn and builds its sources against a driver that
gives every scheduled function exactly the variables its schedule entry declares, records the calls the thorn
makes into the flesh, and runs functions one at a time on grid data from a file."""
import re
import subprocess

COORD = "xyz"
EXT = {
    "metric": ["g" + a for a in ("xx", "xy", "xz", "yy", "yz", "zz")],
    "curv": ["k" + a for a in ("xx", "xy", "xz", "yy", "yz", "zz")],
    "shift": ["betax", "betay", "betaz"],
    "dtshift": ["dtbetax", "dtbetay", "dtbetaz"],
    "lapse": ["alp"],
    "dtlapse": ["dtalp"],
    "stress_energy_scalar": ["eTtt"],
    "stress_energy_vector": ["eTtx", "eTty", "eTtz"],
    "stress_energy_tensor": ["eT" + a for a in ("xx", "xy", "xz", "yy", "yz", "zz")],
}
EXTTHORN = {**{k: "ADMBase" for k in ("metric", "curv", "shift", "dtshift", "lapse", "dtlapse")}, **{k: "TmunuBase" for k in ("stress_energy_scalar", "stress_energy_vector", "stress_energy_tensor")}}


class CCLError(Exception):
    pass


def strip(t):
    return "\n".join(ln.split("#")[0] for ln in t.splitlines())


def interface(path):
    """-> groups {name: (vars, tags)}, implements, inherits, required functions"""
    t = path.read_text()
    t = "\n".join(ln for ln in t.splitlines() if not ln.lstrip().startswith("#"))
    groups = {}
    for m in re.finditer(r"CCTK_REAL\s+(\w+)\s+type\s*=\s*GF\s+([^{]*?)\{(?!\s*[+-])([^{}]*)\}\s*\"[^\"]*\"", re.sub(r"parities=\{([^}]*)\}", r"parities=<\1>", t)):
        if m[1] in groups:
            raise CCLError(f"group {m[1]} declared twice")
        groups[m[1]] = ([v.strip() for v in m[3].split(",")], m[2])
    vs = [v for g in groups.values() for v in g[0]]
    if len(set(v.lower() for v in vs)) != len(vs):
        raise CCLError("a variable is declared twice in interface.ccl")
    one = lambda key: (re.search(rf"(?mi)^{key}:(.*)$", t) or ["", ""])[1].split()
    return dict(groups=groups, implements=one("implements"), inherits=one("inherits"), functions=re.findall(r"(?:REQUIRES|USES) FUNCTION (\w+)", t), text=t)


def params(path):
    t = strip(path.read_text())
    out = {}
    for m in re.finditer(r"(?m)^\s*(CCTK_REAL|REAL|CCTK_INT|INT|int|BOOLEAN|CCTK_BOOLEAN|KEYWORD|CCTK_STRING|STRING)\s+(\w+)\s+\"[^\"]*\"\s*\{([^}]*)\}\s*(\S+)", t):
        if m[2] in out:
            raise CCLError(f"parameter {m[2]} declared twice")
        out[m[2]] = (m[1], m[4])
    if len(re.findall(r"\{", t)) != len(out):
        raise CCLError("param.ccl has an entry that is not of the form TYPE name \"..\" { ranges } default")
    return out


def schedule(path):
    t = strip(path.read_text())
    storage = {m[1]: int(m[2]) for m in re.finditer(r"STORAGE:\s*(\w+)\[(\d+)\]", t)}
    if t.count("{") != t.count("}"):
        raise CCLError("unbalanced braces in schedule.ccl")
    if "FUNC_NAME" in t:
        raise CCLError("FUNC_NAME left in schedule.ccl")
    items = []
    for m in re.finditer(r"(?:if\s*\(([^)]*)\)\s*\{\s*)?schedule\s+(group\s+)?(\w+)\s+((?:(?:as|before|after)\s+\w+\s+)*)(at|in)\s+(\w+)([^{]*)\{([^}]*)\}\s*\"[^\"]*\"", t, re.I):
        cond, grp, fn, pre, _, bin_, mods, body = m.groups()
        mods = pre + " " + mods
        it = dict(cond=cond, group=bool(grp), fn=fn, bin=bin_, alias=(re.search(r"\bas\s+(\w+)", mods, re.I) or ["", fn])[1],
                  before=re.findall(r"\bbefore\s+(\w+)", mods, re.I), after=re.findall(r"\bafter\s+(\w+)", mods, re.I), body=body)
        for key in ("READS", "WRITES", "SYNC", "LANG", "OPTIONS"):
            txt = " ".join(x for x in re.findall(rf"{key}:\s*(.*?)(?=\b(?:READS|WRITES|SYNC|LANG|OPTIONS|TRIGGERS|INVALIDATES):|\Z)", body, re.S))
            it[key.lower()] = [re.fullmatch(r"([\w:]+)(?:\((\w+)\))?", w.strip()).groups() for w in re.split(r"[,\s]+", txt.strip()) if w.strip()]
        items.append(it)
    if len(items) != len(re.findall(r"\bschedule\b", t, re.I)) - t.lower().count("schedule.ccl"):
        raise CCLError("schedule.ccl has an entry this parser (and Cactus) cannot read")
    return storage, items


def expand(thorn, iface, entries):
    """[(var or group, region)] -> {variable: region}"""
    out = {}
    for name, reg in entries:
        reg = (reg or "").lower()
        if "::" in name:
            t, n = name.split("::")
            if n in EXT and t in (EXTTHORN[n], EXTTHORN[n] + "X"):
                if t not in iface["inherits"]:
                    raise CCLError(f"{name} used without inheriting {t}")
                vs = EXT[n]
            elif t == thorn:
                vs = iface["groups"][n][0] if n in iface["groups"] else [n]
            else:
                raise CCLError(f"unknown {name}")
        elif name in iface["groups"]:
            vs = iface["groups"][name][0]
        else:
            vs = [name]
            if not any(name in g[0] for g in iface["groups"].values()):
                raise CCLError(f"schedule.ccl names {name}, which interface.ccl does not declare")
        for v in vs:
            out[v] = reg
    return out


CCTK_H = r"""
#ifndef SHIM_CCTK
#define SHIM_CCTK
#include <stdlib.h>
#include <stdio.h>
#include <math.h>
#include <string.h>
#ifdef __cplusplus
#define restrict __restrict__
#define SHIM_C extern "C"
#else
#define SHIM_C
#endif
typedef double CCTK_REAL;
typedef int CCTK_INT;
typedef struct { int cctk_lsh[3], cctk_ash[3], cctk_nghostzones[3], cctk_levfac[3], cctk_iteration; double cctk_delta_space[3], cctk_origin_space[3], cctk_time, cctk_delta_time; } cGH;
#define CCTK_ARGUMENTS const cGH *restrict cctkGH
#define CCTK_ATTRIBUTE_UNUSED __attribute__((unused))
#define CCTK_ATTRIBUTE_NOINLINE __attribute__((noinline))
#define CCTK_ATTRIBUTE_ALWAYS_INLINE __attribute__((always_inline))
#define CCTK_DEVICE
#define CCTK_HOST
static inline int CCTK_GFINDEX3D(const cGH *G, int i, int j, int k) {
  if(i<0 || j<0 || k<0 || j>=G->cctk_ash[1] || k>=G->cctk_ash[2] || i>=G->cctk_ash[0]) { printf("INDEX %d %d %d\n", i, j, k); fflush(stdout); abort(); }
  return i + G->cctk_ash[0]*(j + G->cctk_ash[1]*k); }
#define CCTK_DELTA_SPACE(d) (cctkGH->cctk_delta_space[d]/cctkGH->cctk_levfac[d])
#define CCTK_DELTA_TIME (cctkGH->cctk_delta_time)
#define CCTK_ERROR(s) do { printf("CCTK_ERROR %s\n", s); exit(9); } while(0)
#define CCTK_ALL_FACES 0x1248
SHIM_C const void *CCTK_ParameterGet(const char *name, const char *thorn, int *type);
SHIM_C int CCTK_GroupIndex(const char *g);
SHIM_C CCTK_INT MoLRegisterEvolvedGroup(CCTK_INT a, CCTK_INT b);
SHIM_C CCTK_INT Boundary_SelectVarForBC(const void *GH, CCTK_INT faces, CCTK_INT width, CCTK_INT table, const char *var, const char *bc);
SHIM_C CCTK_INT Driver_SelectVarForBC(const void *GH, CCTK_INT faces, CCTK_INT width, CCTK_INT table, const char *var, const char *bc);
SHIM_C CCTK_INT ExtrapolateGammas(const void *GH, CCTK_REAL *var);
SHIM_C CCTK_INT NewRad_Apply(const void *GH, const CCTK_REAL *var, CCTK_REAL *rhs, CCTK_REAL var0, CCTK_REAL v0, CCTK_INT radpower);
SHIM_C int SetCartSymVN(const cGH *GH, int *sym, const char *name);
SHIM_C int Einstein_RegisterSlicing(const char *name);
#ifdef __cplusplus
extern "C" double *shim_V[];
#else
extern double *shim_V[];
#endif
#endif
"""
LOOP_H = r"""
#ifndef SHIM_LOOP
#define SHIM_LOOP
#include "cctk.h"
namespace Loop {
struct vect { int v[3]; };
static inline vect operator*(int a, vect b) { return vect{{a*b.v[0], a*b.v[1], a*b.v[2]}}; }
static inline vect operator*(vect b, int a) { return a*b; }
static inline vect operator+(vect a, vect b) { return vect{{a.v[0]+b.v[0], a.v[1]+b.v[1], a.v[2]+b.v[2]}}; }
static inline vect operator-(vect a, vect b) { return vect{{a.v[0]-b.v[0], a.v[1]-b.v[1], a.v[2]-b.v[2]}}; }
struct PointDesc { vect I; vect DI[3]; double x, y, z; };
struct GridDesc {
  const cGH *GH; int nghostzones[3];
  template<int a, int b, int c, class F> void loop(const int *ng, int cut, F f) const {
    static_assert(a==0 && b==0 && c==0, "vertex-centred");
    _Pragma("omp parallel for")
    for(int k=cut*ng[2]; k<GH->cctk_lsh[2]-cut*ng[2]; k++) for(int j=cut*ng[1]; j<GH->cctk_lsh[1]-cut*ng[1]; j++) for(int i=cut*ng[0]; i<GH->cctk_lsh[0]-cut*ng[0]; i++) {
      PointDesc p{vect{{i,j,k}}, {vect{{1,0,0}},vect{{0,1,0}},vect{{0,0,1}}}, GH->cctk_origin_space[0]+i*GH->cctk_delta_space[0], GH->cctk_origin_space[1]+j*GH->cctk_delta_space[1], GH->cctk_origin_space[2]+k*GH->cctk_delta_space[2]};
      f(p); } }
  template<int a, int b, int c, class F> void loop_all_device(const int *ng, F f) const { loop<a,b,c>(ng, 0, f); }
  template<int a, int b, int c, class F> void loop_int_device(const int *ng, F f) const { loop<a,b,c>(ng, 1, f); }
  template<int a, int b, int c, class F> void loop_all(const int *ng, F f) const { loop<a,b,c>(ng, 0, f); }
  template<int a, int b, int c, class F> void loop_int(const int *ng, F f) const { loop<a,b,c>(ng, 1, f); }
};
template<class T> struct GF3D2 { const cGH *GH; T *d; T &operator()(vect I) const { return d[CCTK_GFINDEX3D(GH, I.v[0], I.v[1], I.v[2])]; } };
}
#endif
"""
NEWRADX_H = r"""
#include "loop_device.hxx"
namespace NewRadX {
template<class A, class B> void NewRadX_Apply(const cGH *GH, A var, B rhs, double var0, double v0, double radpower) { NewRad_Apply(GH, var.d, rhs.d, var0, v0, (int)radpower); }
}
"""
MAIN = r"""
#include "cctk.h"
#define NV @NV@
double *shim_V[NV];
static const char *VN[NV] = {@NAMES@};
@PDEF@
const void *CCTK_ParameterGet(const char *name, const char *thorn, int *type) {
  if(!strcmp(thorn,"@THORN@")) { @PGET@ }
  printf("CALL UnknownParameter %s::%s\n", thorn, name); fflush(stdout); return NULL; }
int CCTK_GroupIndex(const char *g) { @GIDX@ return -1; }
static const char *vname(const double *p) { for(int i=0;i<NV;i++) if(shim_V[i]==p) return VN[i]; return "?"; }
CCTK_INT MoLRegisterEvolvedGroup(CCTK_INT a, CCTK_INT b) { printf("CALL MoL %d %d\n", a, b); return 0; }
CCTK_INT Boundary_SelectVarForBC(const void *GH, CCTK_INT f, CCTK_INT w, CCTK_INT t, const char *v, const char *bc) { printf("CALL Boundary %s %s %d %d %d\n", v, bc, w, f, t); return 0; }
CCTK_INT Driver_SelectVarForBC(const void *GH, CCTK_INT f, CCTK_INT w, CCTK_INT t, const char *v, const char *bc) { printf("CALL Driver %s %s %d %d %d\n", v, bc, w, f, t); return 0; }
CCTK_INT ExtrapolateGammas(const void *GH, CCTK_REAL *var) { printf("CALL Extrapolate %s\n", vname(var)); return 0; }
CCTK_INT NewRad_Apply(const void *GH, const CCTK_REAL *v, CCTK_REAL *r, CCTK_REAL v0, CCTK_REAL s, CCTK_INT p) { printf("CALL NewRad %s %s %.17g %.17g %d\n", vname(v), vname(r), v0, s, p); return 0; }
int SetCartSymVN(const cGH *GH, int *sym, const char *name) { printf("CALL Sym %s %d %d %d\n", name, sym[0], sym[1], sym[2]); return 0; }
int Einstein_RegisterSlicing(const char *name) { printf("CALL Slicing %s\n", name); return 1; }
@PROTO@
int main(int argc, char **argv) {
  cGH G; memset(&G, 0, sizeof G);
  FILE *f=fopen("grid.txt","r");
  for(int d=0;d<3;d++) if(fscanf(f,"%d %d %d %d %lf %lf", &G.cctk_lsh[d], &G.cctk_ash[d], &G.cctk_nghostzones[d], &G.cctk_levfac[d], &G.cctk_delta_space[d], &G.cctk_origin_space[d])!=6) return 3;
  if(fscanf(f,"%lf",&G.cctk_time)!=1) return 3;
  fclose(f);
  const size_t n=(size_t)G.cctk_ash[0]*G.cctk_ash[1]*G.cctk_ash[2];
  f=fopen("in.bin","rb");
  for(int v=0;v<NV;v++) { shim_V[v]=(double*)malloc(8*n); if(fread(shim_V[v],8,n,f)!=n) return 3; }
  fclose(f);
  f=fopen("out.bin","wb");
  for(int a=1;a<argc;a++) {
    printf("FUNC %s\n", argv[a]);
    @CALLS@
    else { printf("no function %s\n", argv[a]); return 4; }
    for(int v=0;v<NV;v++) fwrite(shim_V[v],8,n,f);
    fflush(stdout);
    FILE *g=fopen("in.bin","rb"); /* the next function starts from the same data */
    for(int v=0;v<NV;v++) if(fread(shim_V[v],8,n,g)!=n) return 3;
    fclose(g);
  }
  fclose(f);
  for(int v=0;v<NV;v++) free(shim_V[v]);
  return 0;
}
"""


def build(td, thorn, X, iface, prm, items, values, flags, jobs=4):
    """writes the shim beside the sources and compiles every file of make.code.defn; -> (rc, log, variable order)"""
    src = td / "src"
    ext = "cxx" if X else "c"
    mk = re.sub(r"#.*", "", (src / "make.code.defn").read_text())
    srcs = re.search(r"SRCS\s*=((?:.*\\\n)*.*)", mk)[1].replace("\\\n", " ").split()
    sh = td / "shim"
    sh.mkdir()
    V = sorted({v for g in EXT.values() for v in g} | {v for g in iface["groups"].values() for v in g[0]})
    idx = {v: i for i, v in enumerate(V)}
    fns = {}
    for it in items:
        if not it["group"]:
            rd, wr = expand(thorn, iface, it["reads"]), expand(thorn, iface, it["writes"])
            f = fns.setdefault(it["fn"], (dict(), dict()))
            f[0].update(rd)
            f[1].update(wr)
    args = '#include "cctk.h"\n'
    if X:
        args += '#include "loop_device.hxx"\n'
    base = "const int *const cctk_lsh CCTK_ATTRIBUTE_UNUSED = cctkGH->cctk_lsh; const int *const cctk_nghostzones CCTK_ATTRIBUTE_UNUSED = cctkGH->cctk_nghostzones; const int *const cctk_ash CCTK_ATTRIBUTE_UNUSED = cctkGH->cctk_ash; const CCTK_REAL cctk_time CCTK_ATTRIBUTE_UNUSED = cctkGH->cctk_time; const int cctk_iteration CCTK_ATTRIBUTE_UNUSED = cctkGH->cctk_iteration;"
    startup = [it["fn"] for it in items if it["bin"].upper() == "STARTUP"]
    for fn, (rd, wr) in fns.items():
        if fn not in startup:
            args += f'SHIM_C void {fn}(CCTK_ARGUMENTS);\n'
        c = x = ""
        for v in sorted(set(rd) | set(wr)):
            q = "" if v in wr else "const "
            c += f" {q}CCTK_REAL *const {v} CCTK_ATTRIBUTE_UNUSED = shim_V[{idx[v]}];"
            x += f" const Loop::GF3D2<{q}CCTK_REAL> {v} CCTK_ATTRIBUTE_UNUSED = {{cctkGH, shim_V[{idx[v]}]}};"
        args += f"#define DECLARE_CCTK_ARGUMENTS_{fn} {base}{c} do {{}} while(0)\n"
        if X:
            args += f"#define DECLARE_CCTK_ARGUMENTSX_{fn} {base} const Loop::GridDesc grid CCTK_ATTRIBUTE_UNUSED = {{cctkGH, {{cctkGH->cctk_nghostzones[0], cctkGH->cctk_nghostzones[1], cctkGH->cctk_nghostzones[2]}}}};{x} do {{}} while(0)\n"
    pt = lambda t: "CCTK_INT" if t in ("CCTK_INT", "INT", "int") else "CCTK_REAL"
    pm = '#include "cctk.h"\n' + "".join(f"extern {'\"C\" ' if X else ''}const {pt(t)} shimpar_{p};\n" for p, (t, _) in prm.items())
    pm += "#define DECLARE_CCTK_PARAMETERS " + " ".join(f"const {pt(t)} {p} CCTK_ATTRIBUTE_UNUSED = shimpar_{p};" for p, (t, _) in prm.items()) + " do {} while(0)\n"
    gl = list(iface["groups"])
    pget = "".join(f'if(!strcmp(name,"{p}")) return &shimpar_{p}; ' for p in prm)
    proto = "".join(f"{'int' if f in startup else 'void'} {f}({'' if f in startup else 'CCTK_ARGUMENTS'});\n" for f in fns)
    calls = "if(0) {}\n" + "".join(f'    else if(!strcmp(argv[a],"{f}")) {f}({"" if f in startup else "&G"});\n' for f in fns)
    main = MAIN
    for k, v in dict(NV=len(V), NAMES=", ".join(f'"{v}"' for v in V), THORN=thorn, PGET=pget, PDEF="".join(f"const {pt(t)} shimpar_{p} = {values[p]!r};\n" for p, (t, _) in prm.items()),
                     GIDX="".join(f'if(!strcmp(g,"{thorn}::{g}")) return {i}; ' for i, g in enumerate(gl)), PROTO=proto, CALLS=calls).items():
        main = main.replace(f"@{k}@", str(v))
    for fn, txt in {"cctk.h": CCTK_H, "cctk_Arguments.h": args, "cctk_Parameters.h": pm, "cctk_Faces.h": "", "util_Table.h": "", "Symmetry.h": "", "Boundary.h": "",
                    "Slicing.h": "int Einstein_RegisterSlicing(const char *name);\n", "loop_device.hxx": LOOP_H, "newradx.hxx": NEWRADX_H}.items():
        (sh / fn).write_text(txt)
    (sh / "main.c").write_text(main)
    cc = "g++ -std=c++17" if X else "gcc -std=gnu99"
    mf = "all: prog\n" + "".join(f"shim/{s}.o: src/{s}\n\t{cc} {flags} -Ishim -Isrc -c -o $@ $<\n" for s in srcs)
    mf += f"shim/main.o: shim/main.c\n\tgcc -std=gnu99 {flags} -Ishim -c -o $@ $<\n"
    mf += "prog: shim/main.o " + " ".join(f"shim/{s}.o" for s in srcs) + f"\n\tg++ {flags} -o prog $^ -lm\n"
    (td / "Makefile").write_text(mf)
    p = subprocess.run(["make", "-j", str(jobs)], cwd=td, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout, V, srcs, fns
