"""C13: the project on disk is exactly what was registered, written fresh, over an earlier version or after an interruption."""
import copy
import os
import resource
import shutil
import signal
import subprocess
import sys
from pathlib import Path
import vlib
from vlib import Monitor, run_isolated, rng, scratch, sh, quiet, QUICK
import bhah
import nrpy.c_function as cfc
import nrpy.grid as gri
import nrpy.params as par
import nrpy.helpers.conditional_file_updater as cfu
from nrpy.helpers.generic import clang_format, copy_files
from nrpy.infrastructures.BHaH import BHaH_defines_h as Bdefines_h
from nrpy.infrastructures.BHaH import Makefile_helpers as Makefile

# --------------------------------------------------------------- part A: conditional updates
ALPHA = ["int x;\n", "  y = 3;\n", "\n", "   ", "// caf\u00e9 \u03b3\u0304\n", "/* \u2207\u00b2\U0001d6c1 */\n", "\t#define Q 1\n", "a", "{}", "b = \"\\n\";\n"]


class Boom(Exception):
    pass


def rand_content(r):
    k = r.random()
    if k < 0.08:
        return ""
    if k < 0.14:
        return r.choice(["\n", "  \n", " "])
    return "".join(r.choice(ALPHA) for _ in range(r.randint(1, 30 if r.random() < 0.8 else 4000)))


def fstate(p):
    try:
        st = os.stat(p)
        return (Path(p).read_bytes(), st.st_mtime_ns, st.st_ino)
    except FileNotFoundError:
        return None


def killed_write(path, content, limit, enc):
    """Update the file in a child whose file-size limit cuts the write (or which is killed there)."""
    pid = os.fork()
    if pid == 0:
        try:
            os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            with cfu.ConditionalFileUpdater(path, encoding=enc) as f:
                f.write(content)
            os._exit(0)
        except BaseException:
            os._exit(3)
    _, st = os.waitpid(pid, 0)
    return os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1


def histories(seed):
    r = rng("hist", seed)
    m = Monitor("C13")
    d = scratch(f"hist{seed}")
    files = [d / n for n in ("a.c", "b.txt", "sub_c.cxx")]
    contents = [rand_content(r) for _ in range(6)]
    hist = []
    for step in range(40):
        p = r.choice(files)
        op = r.choice(["write"] * 8 + ["exc", "edit", "delete", "nochange", "verbose", "crash", "format", "spaces"])
        new = r.choice(contents) if r.random() < 0.7 else rand_content(r)
        old = fstate(p)
        hist.append((op, p.name, new[:20]))
        where = f"step {step} op {op} on {p.name}; history {hist[-6:]}"
        enc = r.choice(["utf-8", "utf-8", None])
        try:
            if op == "exc":
                cut = r.randint(0, len(new))
                try:
                    with quiet(), cfu.ConditionalFileUpdater(p, encoding=enc) as f:
                        f.write(new[:cut])
                        raise Boom()
                    m.violation("exception-swallowed", f"an exception raised while generating {p.name} was swallowed; {where}")
                except Boom:
                    pass
                m.count("failed generations")
                if fstate(p) != old:
                    m.violation("file-touched-by-failed-generation", f"{p.name} was changed although its generation raised; {where}")
            elif op == "edit":
                p.write_bytes(new.encode() + b"// edited by hand\n")
            elif op == "delete":
                p.unlink(missing_ok=True)
            elif op == "crash":
                limit = r.choice([0, 1, 2, 3, 5, 17, max(0, len(new.encode()) - r.randint(1, 9))])
                killed_write(p, new, limit, enc)
                m.count("interrupted updates")
            elif op == "format":
                src = "int f( int a ){return a+%d ;}\nint g(void){ return 2;}" % r.randint(0, 5)
                with quiet(), cfu.ConditionalFileUpdater(p, encoding=enc, do_format=True) as f:
                    f.write(src)
                got = p.read_text() if p.exists() else None
                want = clang_format(src)
                if got is None or got.strip() != want.strip():
                    m.violation("formatted-content", f"formatted update left {got!r} instead of {want!r}; {where}")
                m.count("updates")
            else:
                if op == "nochange":
                    cfu.nochange = True
                if op == "verbose":
                    cfu.verbose = True
                if op == "spaces" and old is not None:
                    try:
                        new = old[0].decode().strip() + r.choice(["", "\n", "\n\n", "  "])
                    except UnicodeDecodeError:
                        pass
                with quiet(), cfu.ConditionalFileUpdater(p if r.random() < 0.5 else str(p), encoding=enc) as f:
                    i = 0
                    while i < len(new):
                        k = r.randint(1, 200)
                        f.write(new[i:i + k])
                        i += k
                now = fstate(p)
                m.count("updates")
                try:
                    oldtxt = None if old is None else old[0].decode()
                except UnicodeDecodeError:
                    oldtxt = "\x00undecodable"
                if op == "nochange":
                    if now != old:
                        m.violation("nochange-touched", f"{p.name} changed although updates are disabled; {where}")
                elif oldtxt is None or oldtxt.strip() != new.strip():
                    if now is None:
                        m.violation("file-not-created", f"{p.name} does not exist after it was generated with content {new[:40]!r}; {where}")
                    elif now[0] != new.encode():
                        m.violation("stale-content", f"{p.name} holds {now[0][:80]!r} instead of {new[:80]!r}; {where}")
                else:
                    m.count("no-change updates")
                    if now != old:
                        m.violation("unchanged-file-touched", f"{p.name} was rewritten although its content did not change; {where}")
        except Boom:
            raise
        except Exception as e:
            m.violation("update-raises", f"{type(e).__name__}: {e}; {where}")
        finally:
            cfu.nochange = cfu.verbose = False
        m.observe(f"{op}:{old is None}:{len(new) == 0}:{enc}")
    return m.part()


# --------------------------------------------------------------- part B: BHaH projects
def rand_project(r, idx=0):
    """A random project: functions (name -> dict), macros, parameters."""
    nf = r.randint(3, 9)
    subs = [".", "", "alpha", "./beta", "alpha/deep", "gamma//x/y", "z.code", "lib.c"]
    P = dict(macros={}, params={}, funcs=[], common={})
    for k in range(r.randint(1, 3)):
        P["macros"][f"MAC_{k}"] = (r.choice(["mod_a", "zmod.b", "after_general", "nrpy.infrastructures.BHaH.thing"]), r.randint(-50, 50))
    for k in range(r.randint(0, 3)):
        P["params"][f"cpar{k}"] = r.randint(-9, 9)
    for k in range(nf):
        P["funcs"].append(rand_func(r, P, k))
    return P


def rand_func(r, P, k, name=None):
    callees = r.sample(range(k), min(k, r.randint(0, 2))) if k else []
    return dict(
        name=name or r.choice(["fn", "Fn", "a_very_long_function_name_", "x"]) + f"{k}_{r.randint(0, 99)}",
        k=k, sub=r.choice([".", "", "alpha", "./beta", "alpha/deep", "gamma//x/y", "z.code", "lib.c"]),
        c0=r.randint(-99, 99), c1=r.choice([1, 2, 3, -1]), calls=callees,
        mac=r.choice(sorted(P["macros"])), pre=r.random() < 0.4, post=r.random() < 0.3,
        typ=r.choice(["int", "double", "long"]), narg=r.choice([0, 1, 2]),
        usep=bool(P["params"]) and r.random() < 0.5, p=r.choice(sorted(P["params"]) or [""]),
        desc=r.choice(["plain", "multi\nline // tricky ; 'quote", "unicode \u03b3 \u2202\u209c", "100% \"odd\" \\ text"]),
    )


def mutate(r, P):
    Q = copy.deepcopy(P)
    for _ in range(r.randint(1, 3)):
        op = r.choice(["const", "macro", "macro", "param", "remove", "add", "move", "sig", "nothing"])
        if op == "const":
            r.choice(Q["funcs"])["c0"] += r.randint(1, 5)
        elif op == "macro":
            n = r.choice(sorted(Q["macros"]))
            mod, v = Q["macros"][n]
            Q["macros"][n] = (mod, v + r.randint(1, 7))
        elif op == "param" and Q["params"]:
            Q["params"][r.choice(sorted(Q["params"]))] += r.randint(1, 4)
        elif op == "remove" and len(Q["funcs"]) > 2:
            last = Q["funcs"][-1]["k"]
            Q["funcs"] = [f for f in Q["funcs"] if f["k"] != last]
        elif op == "add":
            Q["funcs"].append(rand_func(r, Q, Q["funcs"][-1]["k"] + 1))
        elif op == "move":
            r.choice(Q["funcs"])["sub"] = r.choice(["alpha", ".", "new/place"])
        elif op == "sig":
            r.choice(Q["funcs"])["narg"] = r.choice([0, 1, 2])
    return Q


def call_args(f, j):
    return [(f["k"] * 3 + j + i) % 7 - 3 for i in range(f["narg"])]


def value(P, f, args):
    s = f["c0"] + P["macros"][f["mac"]][1] * f["c1"]
    for i, a in enumerate(args):
        s += (i + 2) * a
    if f["usep"]:
        s += P["params"][f["p"]] * 5
    if f["pre"]:
        s += 11
    for c in f["calls"]:
        g = next(x for x in P["funcs"] if x["k"] == c)
        s += value(P, g, call_args(g, f["k"]))
    return s


def register(P, prefix="", with_main=True):
    for n, (mod, v) in P["macros"].items():
        Bdefines_h.register_BHaH_defines(mod, f"#define {n} ({v})\n")
    for n, v in P["params"].items():
        par.register_CodeParameter("int", "vmon", n, v, commondata=True, add_to_parfile=False)
    for f in P["funcs"]:
        args = ", ".join(["const commondata_struct *restrict commondata, const params_struct *restrict params"] + [f"const int a{i}" for i in range(f["narg"])])
        body = f"  {f['typ']} s = {f['c0']} + {f['mac']} * ({f['c1']});\n"
        for i in range(f["narg"]):
            body += f"s += {i + 2} * a{i};\n"
        if f["usep"]:
            body += f"s += {f['p']} * 5;\n"
        if f["pre"]:
            body += "s += helper_%d();\n" % f["k"]
        for c in f["calls"]:
            g = next(x for x in P["funcs"] if x["k"] == c)
            body += f"s += ({f['typ']}){prefix}{g['name']}({', '.join(['commondata, params'] + [f'({a})' for a in call_args(g, f['k'])])});\n"
        body += "return s;\n"
        cfc.register_CFunction(
            subdirectory=f["sub"],
            includes=["BHaH_defines.h", "BHaH_function_prototypes.h"],
            prefunc=("static int helper_%d(void) { return 11; }\n" % f["k"]) if f["pre"] else "",
            postfunc=("int after_%d = %d;\n" % (f["k"], f["k"])) if f["post"] else "",
            desc=f["desc"], cfunc_type=f["typ"], name=f["name"], params=args,
            include_CodeParameters_h=f["usep"], body=body,
        )
    if with_main:
        cfc.register_CFunction(includes=["BHaH_defines.h", "BHaH_function_prototypes.h"], desc="main", cfunc_type="int", name="main",
                               params="int argc, const char *argv[]", body=main_body(P, prefix))


def main_body(P, prefix):
    b = f"  commondata_struct cd; params_struct ps; memset(&ps, 0, sizeof(ps)); {prefix}commondata_struct_set_to_default(&cd);\n"
    for f in P["funcs"]:
        for j in (0, 4):
            a = ", ".join(["&cd, &ps"] + [f"({x})" for x in call_args(f, j)])
            b += f'printf("{f["name"]} %d %.17g\\n", {j}, (double){prefix}{f["name"]}({a}));\n'
    return b + "return 0;\n"


def expected(P):
    return "".join(f"{f['name']} {j} {value(P, f, call_args(f, j)):.17g}\n" for f in P["funcs"] for j in (0, 4))


def write_all(P, d, opts):
    """Runs in a child: registers the project and writes it into d."""
    register(P, opts["prefix"], with_main=opts["kind"] == "exe")
    mk = dict(create_lib=opts["kind"] != "exe", static_lib=opts["kind"] == "static", lib_function_prefix=opts["prefix"])
    if opts.get("ext", "c") != "c":
        mk["src_code_file_ext"] = opts["ext"]
    if opts.get("cflags") is not None:
        mk["addl_CFLAGS"] = opts["cflags"]
    bhah.write_project(d, **mk)


def gen_child(P, d, opts, kill_at=None):
    """Fork a generator; optionally die at its kill_at-th file-opening event. Returns (status, events)."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
            n = [0]
            root = str(d)

            def hook(ev, args):
                if ev in ("open", "os.mkdir", "os.rename", "os.remove") and isinstance(args[0], (str, bytes, os.PathLike)):
                    pth = os.fsdecode(args[0])
                    if pth.startswith(root):
                        n[0] += 1
                        if kill_at is not None and n[0] == kill_at:
                            os._exit(77)
            sys.addaudithook(hook)
            try:
                write_all(P, d, opts)
                os.write(wfd, f"ok {n[0]}".encode())
            except BaseException as e:
                os.write(wfd, f"exc {type(e).__name__}: {e}".encode()[:2000])
        finally:
            os._exit(0)
    os.close(wfd)
    data = b""
    while True:
        b = os.read(rfd, 65536)
        if not b:
            break
        data += b
    os.close(rfd)
    os.waitpid(pid, 0)
    s = data.decode()
    return (s.split(" ", 1) + [""])[:2] if s else ("killed", "")


def tree(d):
    out = {}
    for p in sorted(Path(d).rglob("*")):
        if p.is_file() and p.suffix not in (".o", ".a", ".so") and p.name != "prog":
            out[str(p.relative_to(d))] = p.read_bytes()
    return out


def build_and_run(P, d, opts):
    rc, out, err = sh(["make", "-j4"], cwd=str(d), timeout=300)
    if rc != 0:
        return f"make failed: {(out + err)[-900:]}", None
    if opts["kind"] == "exe":
        rc, out, err = sh(["./prog"], cwd=str(d), timeout=60)
    else:
        lib = "prog.a" if opts["kind"] == "static" else "prog.so"
        drv = Path(d) / "driver_main.cc_"
        drv.write_text('#include "BHaH_defines.h"\n#include "BHaH_function_prototypes.h"\nint main(void) {\n' + main_body(P, opts["prefix"]) + "}\n")
        rc, out, err = sh(f"gcc -std=gnu99 -fopenmp -I. -x c driver_main.cc_ -x none ./{lib} -Wl,-rpath,. -lm -o driver", cwd=str(d))
        drv.unlink()
        if rc != 0:
            return f"linking against the library failed: {(out + err)[-900:]}", None
        rc, out, err = sh(["./driver"], cwd=str(d), timeout=60)
        (Path(d) / "driver").unlink()
    if rc != 0:
        return f"program exited with {rc}: {err[-300:]}", out
    return None, out


def projects(seed):
    r = rng("proj", seed)
    m = Monitor("C13")
    d = scratch(f"proj{seed}") / "work"
    opts = dict(kind=r.choice(["exe", "exe", "shared", "static"]), prefix=r.choice(["", "", "pre_"]), ext="c")
    if opts["kind"] == "exe":
        opts["prefix"] = ""  # main() would be renamed
    opts["cflags"] = r.choice([None, [], ["-DUNUSED_FLAG=1"]])
    P = rand_project(r)
    hist = []
    for ver in range(3 if QUICK else 5):
        if ver:
            P = mutate(r, P)
        kill = None
        if r.random() < 0.35:
            kill = r.randint(1, 12)
            st, info = gen_child(P, d, opts, kill_at=kill)
            m.count("interrupted generations")
            if r.random() < 0.5 and d.exists():
                sh(["make", "-j4"], cwd=str(d), timeout=120)  # user runs make on the half-written project
            hist.append(f"interrupted at event {kill} ({st})")
        st, info = gen_child(P, d, opts)
        hist.append(f"version {ver} written: {st}")
        where = f"seed {seed} options {opts} history {hist}"
        if st != "ok":
            m.violation("generation-fails", f"writing the project failed: {info}; {where}")
            return m.part()
        fresh = scratch(f"proj{seed}") / f"fresh{ver}"
        st, info = gen_child(P, fresh, opts)
        tw, tf = tree(d), tree(fresh)
        for k in tf:
            m.observe()
            if tw.get(k) != tf[k]:
                m.violation("regenerated-file-differs", f"{k} written over an earlier version differs from a fresh one ({'missing' if k not in tw else 'content'}); {where}")
        m.count("project versions")
        m.count("files compared", len(tf))
        err, out = build_and_run(P, d, opts)
        if err:
            m.violation("project-does-not-build-or-run", f"{err}; {where}")
        elif out != expected(P):
            bad = [(a, b) for a, b in zip(out.splitlines(), expected(P).splitlines()) if a != b][:3]
            m.violation("program-output", f"(got, expected) {bad}; {where}", replay=repr(P))
        else:
            m.count("functions called", 2 * len(P["funcs"]))
        m.observe(f"{opts['kind']}:{opts['prefix']}:{ver}:{len(P['funcs'])}:{kill}", n=2 * len(P["funcs"]), sample=dict(options=opts, version=ver, functions=len(P["funcs"])))
        shutil.rmtree(fresh)
    return m.part()


def shared_flags(seed):
    """Several projects written by one generator script from the same option lists do not affect each other."""
    r = rng("flags", seed)
    m = Monitor("C13")
    P = rand_project(r)
    P["params"] = {}
    for f in P["funcs"]:
        f["usep"] = False
    d = scratch(f"flags{seed}")
    flags, libs, incs = ["-DUNUSED_FLAG=1"], ["-lm"], ["."]
    order = ["lib", "exe"] if r.random() < 0.7 else ["exe", "lib", "exe"]
    register(P)
    with quiet():
        bhah.CPs.write_CodeParameters_h_files(project_dir=str(d / "exe"))
        bhah.CPs.register_CFunctions_params_commondata_struct_set_to_default()
        for sub in ("exe", "lib"):
            par_backup = copy.deepcopy(par.glb_extras_dict)
            Bdefines_h.output_BHaH_defines_h(project_dir=str(d / sub), enable_intrinsics=False, enable_rfm_precompute=False)
            par.glb_extras_dict.clear()
            par.glb_extras_dict.update(par_backup)
        for o in order:
            Makefile.output_CFunctions_function_prototypes_and_construct_Makefile(
                project_dir=str(d / o), project_name="prog", exec_or_library_name="prog", CC="gcc",
                addl_CFLAGS=flags, addl_libraries=libs, include_dirs=incs, create_lib=o == "lib")
    err, out = build_and_run(P, d / "exe", dict(kind="exe", prefix=""))
    m.count("project versions")
    m.observe(f"flags:{order}", n=2 * len(P["funcs"]))
    if err or out != expected(P):
        m.violation("options-of-one-project-affect-another", f"executable generated with the option lists also used for a library (order {order}): {err or 'wrong output'}; flags now {flags}")
    return m.part()


def compiler(seed):
    """The compiler asked for is the one used, unless the environment names another."""
    m = Monitor("C13")
    cfc.register_CFunction(desc="d", cfunc_type="int", name="which_compiler", params="void", body="""
#ifdef __clang__
return 2;
#else
return 1;
#endif
""")
    for want, env in [("gcc", None), ("clang", None), ("gcc", "clang"), ("clang", "gcc"), ("autodetect", None), ("autodetect", "clang")]:
        d = scratch(f"cc{seed}") / f"{want}_{env}"
        with quiet():
            Makefile.output_CFunctions_function_prototypes_and_construct_Makefile(project_dir=str(d), project_name="prog", CC=want, create_lib=True, static_lib=True)
        e = dict(os.environ)
        e.pop("CC", None)
        if env:
            e["CC"] = env
        subprocess.run(["make"], cwd=str(d), env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=False)
        (d / "main.cc_").write_text("int which_compiler(void);\nint main(void) { return which_compiler(); }\n")
        rc, out, err = sh("gcc -x c main.cc_ -x none prog.a -o drv && ./drv", cwd=str(d))
        exp = {"gcc": 1, "clang": 2, "autodetect": 1}[env or want]
        m.observe(f"cc:{want}:{env}")
        m.count("compiler choices")
        if rc != exp:
            m.violation("wrong-compiler", f"CC={want!r} requested with environment CC={env!r}: built with {({1: 'gcc', 2: 'clang'}).get(rc, out + err)!r}")
    return m.part()


# --------------------------------------------------------------- part B2: coordinate wrappers
SYSTEMS = ["Spherical", "SinhSpherical", "SinhSphericalv2n2", "Cartesian", "SinhCartesian", "Cylindrical", "SinhCylindrical", "SinhCylindricalv2n2",
           "SymTP", "SinhSymTP", "HoleySinhSpherical", "RingHoleySinhSpherical", "LWedgeHSinhSph", "UWedgeHSinhSph", "Fisheye"]


def wrappers(seed):
    """Calling name() runs name__rfm__<CoordSystem>() of the grid's coordinate system, with the same arguments."""
    from nrpy.infrastructures.BHaH import rfm_wrapper_functions as rw
    r = rng("wrap", seed)
    m = Monitor("C13")
    d = scratch(f"wrap{seed}")
    systems = r.sample(SYSTEMS, r.randint(2, 6))
    par.register_CodeParameter("int", "vmon", "CoordSystem_hash", commondata=False, add_to_parfile=False)
    par.register_CodeParameter("int", "vmon", "NUMGRIDS", 1, commondata=True, add_to_parfile=False)
    funcs = []
    for k in range(r.randint(2, 4)):
        name = f"op{k}" + r.choice(["", "_Spherical", "__x"])
        arr = r.choice(["const REAL xx[3]", "const REAL *restrict xx", "REAL *restrict xx", "REAL xx[3]", "const\n REAL   xx[ARRSZ]"])
        extra = r.choice(["", "const int n", "void cb(const int i, REAL *restrict o)"])
        sub = r.choice([".", "deep/er", "alpha", "Spherical_utils"])
        mine = [s for s in systems if r.random() < 0.8] or systems[:1]
        params = "const commondata_struct *restrict commondata, const params_struct *restrict params, " + arr + (", " + extra if extra else "") + ", REAL *restrict out"
        for s in r.sample(mine, len(mine)):
            body = f"out[0] = {systems.index(s)} + 100 * xx[0] + 10 * xx[1];\n"
            if "int n" in extra and "cb" not in extra:
                body += "out[0] += n * 1000;\n"
            if "cb" in extra:
                body += "cb(3, out);\n"
            cfc.register_CFunction(subdirectory=sub, includes=["BHaH_defines.h"], desc=f"{name} {s}", name=name, params=params, body=body, CoordSystem_for_wrapper_func=s)
        funcs.append((name, mine, extra))
    Bdefines_h.register_BHaH_defines("general", "")
    Bdefines_h.register_BHaH_defines("after_general", "#define ARRSZ 3\n")
    with quiet():
        rw.register_CFunctions_CoordSystem_wrapper_funcs()
    calls, want = "", []
    for name, mine, extra in funcs:
        for s in systems:
            x0, x1 = r.randint(-5, 5), r.randint(-5, 5)
            ex = ", 7" if ("int n" in extra and "cb" not in extra) else (", addcb" if "cb" in extra else "")
            if s in mine:
                w = systems.index(s) + 100 * x0 + 10 * x1 + (7000 if ex == ", 7" else (0.5 if "cb" in extra else 0))
                want.append(f"{name} {s} {w:.17g}")
                calls += f'{{ REAL xx[3] = {{{x0}, {x1}, 0}}, out[1] = {{-1}}; p.CoordSystem_hash = {s.upper()}; {name}(&cd, &p, xx{ex}, out); printf("{name} {s} %.17g\\n", out[0]); }}\n'
    # a system the function is not registered for is rejected, not silently ignored
    rej = [(n, s) for n, mine, e in funcs for s in systems if s not in mine]
    rejcode = ""
    for i, (n, s) in enumerate(rej):
        e = next(x[2] for x in funcs if x[0] == n)
        ex = ", 7" if ("int n" in e and "cb" not in e) else (", addcb" if "cb" in e else "")
        rejcode += f"if (which == {i}) {{ REAL xx[3] = {{0}}, out[1]; p.CoordSystem_hash = {rw.get_CoordSystem_hash(s)}; {n}(&cd, &p, xx{ex}, out); }}\n"
    bhah.raw_main("commondata_struct cd; params_struct p; const int which = argc > 1 ? atoi(argv[1]) : -1;\n" + rejcode + "if (which >= 0) return 0;\n" + calls + "return 0;\n",
                  prefunc="static void addcb(const int i, REAL *restrict o) { if (i == 3) o[0] += 0.5; }\n")
    bhah.write_project(d / "p")
    rc, log = bhah.make(d / "p")
    where = f"seed {seed} systems {systems} functions {funcs}"
    if rc != 0:
        m.violation("wrapper-does-not-build", f"{log[-800:]}; {where}")
        return m.part()
    rc, out, err = bhah.run(d / "p")
    got = out.splitlines()
    m.count("wrapper calls", len(want))
    m.observe(f"wrap:{len(systems)}:{len(funcs)}", n=len(want))
    if rc != 0 or got != want:
        bad = [(a, b) for a, b in zip(got, want) if a != b][:3]
        m.violation("wrapper-dispatch", f"rc {rc} (got, expected) {bad} {err[-300:]}; {where}")
    for i, (n, s) in enumerate(rej[:4]):
        rc, out, err = bhah.run(d / "p", [i])
        m.count("rejected calls")
        if rc == 0:
            m.violation("wrapper-ignores-unknown-system", f"{n} called on a {s} grid, for which it was never registered, returned silently; {where}")
    return m.part()


# --------------------------------------------------------------- part C: Cactus thorns on disk
def thorns(seed):
    """Thorn files written over an older version, or after an interruption, equal freshly written ones."""
    r = rng("thorn", seed)
    m = Monitor("C13")
    infra = r.choice(["ETLegacy", "CarpetX"])
    base = scratch(f"thorn{seed}")

    def child(args):
        d, nf, salt, kill_at = args
        q = rng("thornproj", seed, salt)
        par.set_parval_from_str("Infrastructure", infra)
        import importlib
        I = {n: importlib.import_module(f"nrpy.infrastructures.{infra}.{n}") for n in ("make_code_defn", "param_ccl", "schedule_ccl", "interface_ccl")}
        names = [f"MyThorn_f{i}_{q.randint(0, 3)}" for i in range(nf)]
        gfs = ["abcdef"[i] + "_u" for i in range(q.randint(1, 4))]
        for g in gfs:
            gri.register_gridfunctions(g, group=q.choice(["EVOL", "AUX"]))
        for i, n in enumerate(names):
            p = f"par{q.randint(0, 4)}"
            if p not in par.glb_code_params_dict:
                par.register_CodeParameter("CCTK_REAL", "x", p, q.randint(0, 9) / 4)
            cfc.register_CFunction(subdirectory="MyThorn", desc="d \u03b3", name=n, params="CCTK_ARGUMENTS", body=f"DECLARE_CCTK_ARGUMENTS; int x = {q.randint(0, 3)};",
                                   ET_thorn_name="MyThorn", ET_schedule_bins_entries=[(q.choice(["MoL_CalcRHS", "STARTUP", "ODD"]), "schedule FUNC_NAME in X { LANG: C } \"d\"\n")],
                                   ET_current_thorn_CodeParams_used=[p])
        cfc.register_CFunction(subdirectory="Other", desc="other", name="Other_f", params="CCTK_ARGUMENTS", body="int y = 0;", ET_thorn_name="Other",
                               ET_schedule_bins_entries=[("STARTUP", "schedule FUNC_NAME\n")])
        n = [0]

        def hook(ev, a):
            if ev == "open" and isinstance(a[0], (str, bytes)) and os.fsdecode(a[0]).startswith(str(d)):
                n[0] += 1
                if n[0] == kill_at:
                    os._exit(77)
        sys.addaudithook(hook)
        with quiet():
            for t in ("MyThorn", "Other"):
                I["make_code_defn"].output_CFunctions_and_construct_make_code_defn(str(d), t)
                I["param_ccl"].construct_param_ccl(str(d), t)
                I["schedule_ccl"].construct_schedule_ccl(str(d), t, STORAGE="STORAGE: evol_variables[3]")
                I["interface_ccl"].construct_interface_ccl(str(d), t, inherits="Boundary", USES_INCLUDEs="", is_evol_thorn=True)
        return names

    work = base / "work"
    hist = []
    names = None
    for ver in range(3):
        nf, salt = r.randint(1, 6), r.randint(0, 10**6)
        kill = r.randint(1, 10) if r.random() < 0.5 else None
        if kill:
            for _, st, pl in run_isolated(child, [(work, nf, salt, kill)], procs=1):
                hist.append(f"interrupted at {kill}: {st}")
            m.count("interrupted generations")
        for _, st, pl in run_isolated(child, [(work, nf, salt, None)], procs=1):
            if st != "ok":
                m.violation("generation-fails", f"{infra}: {pl}; history {hist}")
                return m.part()
            names = pl
        fresh = base / f"fresh{ver}"
        for _, st, pl in run_isolated(child, [(fresh, nf, salt, None)], procs=1):
            pass
        tw, tf = tree(work), tree(fresh)
        m.count("thorn versions")
        for k in tf:
            m.observe()
            if k not in tw or tw[k].strip() != tf[k].strip():
                m.violation("regenerated-file-differs", f"{infra} {k} written over an earlier version differs from a fresh one; history {hist}")
        srcs = {Path(k).stem for k in tf if k.startswith("MyThorn/src/") and Path(k).suffix in (".c", ".cc", ".cxx")}
        if srcs != set(names):
            m.violation("thorn-sources", f"{infra}: functions {sorted(names)} but source files {sorted(srcs)}")
        listed = {w.split(".")[0] for w in tf["MyThorn/src/make.code.defn"].decode().split("SRCS")[1].split() if "." in w}
        if listed != set(names):
            m.violation("thorn-make-list", f"{infra}: functions {sorted(names)} but make.code.defn lists {sorted(listed)}")
        m.observe(f"{infra}:{ver}:{nf}:{kill}")
    return m.part()


# --------------------------------------------------------------- part D: copied files
def copies(seed):
    r = rng("copy", seed)
    m = Monitor("C13")
    d = scratch(f"copy{seed}")
    files = ["simd_intrinsics.h", "cuda_intrinsics.h"]
    t = d / "intrinsics"
    for step in range(6):
        k = r.choice(["fresh", "corrupt", "missing"])
        t.mkdir(exist_ok=True)
        for f in files:
            if k == "corrupt":
                (t / f).write_text("garbage" * r.randint(0, 10000))
            elif k == "missing":
                (t / f).unlink(missing_ok=True)
        copy_files("nrpy.helpers", files, str(d), "intrinsics")
        for f in files:
            m.observe(f"copy:{k}")
            m.count("copied files")
            if (t / f).read_bytes() != (vlib.REPO / "nrpy/helpers" / f).read_bytes():
                m.violation("copied-file-differs", f"{f} copied into a project ({k}) differs from the original")
    return m.part()


def job(a):
    return dict(h=histories, p=projects, s=shared_flags, w=wrappers, t=thorns, c=copies, x=compiler)[a[0]](a[1])


def main():
    m = Monitor("C13", "fault-injection exploration",
                rule="distinct = (operation, file state, content class) for updates; (project kind, version, size, interruption) for projects")
    q = QUICK
    S = vlib.SEED * 1000
    jobs = [("p", S + i) for i in range(20 if q else 120)] + [("t", S + i) for i in range(8 if q else 40)]
    jobs += [("w", S + i) for i in range(8 if q else 48)]
    jobs += [("s", S + i) for i in range(2 if q else 8)] + [("h", S + i) for i in range(40 if q else 400)] + [("c", S), ("x", S)]
    for i, st, pl in run_isolated(job, jobs, timeout=400):
        if st != "ok":
            raise vlib.HarnessError(f"job {jobs[i]}: {st} {pl}")
        m.merge(pl)
    m.require("functions called", 200)
    m.require("updates", 200)
    m.require("wrapper calls", 20)
    m.assumptions = ["'make' is run after each generation; mtimes of the file system are monotonic"]
    m.finish()


vlib.main(main)
