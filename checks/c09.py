"""C09: run-time parameters: defaults, parameter files, command line, and what functions see."""
import struct
import traceback
import vlib
from vlib import Monitor, run_isolated, rng, scratch, QUICK
import bhah
import nrpy.c_function as cfc
import nrpy.grid as gri  # noqa: F401  (registers NUMGRIDS etc.)
import nrpy.params as par
from nrpy.infrastructures.BHaH import cmdline_input_and_parfiles as cmdpar

ALPH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"


def rname(r, used):
    while True:
        n = r.choice(["zz_", "Q", "v_", "Az", "zZ"]) + "".join(r.choice(ALPH) for _ in range(r.choice([1, 2, 3, 5, 9, 20, 60])))
        if r.random() < 0.25 and used:  # names that are prefixes / case variants of others
            b = r.choice(sorted(used))
            n = r.choice([b + "x", b.swapcase(), b[:-1] if len(b) > 4 else b + "_0"])
        if n not in used and n.upper() not in ("Q", "ZZ_") and len(n) < 100:
            used.add(n)
            return n


def rreal(r):
    k = r.random()
    if k < 0.2:
        return float(r.randint(-50, 50))
    if k < 0.4:
        return r.choice([0.1, 1e-5, 1e-300, 1e300, -0.0, 3.141592653589793, 2.0**53 + 1, 1e22, 123456789.123456789])
    return r.uniform(-1, 1) * 10 ** r.randint(-12, 12)


def rint(r):
    return r.choice([0, 1, -1, 2**31 - 1, -(2**31), r.randint(-1000, 1000), r.randint(-10**9, 10**9)])


CH = "abcXYZ 0123_-./+:,;!?()<>[]*&^$@~'|"


def rstr(r, n, extra="=%{}"):
    L = r.choice([0, 1, min(3, n), n // 2, n])
    L = min(L, n)
    return "".join(r.choice(CH + extra) for _ in range(L))


def fmt_real(r, v):
    c = [repr(v), f"{v:.17e}", f"{v:+.17g}", f"{v:.3f}" if abs(v) < 1e6 else repr(v), f"{v:.17E}"]
    if v == int(v) and abs(v) < 1e9:
        c += [str(int(v)), f"{int(v)}.", f"{int(v)}e0"]
    return r.choice(c)


def fmt_int(r, v):
    return r.choice([str(v), f"{v:+d}", ("-" if v < 0 else "") + "00" + str(abs(v))])


def fmt_bool(r, v):
    return r.choice(["true", "TRUE", "True", "1", "tRuE"] if v else ["false", "FALSE", "False", "0"])


def fmt_str(r, s):
    """returns text or None when it cannot be written unquoted"""
    if s and s.strip() == s and s[0] not in '{"=' and r.random() < 0.4:
        return s
    return '"' + s + '"'


def default_params(k):
    r = rng("c09", k)
    used = set()
    P = []
    for _ in range(r.randint(4, 14)):
        t = r.choice(["REAL", "REAL", "int", "bool", "char", "REALA", "intA", "#define"])
        name = rname(r, used)
        common = r.random() < 0.75 or t in ("REALA", "intA")
        setcp = r.random() < 0.8 and t not in ("REALA", "intA")
        topar = r.random() < 0.85
        n = 0
        if t == "REAL":
            d = r.choice([rreal(r), r.randint(-9, 9), rreal(r)])
        elif t == "int":
            d = rint(r)
            d = d if d != -(2**31) else -5
        elif t == "bool":
            d = r.random() < 0.5
        elif t == "char":
            n = r.choice([1, 2, 5, 20, 100, 120])
            d = rstr(r, n - 1, "=")
        elif t == "REALA":
            n = r.choice([1, 2, 3, 7, 30, 90])
            d = rreal(r)
            if n > 30:
                d = float(r.randint(-9, 9))
        elif t == "intA":
            n = r.choice([1, 2, 3, 7, 60, 100])
            d = r.randint(-99, 99)
        else:
            d = r.randint(0, 99)
            common = False
        P.append(dict(name=name, t=t, n=n, d=d, common=common, setcp=setcp, par=topar, mod=r.choice(["modA", "modB", "zmod"])))
    # the parser needs at least one parameter of each numeric kind on the parfile to be interesting
    P.append(dict(name=rname(r, used), t="REAL", n=0, d=1.5, common=True, setcp=True, par=True, mod="modA"))
    P.append(dict(name=rname(r, used), t="int", n=0, d=7, common=True, setcp=True, par=True, mod="modA"))
    cli = [p for p in P if p["common"] and p["par"] and p["t"] in ("REAL", "int", "bool", "char")]
    cli = r.sample(cli, min(len(cli), r.choice([0, 1, 1, 2, 3, 6])))
    return P, cli, r.choice(["double", "double", "double", "float"])


def ctype(p):
    return {"REAL": "REAL", "int": "int", "bool": "bool", "#define": "#define", "char": f"char[{p['n']}]", "REALA": f"REAL[{p['n']}]", "intA": f"int[{p['n']}]"}[p["t"]]


def pr(p, acc, tag):
    t, nm = p["t"], p["name"]
    if t == "REAL":
        return f'  printf("{tag} {nm} %a\\n", (double)({acc}));\n'
    if t in ("int", "bool", "#define"):
        return f'  printf("{tag} {nm} %d\\n", (int)({acc}));\n'
    if t == "char":
        return f'  printf("{tag} {nm} "); for(const char *q={acc}; *q; q++) printf("%02x", (unsigned char)*q); printf("\\n");\n'
    e = '%a' if t == "REALA" else '%d'
    c = "(double)" if t == "REALA" else ""
    return f'  printf("{tag} {nm}"); for(int i_=0;i_<{p["n"]};i_++) printf(" {e}", {c}({acc})[i_]); printf("\\n");\n'


def parse_out(out):
    R = {}
    for line in out.splitlines():
        t = line.split()
        if len(t) >= 2 and t[0] in ("S", "V", "N", "M", "D"):
            R[(t[0], t[1])] = t[2:]
    return R


def rnd(v, fp):
    return struct.unpack("f", struct.pack("f", v))[0] if fp == "float" else float(v)


def val_ok(p, tok, want, fp):
    if p["t"] == "REAL":
        a, b = float.fromhex(tok[0]), rnd(want, fp)
        return a == b and (struct.pack("d", a) == struct.pack("d", b) or b == 0)
    if p["t"] in ("int", "bool", "#define"):
        return int(tok[0]) == int(want)
    if p["t"] == "char":
        return bytes.fromhex(tok[0] if tok else "").decode("latin-1") == want
    if p["t"] == "REALA":
        return [float.fromhex(x) for x in tok] == [rnd(w, fp) for w in want]
    return [int(x) for x in tok] == list(want)


def clip(v, fp):
    if fp == "float" and (abs(v) > 3e38 or 0 < abs(v) < 1e-30):
        return 0.5
    return v


def task(k):
    P, cli, fp = default_params(k)
    m = Monitor("C09")
    d = scratch(f"c09_{k}")
    r = rng("c09run", k)
    for p in P:
        if p["t"] in ("REAL", "REALA"):
            p["d"] = clip(p["d"], fp)
    tag = f"params {[(p['name'], ctype(p), p['d']) for p in P]} cli={[p['name'] for p in cli]} fp={fp}"
    try:
        with vlib.quiet():
            par.set_parval_from_str("fp_type", fp)
            for p in P:
                par.register_CodeParameter(
                    ctype(p), p["mod"], p["name"], p["d"], commondata=p["common"], add_to_parfile=p["par"],
                    add_to_set_CodeParameters_h=p["setcp"], description=r.choice(["", "some text, with = and # signs", "d"]),
                )
            cmdpar.register_CFunction_cmdline_input_and_parfile_parser("prog", [p["name"] for p in cli])
            see = [p for p in P if p["setcp"] and p["t"] != "#define"]
            cfc.register_CFunction(
                includes=["BHaH_defines.h"], desc="see", name="see_params",
                params="const commondata_struct *restrict commondata, const params_struct *restrict params",
                include_CodeParameters_h=True, body="".join(pr(p, p["name"], "V") for p in see) or "(void)0;\n",
            )
            simd_body = ""
            for p in see:
                if p["t"] == "REAL":
                    simd_body += f"  {{ REAL b_[simd_width]; WriteSIMD(b_, {p['name']}); int same=1; for(int i_=1;i_<simd_width;i_++) same &= b_[i_]==b_[0]; printf(\"M {p['name']} %a\\n\", same ? (double)b_[0] : 0.0/0.0); }}\n"
                elif p["t"] in ("int", "bool"):
                    simd_body += pr(p, p["name"], "M")
            use_simd = fp == "double"
            if use_simd:
                cfc.register_CFunction(
                    includes=["BHaH_defines.h", "intrinsics/simd_intrinsics.h"], desc="see", name="see_params_simd",
                    params="const commondata_struct *restrict commondata, const params_struct *restrict params",
                    include_CodeParameters_h=True, enable_simd=True, body=simd_body or "(void)0;\n",
                )
            body = r"""
  commondata_struct *cd=(commondata_struct*)malloc(sizeof(commondata_struct)); memset(cd,0x6d,sizeof *cd);
  commondata_struct_set_to_default(cd);
  cmdline_input_and_parfile_parser(cd, argc, argv);
  cd->NUMGRIDS=2;
  griddata_struct *gd=(griddata_struct*)malloc(2*sizeof(griddata_struct)); memset(gd,0x6d,2*sizeof *gd);
  params_struct_set_to_default(cd, gd);
  const commondata_struct commondata=*cd; const params_struct params=gd[1].params;
"""
            for p in P:
                if p["t"] == "#define":
                    body += pr(p, p["name"], "D")
                else:
                    body += pr(p, ("cd->" if p["common"] else "gd[1].params.") + p["name"], "S")
            body += "  see_params(cd, &gd[1].params);\n" + ("  see_params_simd(cd, &gd[1].params);\n" if use_simd else "")
            body += '  {\n#include "set_CodeParameters-nopointer.h"\n' + "".join(pr(p, p["name"], "N") for p in see) + "  }\n  free(cd); free(gd); return 0;\n"
            bhah.raw_main(body)
            bhah.write_project(d, simd=use_simd)
            cmdpar.generate_default_parfile(str(d), "prog")
    except Exception as e:
        tb = traceback.format_exc()
        if "/repo/" in tb:
            m.violation("codegen", f"{tag}: generation failed: {e}", tb)
            return m.part()
        raise
    rc, log = bhah.make(d, jobs=2)
    if rc:
        m.violation("compile", f"{tag}: generated project does not compile", log[-3000:])
        return m.part()
    pf = [p for p in P if p["par"] and p["common"] and p["t"] != "#define"]
    deft = {}
    for p in P:
        deft[p["name"]] = [p["d"]] * p["n"] if p["t"] in ("REALA", "intA") else p["d"]

    def rvalue(p):
        if p["t"] == "REAL":
            v = clip(rreal(r), fp)
            t = fmt_real(r, v)
            return float(t), t
        if p["t"] == "int":
            v = rint(r)
            return v, fmt_int(r, v)
        if p["t"] == "bool":
            v = r.random() < 0.5
            return v, fmt_bool(r, v)
        if p["t"] == "char":
            v = rstr(r, min(p["n"] - 1, 120))
            return v, fmt_str(r, v)
        vs, ts = [], []
        for _ in range(p["n"]):
            if p["t"] == "REALA":
                v = clip(rreal(r), fp) if p["n"] < 20 else float(r.randint(-9, 9))
                t = fmt_real(r, v) if p["n"] < 20 else str(int(v))
                v = float(t)
            else:
                v = rint(r) if p["n"] < 20 else r.randint(-9, 9)
                t = fmt_int(r, v) if p["n"] < 20 else str(v)
            vs.append(v)
            ts.append(t)
        sep = r.choice([",", ", ", " , ", " ,\t"]) if p["n"] < 40 else ","
        return vs, "{" + r.choice(["", " "]) + sep.join(ts) + r.choice(["", " "]) + "}"

    def line(p, t):
        ws = lambda: r.choice(["", " ", "  ", "\t"])
        br = f"[{p['n']}]" if p["t"] in ("REALA", "intA") else ""
        return ws() + p["name"] + br + ws() + "=" + ws() + t + ws() + r.choice(["", "", "# comment", "# x = 3", "#" + "y" * r.choice([10, 1100]) + " = 2"])

    def run(text, args, name="prog.par"):
        (d / "prog.par").unlink(missing_ok=True)
        if text is not None:
            (d / name).write_bytes(text.encode("latin-1"))
        return bhah.run(d, args, timeout=60)

    def check_values(what, out, want, text, args):
        R = parse_out(out)
        ok = True
        for p in P:
            key = ("D" if p["t"] == "#define" else "S", p["name"])
            views = [key]
            if p["setcp"] and p["t"] != "#define":
                views += [("V", p["name"]), ("N", p["name"])]
                if fp == "double" and p["t"] in ("REAL", "int", "bool"):
                    views.append(("M", p["name"]))
            for v in views:
                if v not in R:
                    m.violation("missing", f"{tag}: {what}: no value printed for {v}; out={out[-300:]}")
                    return
                if not val_ok(p, R[v], want[p["name"]], fp):
                    ok = False
                    m.violation(f"value-{what}", f"{tag}: {what}: {p['name']} ({ctype(p)}) seen via {v[0]} = {R[v]}, expected {want[p['name']]!r}", f"args={args}\nparfile:\n{text}")
            m.observe(n=len(views))
        return ok

    # 1. the generated default parfile must reproduce the defaults
    text = (d / "prog.par").read_text()
    rc, out, err = run(text, [])
    if rc or bhah.san_report(rc, err):
        m.violation("default-parfile", f"{tag}: default parfile rejected rc={rc}: {err[:600]}", text)
        return m.part()
    check_values("default-parfile", out, deft, text, [])
    if "Unrecognized" in err:
        m.violation("default-parfile", f"{tag}: parser does not recognise a parameter of the generated default parfile: {err[:300]}", text)
    m.count("default parfiles")
    # 2. valid files
    for i in range(12 if QUICK else 40):
        want = dict(deft)
        lines = []
        for p in r.sample(pf, r.choice([0, 1, len(pf) // 2, len(pf)])):
            v, t = rvalue(p)
            if len(t) > 110 and p["t"] in ("REAL", "int", "char"):
                continue
            want[p["name"]] = v
            lines.append(line(p, t))
        for _ in range(r.choice([0, 0, 1, 4])):
            lines.insert(r.randint(0, len(lines)), r.choice(["", "   ", "# only = comment", "not_a_param_xyz = 3.0", "#" + "z" * 3000, "\t# t"]))
        eol = r.choice(["\n", "\n", "\r\n"])
        text = eol.join(lines) + r.choice(["", eol])
        args, name = [], "prog.par"
        if cli and r.random() < 0.6:
            vals = []
            for p in cli:
                while True:
                    v, t = rvalue(p)
                    if p["t"] == "char" and (t == "" or len(t) > 110):
                        continue
                    if p["t"] == "char" and not t.startswith('"') and t.startswith("-h"):
                        continue
                    break
                vals.append(t)
                want[p["name"]] = v
            args = vals
            if r.random() < 0.5:
                name = r.choice(["other.par", "a b.txt"])
                args = [name] + vals
            elif len(cli) == 1 and (d / vals[0].replace("/", "_")).exists():
                continue
        elif r.random() < 0.5:
            name = "other.par"
            args = [name]
        if any("/" in a for a in args):  # never let a random value name a real file
            args = [a.replace("/", "_") for a in args]
            for p, a in zip(cli, args[-len(cli):]):
                if p["t"] == "char":
                    want[p["name"]] = a[1:-1] if a[:1] == '"' else a
        rc, out, err = run(text, args, name)
        if rc or bhah.san_report(rc, err):
            m.violation("valid-rejected", f"{tag}: valid input rejected rc={rc}: {err[:600]}", f"args={args}\n{text}")
            continue
        check_values("valid", out, want, text, args)
        m.count("valid files")
        m.observe(key=f"v{k}.{i}", n=0, sample=f"args={args} {text[:120]!r}")
    # 3. invalid files: loud, clean rejection
    bad = []
    num = [p for p in pf if p["t"] in ("REAL", "int")]
    for p in r.sample(num, min(4, len(num))):
        v, t = rvalue(p)
        bad.append(("duplicate", line(p, t) + "\n" + line(p, t) + "\n"))
        bad.append(("not-a-number", f"{p['name']} = {r.choice(['abc', '1.0x', '--3', '1 2', '', '1,5', '{1,2}', '3=4'])}\n"))
        bad.append(("array-size-on-scalar", f"{p['name']}[3] = {{1,2,3}}\n"))
        bad.append(("bracket", f"{p['name']}[3 = 1\n"))
        bad.append(("brace", f"{p['name']} = {{1\n"))
        bad.append(("long-bracket", f"{p['name']}[{'1' * r.choice([16, 17, 40])}] = 1\n"))
        bad.append(("long-value", f"{p['name']} = {'1' * r.choice([128, 200, 900])}\n"))
        if p["t"] == "int":
            bad.append(("int-range", f"{p['name']} = {r.choice([2**31, -2**31 - 1, 2**32, 2**32 + 5, 10**18, 10**30])}\n"))
            bad.append(("int-float", f"{p['name']} = {r.choice(['1.5', '1e3', '0x10'])}\n"))
        else:
            bad.append(("real-range", f"{p['name']} = 1e400\n"))
    for p in pf:
        if p["t"] == "bool":
            bad.append(("bool", f"{p['name']} = {r.choice(['2', 'yes', 't', 'truee', ''])}\n"))
        if p["t"] == "char":
            s = "x" * p["n"]
            bad.append(("char-too-long", f"{p['name']} = {r.choice([s, chr(34) + s + chr(34)])}\n"))
        if p["t"] in ("REALA", "intA"):
            n = p["n"]
            bad.append(("array-mismatch", f"{p['name']}[{n + 1}] = {{{','.join(['1'] * n)}}}\n"))
            bad.append(("value-count", f"{p['name']}[{n}] = {{{','.join(['1'] * (n + r.choice([1, 2, 60])))}}}\n"))
            bad.append(("value-count", f"{p['name']}[{n}] = {{{','.join(['1'] * (n - 1))}}}\n"))
            bad.append(("array-without-size", f"{p['name']} = {{{','.join(['1'] * n)}}}\n"))
            bad.append(("array-bad-element", f"{p['name']}[{n}] = {{{','.join(['1'] * (n - 1) + ['q'])}}}\n"))
    bad.append(("name", "bad-name! = 3\n"))
    bad.append(("long-name", "n" * r.choice([128, 500]) + " = 3\n"))
    bad.append(("long-line", "nn" * 700 + " = 3\n"))
    for why, text in r.sample(bad, min(len(bad), 16 if QUICK else 60)):
        rc, out, err = run(text, [])
        rep = bhah.san_report(rc, err)
        if rep:
            m.violation("invalid-memory", f"{tag}: {why}: {rep[:800]}", text)
        elif rc != 1 or not err.strip():
            m.violation(f"invalid-{why}", f"{tag}: malformed parameter file ({why}) accepted, rc={rc}", text)
        m.observe(key=f"i{k}.{why}")
        m.count("invalid files")
    # wrong numbers of arguments / missing files
    for args, text in ([["x"] * (len(cli) + 2 + r.randint(1, 3)), "\n"], [["missing.par"] + ["1"] * len(cli) if len(cli) else ["missing.par", "q"], "\n"], [[], None]):
        (d / "missing.par").unlink(missing_ok=True)
        rc, out, err = run(text, args)
        rep = bhah.san_report(rc, err)
        if rep or rc != 1 or "Usage" not in err:
            m.violation("usage", f"{tag}: args={args} parfile={text!r}: rc={rc} {rep or err[:300]}")
        m.count("usage errors")
    for h in ("-h", "--help"):
        rc, out, err = run("\n", [h])
        if rc or "Usage" not in err + out:
            m.violation("usage", f"{tag}: {h}: rc={rc} {err[:300]}")
    # 4. hostile bytes: never a memory error
    base = (line(pf[0], rvalue(pf[0])[1]) + "\n" + "".join(line(p, rvalue(p)[1]) + "\n" for p in pf)).encode("latin-1")
    for i in range(12 if QUICK else 80):
        b = bytearray(base)
        for _ in range(r.randint(1, 12)):
            o = r.randint(0, len(b))
            w = r.random()
            if w < 0.4:
                b[o:o] = r.choice([b"[", b"]", b"{", b"}", b'"', b"=", b",", b"#", b"\0", b"\xff", b"\n", b"=" * 200, b"," * 300, b"[" + b"9" * 40, b"A" * 1500])
            elif w < 0.7 and b:
                del b[o:o + r.randint(1, 30)]
            elif b and o < len(b):
                b[o] = r.randint(0, 255)
        rc, out, err = run(bytes(b).decode("latin-1"), [])
        rep = bhah.san_report(rc, err)
        if rep or rc not in (0, 1):
            m.violation("hostile", f"{tag}: rc={rc} {(rep or err)[:800]}", repr(bytes(b)))
        m.observe()
        m.count("hostile files")
    m.count("projects")
    return m.part()


def main():
    m = Monitor("C09", rule="distinct (parameter set, input file class) cases")
    ks = list(range(48)) if QUICK else list(range(400))
    for i, st, res in run_isolated(task, ks, timeout=200):
        if st == "ok":
            m.merge(res)
        else:
            raise vlib.HarnessError(f"{ks[i]}: {st} {res[2] if st == 'exc' else res}")
    m.require("valid files", 60)
    m.require("invalid files", 60)
    m.finish()


vlib.main(main)
