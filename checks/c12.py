"""C12: the on-disk cache is transparent: any state, crash point, fault or concurrent use gives the uncached result."""
import errno
import itertools
import os
import pickle
import resource
import shutil
import signal
import subprocess
import sys
import time
import traceback
from pathlib import Path
import mpmath as mp
import sympy as sp
import vlib
from vlib import Monitor, run_isolated, rng, scratch, QUICK
import exprgen
import nrpy.helpers.cached_functions as cf
from nrpy.helpers.generic import clang_format

NOFMT = object()


def use(d):
    os.environ["XDG_CACHE_HOME"] = str(d)
    os.environ["HOME"] = str(d)


# ------------------------------------------------------------------ workload values
def payload(key, version, size):
    body = bytes((version * 31 + i * 7) % 251 for i in range(256)) * (size // 256)
    return ("P", key, version, size, body)


def good_payload(v, key):
    return isinstance(v, tuple) and len(v) == 5 and v[0] == "P" and v[1] == key and v == payload(key, v[2], v[3])


def rand_expr(r):
    a = dict(zip(["real", "positive", "integer"], [True, None, None])) if r.random() < 0.4 else {}
    kind = r.randrange(3)
    asm = [{}, {"real": True}, {"positive": True}, {"integer": True}][r.randrange(4)]
    x, y, z = sp.symbols("x y z", **asm)
    T = [
        sp.sqrt(x**2), sp.log(sp.exp(x)), sp.sin(x) ** 2 + sp.cos(x) ** 2, (x**2 - y**2) / (x - y), sp.Abs(x) * y,
        x * (y + z) - x * y, sp.exp(x) * sp.exp(y), sp.sqrt(x) * sp.sqrt(y), sp.cos(x * sp.pi), (x + y) ** 3 - x**3,
        sp.Rational(r.randint(1, 9), r.randint(1, 9)) * x + r.randint(-3, 3), sp.sinh(x) + sp.cosh(x), x ** sp.Rational(1, 2) * x ** sp.Rational(1, 2),
    ]
    e = sp.Integer(0)
    for _ in range(r.randint(1, 3)):
        e += r.choice([1, -1, 2]) * r.choice(T) * r.choice([1, 1, y])
    return e


def numeric(e, pt):
    try:
        v = e.subs(pt)
        v = sp.N(v, 30)
        return complex(v)
    except Exception:
        return None


def transparent(k):
    """cold == warm == warm in another process == uncached meaning"""
    m = Monitor("C12")
    r = rng("c12t", k)
    d = scratch(f"t{k}")
    use(d)
    exprs = [rand_expr(r) for _ in range(12)]
    codes = []
    for i in range(6):
        body = "".join(f"int {r.choice('abcxyz')}{j}={r.randint(0,99)}; for(int i=0;i<{r.randint(1,9)};i++) {{ f(i,{j}); }} /* é {r.random()} */\n" for j in range(r.choice([1, 3, 40])))
        codes.append((body, r.choice(["-style={BasedOnStyle: LLVM, ColumnLimit: 150}", "-style={BasedOnStyle: GNU, ColumnLimit: 60}", "-style={DisableFormat: true}"])))
    # the same text with different options, and texts that are prefixes of each other
    codes += [(codes[0][0], "-style={BasedOnStyle: Google, ColumnLimit: 40}"), (codes[0][0] + "int last;\n", codes[0][1]), ("", codes[0][1]), ("\n", codes[0][1])]

    def evalall():
        out = []
        for e in exprs:
            out.append(cf.cached_simplify(e))
        for c, o in codes:
            out.append(clang_format(c, o))
        return out

    try:
        cold = evalall()
        warm = evalall()
        (other,) = [p for _, st, p in run_isolated(lambda _: (use(d), evalall())[1], [0]) if st == "ok"] or [None]
        d2 = scratch(f"t{k}b")
        (fresh,) = [p for _, st, p in run_isolated(lambda _: (use(d2), evalall())[1], [0]) if st == "ok"] or [None]
    except Exception as ex:
        tb = traceback.format_exc()
        if "/repo/" not in tb:
            raise
        m.violation("raises", f"cached evaluation raised {ex!r}", tb)
        return m.part()
    if other is None or fresh is None:
        m.violation("raises", "cached evaluation raised in a second process sharing the cache")
        return m.part()
    for i, e in enumerate(exprs):
        m.observe(key=f"expr {e} {sorted(map(str, (s.assumptions0.get('positive') for s in e.free_symbols)))}", sample=str(e))
        m.count("simplifications")
        for nm, res in (("warm", warm), ("another process", other), ("fresh cache", fresh)):
            if res[i] != cold[i]:
                m.violation("state-dependent", f"cached_simplify({e}): {cold[i]} with a cold cache but {res[i]} ({nm})")
        if not cold[i].free_symbols <= e.free_symbols:
            m.violation("wrong-result", f"cached_simplify({sp.srepr(e)}) has foreign symbols: {sp.srepr(cold[i])}")
            continue
        for _ in range(3):
            pt = {s: (sp.Integer(r.randint(1, 6)) if s.is_integer else sp.Rational(r.randint(1, 300), 100) * (1 if s.is_positive or r.random() < 0.5 else -1)) for s in e.free_symbols}
            a, b = numeric(e, pt), numeric(cold[i], pt)
            if a is None or b is None or a != a or b != b:
                continue
            m.observe()
            if abs(a - b) > 1e-9 * (1 + abs(a)):
                m.violation("wrong-result", f"cached_simplify({sp.srepr(e)}) -> {cold[i]}: {a} != {b} at {pt}")
                break
    for j, (c, o) in enumerate(codes):
        p = subprocess.run(["clang-format", o], input=c.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        want = p.stdout.decode()
        m.observe(key=f"fmt {hash((c, o))}")
        m.count("formattings")
        for nm, res in (("cold", cold), ("warm", warm), ("other process", other), ("fresh", fresh)):
            if res[len(exprs) + j] != want:
                m.violation("format-differs", f"clang_format with a {nm} cache returned {res[len(exprs)+j][:200]!r} instead of {want[:200]!r} (options {o})", c)
                break
    return m.part()


def store(k):
    """random history of store operations against a dictionary model"""
    m = Monitor("C12")
    r = rng("c12s", k)
    use(scratch(f"s{k}"))
    alph = ["a", "b", "ab", "a b", "a/b", "../x", "é", "x" * 5000, "", "A", "a\n", "0", "nrpy", "a.nrpycache"]
    model = {}
    for step in range(120):
        key = r.choice(alph) + r.choice(["", "", "1", "2"])
        op = r.random()
        try:
            if op < 0.4:
                v = r.choice([None, 0, "", "text" * r.randint(0, 1000), [1, 2, {"q": (3, None)}], sp.Symbol("x", real=True) ** 2, payload(key, step, 4096), {"k": sp.Rational(1, 3)}])
                cf.write_cached(key, v)
                model[key] = v
            elif op < 0.7:
                if cf.is_cached(key) != (key in model):
                    m.violation("membership", f"is_cached({key[:40]!r}) = {key not in model} after {step} operations")
            else:
                if key in model:
                    v = cf.read_cached(key)
                    if v != model[key] or type(v) is not type(model[key]):
                        m.violation("lost-update", f"read_cached({key[:40]!r}) = {str(v)[:100]} expected {str(model[key])[:100]}")
            m.observe(key=f"store {k} {step}")
            m.count("store operations")
        except Exception as ex:
            if "/repo/" not in traceback.format_exc():
                raise
            m.violation("raises", f"store operation on {key[:40]!r} raised {ex!r}", traceback.format_exc())
    return m.part()


# ------------------------------------------------------------------ faults
EVENTS = ("open", "os.rename", "os.remove", "os.mkdir", "os.truncate", "os.link", "os.chmod", "shutil.move", "tempfile.mkstemp", "os.utime")


def victim(arg):
    """runs in a forked child: perform the action with a fault at the given point"""
    d, action, fault, n = arg
    use(d)
    pid = os.fork()
    if pid == 0:
        try:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 2)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            state = dict(c=0, armed=False)
            if fault in ("event", "eventerr", "count"):
                def hook(ev, args):
                    if state["armed"] and ev in EVENTS and any(isinstance(a, (str, bytes, os.PathLike)) and str(d) in os.fsdecode(a) for a in args):
                        state["c"] += 1
                        if state["c"] == n:
                            if fault == "event":
                                os.kill(os.getpid(), signal.SIGKILL)
                            elif fault == "eventerr":
                                raise OSError(errno.ENOSPC, "injected")
                sys.addaudithook(hook)
            elif fault in ("truncate", "full"):
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if fault == "truncate" else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
            state["armed"] = True
            do(action)
            os._exit(min(state["c"], 200) if fault == "count" else 0)
        except OSError as e:
            os._exit(241)
        except BaseException:
            os._exit(242)
    _, st = os.waitpid(pid, 0)
    return st


BIGX = sp.symbols("x0:40", real=True)
BIGEXPR = sum((BIGX[i] ** 2 - BIGX[i + 1] ** 2) * sp.Symbol(f"q{i}") for i in range(39))
CODE = "".join(f"int  a{i} =  {i} ;\n" for i in range(600))


def do(action):
    kind, arg = action
    if kind == "store":
        key, ver, size = arg
        cf.write_cached(key, payload(key, ver, size))
    elif kind == "simplify":
        return cf.cached_simplify(BIGEXPR if arg == "big" else sp.Symbol("x") ** 2 - 1 + sp.Symbol("x"))
    elif kind == "format":
        return clang_format(CODE if arg == "big" else "int   a;")


def crash(arg):
    k, action, prior, fault, n = arg
    m = Monitor("C12")
    d = scratch(f"x{k}")
    use(d)
    if prior:
        if action[0] == "store":
            cf.write_cached(action[1][0], payload(action[1][0], 1, 70000))
        else:
            do((action[0], "small"))
    st = victim((d, action, fault, n))
    tag = f"{action[0]}{action[1] if action[0] != 'store' else ''} prior={prior} fault={fault}@{n} exit={st}"
    m.observe(key=tag)
    m.count("faults " + fault)
    if os.WIFSIGNALED(st):
        m.count("crashes")
    elif os.WEXITSTATUS(st) in (241, 242):
        m.count("failed writes")
    # a fresh process after the crash
    def after(_):
        use(d)
        if action[0] == "store":
            key = action[1][0]
            if cf.is_cached(key):
                v = cf.read_cached(key)
                return "ok" if good_payload(v, key) and v[2] in ((1, action[1][1]) if prior else (action[1][1],)) else f"wrong value {str(v)[:100]}"
            return "lost the previous value" if prior else "ok"
        got = do(action)
        if action[0] == "format":
            want = subprocess.run(["clang-format", "-style={BasedOnStyle: LLVM, ColumnLimit: 150}"], input=(CODE if action[1] == "big" else "int   a;").encode(), stdout=subprocess.PIPE).stdout.decode()
            return "ok" if got == want else f"wrong text {got[:80]!r}"
        want = BIGEXPR if action[1] == "big" else sp.Symbol("x") ** 2 - 1 + sp.Symbol("x")
        return "ok" if sp.expand(got - want) == 0 else f"wrong expression {str(got)[:100]}"

    for _, s, p in run_isolated(after, [0], timeout=120):
        if s == "ok":
            if p != "ok":
                m.violation("after-crash-wrong", f"{tag}: next process: {p}")
        elif s == "exc":
            m.violation("after-crash-raises", f"{tag}: the next process fails with {p[0]}: {p[1]}", p[2])
        else:
            raise vlib.HarnessError(f"{tag}: {s}")
    return m.part()


def nevents(action, prior, tag):
    d = scratch("n" + tag)
    use(d)
    if prior:
        do(action if action[0] != "store" else ("store", (action[1][0], 1, 70000))) if action[0] == "store" else None
    st = victim((d, action, "count", 0))
    return os.WEXITSTATUS(st)


# ------------------------------------------------------------------ concurrency
def hammer(arg):
    d, wid, seconds, start = arg
    use(d)
    r = rng("c12h", wid)
    keys = [f"key{i}" for i in range(3)]
    n = dict(w=0, r=0, bad=[])
    seen = set()
    while time.time() < start:
        time.sleep(0.005)
    it = 0
    while time.time() < start + seconds:
        it += 1
        key = r.choice(keys)
        try:
            if r.random() < 0.45:
                cf.write_cached(key, payload(key, wid * 100000 + it, r.choice([256, 1 << 16, 1 << 21])))
                n["w"] += 1
            elif cf.is_cached(key):
                v = cf.read_cached(key)
                n["r"] += 1
                if not good_payload(v, key):
                    n["bad"].append(f"torn or foreign value {str(v)[:100]}")
                else:
                    seen.add((key, v[2] // 100000))
            if r.random() < 0.1:
                do((r.choice(["simplify", "format"]), "small"))
        except Exception as ex:
            n["bad"].append(f"{type(ex).__name__}: {ex} {traceback.format_exc()[-600:]}")
        if len(n["bad"]) > 3:
            break
    n["seen"] = len(seen)
    return n


def race_first(arg):
    """all processes find the cache cold at the same time"""
    d, wid, start = arg
    use(d)
    while time.time() < start:
        time.sleep(0.002)
    out = []
    for j in range(6):
        out.append(str(cf.cached_simplify(sp.Symbol("x") ** 2 * (j + 1) - sp.Symbol("y") * (j + 1))))
        out.append(clang_format(f"int   a{j} ;" * 300))
    return out


def main():
    m = Monitor("C12", "exploration", "cache state x value x (crash point | fault | concurrent schedule); distinct by case")
    jobs = [(transparent, k) for k in range(6 if QUICK else 60)] + [(store, k) for k in range(4 if QUICK else 60)]
    # crash points: every file-system event, and truncation at byte n
    acts = [("store", ("kk", 2, 300000)), ("store", ("kk", 3, 256)), ("simplify", "big"), ("simplify", "small"), ("format", "big"), ("format", "small")]
    X = []
    r = rng("c12")
    for ai, a in enumerate(acts):
        for prior in ((False, True) if a[0] == "store" else (False,)):
            ne = nevents(a, prior, f"{ai}{prior}")
            if ne in (241, 242):
                m.violation("raises", f"{a[0]} raised without any fault (prior={prior})")
                continue
            m.count("crash points", ne)
            for n in range(1, ne + 1):
                X += [(a, prior, "event", n), (a, prior, "eventerr", n)]
            sizes = [0, 1, 2, 10, 50, 100, 1000, 4096, 65536, 200000] + [r.randint(0, 300000) for _ in range(2 if QUICK else 60)]
            for n in sizes:
                X += [(a, prior, "truncate", n), (a, prior, "full", n)]
    jobs += [(crash, (k,) + x) for k, x in enumerate(X)]
    for i, st, p in run_isolated(lambda j: j[0](j[1]), jobs, timeout=300):
        if st == "ok":
            m.merge(p)
        else:
            raise vlib.HarnessError(f"{jobs[i]}: {st} {p}")
    # concurrency
    for rep in range(2 if QUICK else 12):
        d = scratch(f"h{rep}")
        t = time.time() + 0.4
        sec = 2.0 if QUICK else 8.0
        for i, st, p in run_isolated(hammer, [(d, w + 1 + 16 * rep, sec, t) for w in range(8)], procs=8, timeout=120):
            if st != "ok":
                raise vlib.HarnessError(f"hammer: {st} {p}")
            m.count("concurrent writes", p["w"])
            m.count("concurrent reads", p["r"])
            m.observe(key=f"hammer {rep} {i} {p['seen']} writers seen", n=p["r"])
            for b in p["bad"]:
                m.violation("concurrent", f"process {i}: {b}")
        d = scratch(f"rf{rep}")
        t = time.time() + 0.4
        outs = []
        for i, st, p in run_isolated(race_first, [(d, w, t) for w in range(8)], procs=8, timeout=120):
            if st == "ok":
                outs.append(tuple(p))
            elif st == "exc" and "/repo/" in p[2]:
                m.violation("concurrent-cold", f"process {i} sharing a cold cache raised {p[0]}: {p[1]}", p[2])
            else:
                raise vlib.HarnessError(f"race_first: {st} {p}")
        m.count("cold races", len(outs))
        if len(set(outs)) > 1:
            m.violation("concurrent-cold", "processes sharing a cold cache got different results")
    m.require("crashes", 20)
    m.require("concurrent reads", 50)
    m.require("simplifications", 20)
    m.assumptions = ["crashes are process crashes (kill, truncated write); loss of already written pages after a power failure is not modelled", "cache files are not edited by third parties"]
    m.finish()


vlib.main(main)
