"""Random SymPy expression generator and an independent high-precision evaluator
with a running forward error bound (the reference oracle for generated C)."""
import mpmath as mp
import sympy as sp

R = sp.Rational
mp.mp.dps = 40


class Gen:
    def __init__(self, rnd, nsyms=6, simd=False, names=None, rich=True):
        self.r = rnd
        self.simd = simd
        self.rich = rich
        names = names or [f"{c}{i}" for i, c in zip(range(nsyms), "uvwabc")]
        self.syms = [sp.Symbol(n, real=True) for n in names]
        self.pool = []

    def coef(self):
        r = self.r
        k = r.random()
        if k < 0.35:
            return sp.Integer(r.choice([-3, -2, -1, -1, 1, 2, 3, 4, 5, 7, -6]))
        if k < 0.9:
            return R(r.choice([-1, 1]) * r.randint(1, 9), r.choice([2, 3, 4, 5, 6, 7, 8, 12]))
        return R(r.randint(-200, 200) or 1, r.randint(1, 5000))

    def leaf(self):
        r = self.r
        if self.pool and r.random() < 0.3:
            return r.choice(self.pool)
        return r.choice(self.syms)

    def pos(self, d):
        """An expression that is positive at every real point."""
        r = self.r
        k = r.random()
        if k < 0.5:
            return self.expr(d - 1) ** 2 + R(r.randint(1, 9), r.choice([1, 2, 4, 5]))
        if k < 0.8:
            return r.choice(self.syms) ** 2 + r.choice(self.syms) ** 2 + 1
        return sp.exp(self.small(d - 1))

    def small(self, d):
        """A bounded expression, for use inside exp/sinh/asin."""
        r = self.r
        k = r.random()
        if k < 0.4:
            return r.choice(self.syms) / self.r.choice([2, 3, 4])
        if k < 0.7 or d <= 0:
            return sp.sin(self.leaf())
        return sp.cos(self.expr(d - 1))

    def expr(self, d):
        r = self.r
        if d <= 0:
            return self.leaf() if r.random() < 0.85 else self.coef()
        k = r.random()
        if k < 0.30:
            e = sp.Add(*[self._term(d) for _ in range(r.randint(2, 4))])
        elif k < 0.55:
            e = sp.Mul(*[self.expr(d - 1) for _ in range(r.randint(2, 3))])
        elif k < 0.68:
            n = r.choice([2, 2, 2, 3, 3, 4, 5, 6, 7])
            b = self.leaf() if n > 4 else self.expr(d - 1)
            e = b**n
        elif k < 0.77:
            n = r.choice([-1, -1, -1, -2, -2, -3, -4, -5, -6])
            e = self.pos(d) ** n
        elif k < 0.87:
            ps = [R(1, 2), R(-1, 2), R(-3, 2), R(-5, 2)]
            if not self.simd:
                ps += [R(1, 3), R(-1, 3), R(3, 2), R(2, 3), R(5, 2), R(1, 6), R(-1, 6), R(1, 4), R(-7, 3), R(4, 3)]
            e = self.pos(d) ** r.choice(ps)
        else:
            e = self.func(d)
        if r.random() < 0.25 and e.free_symbols:
            self.pool.append(e)
        return e

    def _term(self, d):
        r = self.r
        t = self.expr(d - 1)
        k = r.random()
        if k < 0.4:
            t = self.coef() * t
        if k < 0.15:
            t = t * self.leaf()
        if r.random() < 0.12:
            t = -t
        return t

    def func(self, d):
        r = self.r
        if self.simd:
            f = r.choice(["sin", "cos", "exp", "abs", "abs"])
        else:
            f = r.choice(
                ["sin", "cos", "tan", "exp", "log", "sinh", "cosh", "tanh", "asin",
                 "acos", "atan", "atan2", "abs", "nabs", "erf", "pi", "asinh", "pow", "flt"]
                + (["max", "min"] if self.rich else [])
            )
        if f in ("sin", "cos"):
            return getattr(sp, f)(self.expr(d - 1))
        if f == "tan":
            return sp.tan(sp.sin(self.leaf()))
        if f == "exp":
            return sp.exp(self.small(d))
        if f in ("sinh", "cosh", "tanh"):
            return getattr(sp, f)(self.small(d))
        if f in ("asin", "acos"):
            return getattr(sp, f)(sp.sin(self.leaf()) * R(9, 10))
        if f in ("atan", "asinh", "erf"):
            return getattr(sp, f)(self.expr(d - 1))
        if f == "log":
            return sp.log(self.pos(d))
        if f == "atan2":
            return sp.atan2(self.expr(d - 1), self.leaf() + self.coef())
        if f == "abs":
            return sp.Abs(self.expr(d - 1))
        if f == "nabs":
            return sp.Function("nrpyAbs")(self.expr(d - 1))
        if f == "pi":
            return sp.pi * self.leaf()
        if f == "pow":
            return (r.choice(self.syms) ** 2 + 1) ** r.choice(self.syms)
        if f == "flt":
            return sp.Float(round(r.uniform(-3, 3), 6) or 1.5) * self.leaf()
        if f in ("max", "min"):
            return getattr(sp, f.capitalize())(self.leaf() + self.coef(), self.expr(d - 1))
        if f == "sign":
            return sp.sign(self.leaf() + self.coef())
        if f == "pw":
            s = r.choice(self.syms)
            return sp.Piecewise((self.expr(d - 1), s > self.coef()), (self.leaf(), True))
        raise AssertionError(f)


class Undefined(Exception):
    pass


class Eval:
    """value and forward error bound (absolute) of a SymPy expression."""

    def __init__(self, env, eps):
        self.env, self.eps, self.memo = env, mp.mpf(eps), {}

    def __call__(self, e):
        try:
            return self.memo[e]
        except KeyError:
            pass
        v, err = self._ev(e)
        if isinstance(v, mp.mpc) or mp.isnan(v) or mp.isinf(v) or mp.isnan(err) or mp.isinf(err):
            raise Undefined(str(e))
        if abs(v) > mp.mpf(10) ** 30:
            raise Undefined("huge")
        err = err + self.eps * abs(v)
        self.memo[e] = (v, err)
        return v, err

    def _fn(self, f, df, x, dx):
        v = f(x)
        d = abs(df(x))
        return v, d * dx

    def _ev(self, e):
        if e.is_Symbol:
            x = self.env[e.name]
            return (mp.mpf(x[0]), mp.mpf(x[1])) if isinstance(x, tuple) else (mp.mpf(x), mp.mpf(0))
        if e.is_Rational:
            return mp.mpf(e.p) / e.q, self.eps * abs(mp.mpf(e.p) / e.q)
        if e is sp.pi or e is sp.E:
            return (+mp.pi if e is sp.pi else +mp.e), self.eps * 4
        if e.is_Float:
            return mp.mpf(str(e)), max(self.eps, mp.mpf(2) ** -50) * abs(mp.mpf(str(e)))
        if e.is_Add:
            s = mp.mpf(0)
            er = mp.mpf(0)
            big = mp.mpf(0)
            for a in e.args:
                v, d = self(a)
                s += v
                er += d
                big += abs(v)
            return s, er + self.eps * big * len(e.args)
        if e.is_Mul:
            vals = [self(a) for a in e.args]
            p = mp.mpf(1)
            for v, _ in vals:
                p *= v
            er = mp.mpf(0)
            for i, (v, d) in enumerate(vals):
                q = d
                for j, (w, _) in enumerate(vals):
                    if j != i:
                        q *= abs(w)
                er += q
            return p, er + self.eps * abs(p) * len(vals)
        if e.is_Pow:
            b, db = self(e.base)
            x, dx = self(e.exp)
            if b == 0 and x < 0:
                raise Undefined("0**neg")
            if b < 0 and not e.exp.is_Integer:
                raise Undefined("neg**frac")
            if e.exp.is_Integer:
                v = mp.power(b, int(e.exp))
                er = abs(x) * (abs(v / b) if b else 0) * db
                return v, er + self.eps * abs(v) * abs(x)
            v = mp.power(b, x)
            if b <= 0:
                raise Undefined("pow")
            return v, abs(x * v / b) * db + abs(v * mp.log(b)) * dx + 4 * self.eps * abs(v)
        if isinstance(e, sp.Function) or isinstance(e, (sp.Max, sp.Min)):
            n = e.func.__name__
            if n in ("Max", "Min"):
                vals = [self(a) for a in e.args]
                v = (max if n == "Max" else min)(x for x, _ in vals)
                return v, max(d for _, d in vals)
            if n == "atan2":
                (y, dy), (x, dx) = self(e.args[0]), self(e.args[1])
                r2 = x * x + y * y
                if r2 == 0:
                    raise Undefined("atan2")
                if x < 0 and abs(y) < 10 * dy + mp.mpf("1e-6"):
                    raise Undefined("branch")
                return mp.atan2(y, x), (abs(x) * dy + abs(y) * dx) / r2
            if n == "Piecewise":
                for val, c in e.args:
                    if c == True:  # noqa
                        return self(val)
                    l, dl = self(c.lhs)
                    rr, dr = self(c.rhs)
                    if abs(l - rr) < mp.mpf("1e-4"):
                        raise Undefined("edge")
                    ok = l > rr if isinstance(c, sp.StrictGreaterThan) else (
                        l < rr if isinstance(c, sp.StrictLessThan) else
                        (l >= rr if isinstance(c, sp.GreaterThan) else l <= rr))
                    if ok:
                        return self(val)
                raise Undefined("pw")
            x, dx = self(e.args[0])
            if n in ("sin", "cos") and abs(x) > 1e4:
                raise Undefined("bigarg")
            if n == "sin":
                return mp.sin(x), abs(mp.cos(x)) * dx + self.eps
            if n == "cos":
                return mp.cos(x), abs(mp.sin(x)) * dx + self.eps
            if n == "tan":
                return mp.tan(x), (1 + mp.tan(x) ** 2) * dx
            if n == "exp":
                return mp.exp(x), mp.exp(x) * dx
            if n == "log":
                if x <= 0:
                    raise Undefined("log")
                return mp.log(x), dx / x + self.eps
            if n == "sinh":
                return mp.sinh(x), mp.cosh(x) * dx
            if n == "cosh":
                return mp.cosh(x), abs(mp.sinh(x)) * dx
            if n == "tanh":
                return mp.tanh(x), dx
            if n in ("asin", "acos"):
                if abs(x) > 0.999:
                    raise Undefined(n)
                return getattr(mp, n)(x), dx / mp.sqrt(1 - x * x) + self.eps
            if n == "atan":
                return mp.atan(x), dx
            if n == "asinh":
                return mp.asinh(x), dx
            if n == "erf":
                return mp.erf(x), 2 * dx + self.eps
            if n in ("Abs", "nrpyAbs"):
                return abs(x), dx
            if n == "sign":
                if abs(x) < mp.mpf("1e-4"):
                    raise Undefined("edge")
                return mp.sign(x), mp.mpf(0)
        raise Undefined(f"unsupported {type(e)}")
