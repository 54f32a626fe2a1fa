"""Evaluate sympy expressions numerically in mpmath, visiting every shared subexpression once."""
import mpmath as mp
import sympy as sp

FN = {"exp": mp.exp, "log": mp.log, "sin": mp.sin, "cos": mp.cos, "tan": mp.tan, "sinh": mp.sinh, "cosh": mp.cosh, "tanh": mp.tanh, "asin": mp.asin, "acos": mp.acos,
      "atan": mp.atan, "asinh": mp.asinh, "acosh": mp.acosh, "atanh": mp.atanh, "atan2": mp.atan2, "Abs": abs, "sign": mp.sign, "Max": max, "Min": min, "re": mp.re, "im": mp.im,
      "erf": mp.erf, "gamma": mp.gamma, "factorial": mp.factorial, "cot": mp.cot, "sec": mp.sec, "csc": mp.csc, "coth": mp.coth, "nrpyAbs": abs}


class DagEval:
    def __init__(self, lookup):
        self.lookup = lookup
        self.memo = {}
        self.keep = []

    def __call__(self, e):
        if not isinstance(e, sp.Basic):
            e = sp.sympify(e)
        memo = self.memo
        if id(e) in memo:
            return memo[id(e)]
        stack = [e]
        while stack:
            x = stack[-1]
            if id(x) in memo:
                stack.pop()
                continue
            if not x.args:
                memo[id(x)] = self.atom(x)
                self.keep.append(x)
                stack.pop()
                continue
            args = x.args
            todo = [a for a in args if id(a) not in memo]
            if todo:
                self.keep.append(args)
                stack.extend(todo)
                continue
            v = [memo[id(a)] for a in args]
            if x.is_Add:
                t = v[0]
                for y in v[1:]:
                    t = t + y
            elif x.is_Mul:
                t = v[0]
                for y in v[1:]:
                    t = t * y
            elif x.is_Pow:
                t = self.pow(v[0], v[1], args[1])
            elif x.func is sp.Piecewise or x.func.__name__ == "ExprCondPair":
                t = self.special(x)
            else:
                t = self.call(x.func.__name__, v)
            memo[id(x)] = t
            self.keep.append(x)
            stack.pop()
        return memo[id(e)]

    def pow(self, base, val, ex):
        if ex.is_Integer:
            return base ** int(ex)
        if ex == sp.S.Half:
            return mp.sqrt(base)
        if ex == -sp.S.Half:
            return 1 / mp.sqrt(base)
        return base**val

    def call(self, name, v):
        return FN[name](*v)

    def special(self, x):
        raise NotImplementedError(str(x.func))

    def atom(self, x):
        if x.is_Symbol:
            return self.lookup(str(x))
        if x.is_Integer:
            return mp.mpf(int(x))
        if x.is_Rational:
            return mp.mpf(int(x.p)) / int(x.q)
        if x.is_Float:
            return mp.mpf(x._mpf_)
        if x is sp.pi:
            return mp.pi + 0
        if x is sp.EulerGamma:
            return mp.euler + 0
        if x is sp.E:
            return mp.e + 0
        if x is sp.I:
            return mp.mpc(0, 1)
        raise NotImplementedError(repr(x))


class JetEval(DagEval):
    """the same with Taylor jets (jets.J) as values"""

    def pow(self, base, val, ex):
        from jets import J
        if not isinstance(base, J):
            return DagEval.pow(self, base, val, ex)
        return base.pow(val)

    def call(self, name, v):
        from jets import J
        x = v[0]
        if len(v) > 1 or not isinstance(x, J):
            return DagEval.call(self, name, v)
        y = x.v
        if name == "exp":
            e = mp.exp(y)
            return x.f(e, e, e)
        if name == "log":
            return x.log()
        if name == "sin":
            return x.f(mp.sin(y), mp.cos(y), -mp.sin(y))
        if name == "cos":
            return x.f(mp.cos(y), -mp.sin(y), -mp.cos(y))
        if name == "sinh":
            return x.f(mp.sinh(y), mp.cosh(y), mp.sinh(y))
        if name == "cosh":
            return x.f(mp.cosh(y), mp.sinh(y), mp.cosh(y))
        if name == "Abs":
            return x.f(abs(y), mp.sign(y), mp.mpf(0))
        raise NotImplementedError(name)
