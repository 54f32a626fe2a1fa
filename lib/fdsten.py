"""Independent finite-difference stencils in exact arithmetic."""
import itertools
from fractions import Fraction as F


def lagrange_weights(offs, m):
    """Weights w with sum w_j f(o_j) = f^(m)(0), exact for degree < len(offs)."""
    out = []
    for j, xj in enumerate(offs):
        poly = [F(1)]
        for k, xk in enumerate(offs):
            if k != j:
                d = F(xj - xk)
                new = [F(0)] * (len(poly) + 1)
                for i, c in enumerate(poly):
                    new[i + 1] += c / d
                    new[i] -= c * xk / d
                poly = new
        c = poly[m] if m < len(poly) else F(0)
        f = 1
        for q in range(2, m + 1):
            f *= q
        out.append(c * f)
    return out


def binom(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


_cache = {}


def stencil(op, p):
    """op like dD1 / dDD02 / dupD0 / ddnD0 / dKOD2 -> {offset3: Fraction} (times invdxx factors)."""
    if (op, p) in _cache:
        return _cache[op, p]
    st = {}
    name = op.rstrip("0123456789")
    d = [int(c) for c in op[len(name):]]
    rad = p // 2

    def unit(o, k):
        v = [0, 0, 0]
        v[k] = o
        return tuple(v)

    if name == "dD":
        offs = list(range(-rad, rad + 1))
        st = {unit(o, d[0]): w for o, w in zip(offs, lagrange_weights(offs, 1))}
    elif name in ("dupD", "ddnD", "dfullupD", "dfulldnD"):
        s = {"dupD": 1, "ddnD": -1, "dfullupD": rad, "dfulldnD": -rad}[name]
        offs = list(range(-rad + s, rad + s + 1))
        st = {unit(o, d[0]): w for o, w in zip(offs, lagrange_weights(offs, 1))}
    elif name == "dDD":
        offs = list(range(-rad, rad + 1))
        if d[0] == d[1]:
            st = {unit(o, d[0]): w for o, w in zip(offs, lagrange_weights(offs, 2))}
        else:
            w1 = lagrange_weights(offs, 1)
            for (a, wa), (b, wb) in itertools.product(zip(offs, w1), zip(offs, w1)):
                v = [0, 0, 0]
                v[d[0]], v[d[1]] = a, b
                st[tuple(v)] = wa * wb
    elif name == "dKOD":
        # Kreiss-Oliger: +-(undivided) (p+2)-th difference / 2^(p+2); sign makes +sigma*dKOD dissipative
        n = p + 2
        sgn = (-1) ** (n // 2 + 1)
        for k in range(n + 1):
            st[unit(k - n // 2, d[0])] = F(sgn * (-1) ** k * binom(n, k), 2**n)
    else:
        raise ValueError("bad op " + op)
    _cache[op, p] = {k: w for k, w in st.items() if w != 0}
    return _cache[op, p]
