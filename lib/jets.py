"""Truncated Taylor series (second order, four variables t,x0,x1,x2) in mpmath, and the spacetime geometry they give.
Everything here is textbook differential geometry; nothing is read from nrpy."""
import mpmath as mp

N = 4
RN = range(N)
R3 = range(3)


class J:
    """value, gradient (or None), Hessian (or None)"""

    __slots__ = ("v", "g", "h")

    def __init__(self, v, g=None, h=None):
        self.v, self.g, self.h = v, g, h

    @staticmethod
    def const(v):
        return J(mp.mpf(v), [mp.mpf(0)] * N, [[mp.mpf(0)] * N for _ in RN])

    def __add__(self, o):
        if not isinstance(o, J):
            return J(self.v + o, self.g, self.h)
        return J(self.v + o.v, _z(self.g, o.g, lambda a, b: [a[i] + b[i] for i in RN]),
                 _z(self.h, o.h, lambda a, b: [[a[i][j] + b[i][j] for j in RN] for i in RN]))

    __radd__ = __add__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, J):
            return J(self.v * o, self.g and [a * o for a in self.g], self.h and [[a * o for a in r] for r in self.h])
        v = self.v * o.v
        g = _z(self.g, o.g, lambda a, b: [a[i] * o.v + self.v * b[i] for i in RN])
        h = None
        if self.h is not None and o.h is not None:
            h = [[None] * N for _ in RN]
            for i in RN:
                for j in range(i, N):
                    h[i][j] = h[j][i] = self.h[i][j] * o.v + self.v * o.h[i][j] + self.g[i] * o.g[j] + self.g[j] * o.g[i]
        return J(v, g, h)

    __rmul__ = __mul__

    def f(self, f0, f1, f2):
        """composition with a scalar function given its value and two derivatives"""
        g = self.g and [f1 * a for a in self.g]
        h = None
        if self.h is not None:
            h = [[f1 * self.h[i][j] + f2 * self.g[i] * self.g[j] for j in RN] for i in RN]
        return J(f0, g, h)

    def pow(self, p):
        p = mp.mpf(p)
        return self.f(self.v**p, p * self.v ** (p - 1), p * (p - 1) * self.v ** (p - 2))

    def log(self):
        return self.f(mp.log(self.v), 1 / self.v, -1 / self.v**2)

    def __truediv__(self, o):
        if isinstance(o, J):
            return self * o.f(1 / o.v, -1 / o.v**2, 2 / o.v**3)
        return self * (1 / mp.mpf(o))

    def d(self, i):
        return J(self.g[i], self.h and list(self.h[i]), None)


def _z(a, b, fn):
    return None if a is None or b is None else fn(a, b)


def zero():
    return J.const(0)


def jsum(xs):
    t = None
    for x in xs:
        t = x if t is None else t + x
    return t


def inv(M):
    """inverse and determinant of a small matrix of jets (adjugate / cofactors)"""
    n = len(M)

    def det(A):
        if len(A) == 1:
            return A[0][0]
        return jsum((A[0][c] * ((-1) ** c)) * det([r[:c] + r[c + 1:] for r in A[1:]]) for c in range(len(A)))

    d = det(M)
    I = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [r[:i] + r[i + 1:] for k, r in enumerate(M) if k != j]
            I[i][j] = det(minor) * ((-1) ** (i + j)) / d
    return I, d


def christoffel(g, gi, dirs):
    """Gamma^a_bc of metric g (jets) whose index a corresponds to jet direction dirs[a]"""
    n = range(len(g))
    low = [[[(g[a][b].d(dirs[c]) + g[a][c].d(dirs[b]) - g[b][c].d(dirs[a])) * mp.mpf(0.5) for c in n] for b in n] for a in n]
    return [[[jsum(gi[a][e] * low[e][b][c] for e in n) for c in n] for b in n] for a in n]


def riemann_up(G, dirs):
    """R^a_bcd values from first-order jets of the connection"""
    n = range(len(G))
    return [[[[G[a][b][d].d(dirs[c]).v - G[a][b][c].d(dirs[d]).v
               + sum(G[a][c][e].v * G[e][b][d].v - G[a][d][e].v * G[e][b][c].v for e in n) for d in n] for c in n] for b in n] for a in n]


def ricci(G, dirs):
    Rm = riemann_up(G, dirs)
    n = range(len(G))
    return [[sum(Rm[a][b][a][d] for a in n) for d in n] for b in n]


class Spacetime:
    """A 4-metric given to second order around a point, with its 3+1 split and Einstein tensor."""

    def __init__(self, g):
        self.g = g
        dirs = list(RN)
        self.gi, _ = inv(g)
        self.G4 = christoffel(g, self.gi, dirs)
        self.Riem = riemann_up(self.G4, dirs)
        self.Ric = [[sum(self.Riem[a][b][a][d] for a in RN) for d in RN] for b in RN]
        R = sum(self.gi[a][b].v * self.Ric[a][b] for a in RN for b in RN)
        self.Ein = [[self.Ric[a][b] - g[a][b].v * R / 2 for b in RN] for a in RN]
        self.EinUU = [[sum(self.gi[a][c].v * self.gi[b][d].v * self.Ein[c][d] for c in RN for d in RN) for b in RN] for a in RN]
        self.gam = [[g[i + 1][j + 1] for j in R3] for i in R3]
        self.gamU, self.det = inv(self.gam)
        self.betaU = [jsum(self.gamU[i][j] * g[0][j + 1] for j in R3) for i in R3]
        self.alpha = (jsum(self.betaU[i] * g[0][i + 1] for i in R3) - g[0][0]).pow(0.5)
        S = (1, 2, 3)
        self.K = [[None] * 3 for _ in R3]
        for i in R3:
            for j in R3:
                lie = jsum([self.betaU[k] * self.gam[i][j].d(S[k]) + self.gam[k][j] * self.betaU[k].d(S[i]) + self.gam[i][k] * self.betaU[k].d(S[j]) for k in R3])
                self.K[i][j] = (self.gam[i][j].d(0) - lie) / self.alpha * mp.mpf(-0.5)

    def riem_low(self):
        return [[[[sum(self.g[a][e].v * self.Riem[e][b][c][d] for e in RN) for d in RN] for c in RN] for b in RN] for a in RN]


def random_metric(r, scale, lapse1=False, amp=0.2):
    """4-metric with gamma_ij/(s_i s_j) close to a multiple of delta; scale: three jets."""
    u = lambda a=1.0: mp.mpf(r.uniform(-a, a))
    rj = lambda v: J(mp.mpf(v), [u() for _ in RN], _sym([[u() for _ in RN] for _ in RN]))
    gam = [[None] * 3 for _ in R3]
    conf = r.uniform(0.6, 2.0)
    for i in R3:
        for j in range(i, 3):
            e = rj((1 if i == j else 0) + r.uniform(-amp, amp)) * conf
            gam[i][j] = gam[j][i] = e * scale[i] * scale[j]
    al = rj(1 if lapse1 else r.uniform(.4, 1.5))
    be = [rj(0 if lapse1 else r.uniform(-.5, .5)) / scale[i] for i in R3]
    lo = [jsum(gam[i][j] * be[j] for j in R3) for i in R3]
    g = [[None] * 4 for _ in RN]
    g[0][0] = jsum(be[i] * lo[i] for i in R3) - al * al
    for i in R3:
        g[0][i + 1] = g[i + 1][0] = lo[i]
        for j in R3:
            g[i + 1][j + 1] = gam[i][j]
    return g


def _sym(h):
    return [[h[i][j] if i <= j else h[j][i] for j in RN] for i in RN]


def make_vacuum(g):
    """Change the second derivatives of g (least-norm) so that the Ricci tensor vanishes at the point."""
    st = Spacetime(g)
    gi = [[st.gi[a][b].v for b in RN] for a in RN]
    pairs = [(a, b) for a in RN for b in range(a, N)]
    # unknowns: d_c d_d g_ab, weight = number of times it appears
    def lin(a, b, c, d):
        """change of each Ricci component for unit change of g_ab,cd (all its symmetric copies)"""
        H = {}
        for (x, y) in {(a, b), (b, a)}:
            for (z, w) in {(c, d), (d, c)}:
                H[(x, y, z, w)] = 1
        out = []
        for (m, n) in pairs:
            s = 0
            for (x, y, z, w) in H:
                # R_mn = 1/2 g^{pq} (g_{qn,pm} + g_{qm,pn} - g_{mn,pq} - g_{pq,mn})
                if y == n and w == m: s += gi[z][x]
                if y == m and w == n: s += gi[z][x]
                if x == m and y == n: s -= gi[z][w]
                if z == m and w == n: s -= gi[x][y]
            out.append(s / 2)
        return out
    cols = [(a, b, c, d) for (a, b) in pairs for (c, d) in pairs]
    A = mp.matrix(len(pairs), len(cols))
    for k, col in enumerate(cols):
        for i, v in enumerate(lin(*col)):
            A[i, k] = v
    rhs = mp.matrix([-st.Ric[m][n] for (m, n) in pairs])
    x = A.T * mp.lu_solve(A * A.T, rhs)
    new = [[J(e.v, list(e.g), [list(r) for r in e.h]) for e in row] for row in g]
    for k, (a, b, c, d) in enumerate(cols):
        for (p, q) in {(a, b), (b, a)}:
            for (z, w) in {(c, d), (d, c)}:
                new[p][q].h[z][w] += x[k]
    return new
