"""A random spacetime around a point of a coordinate system in BSSN and ADM variables, and the comparison of sympy expressions with it."""
import re
import mpmath as mp
import sympy as sp
from geom import R3, geometry, flat, rand_point
import jets
from dageval import DagEval
from jets import J, jsum, inv, christoffel, ricci, Spacetime, random_metric, make_vacuum, RN
import nrpy.reference_metric as refmetric

S = (1, 2, 3)
HALF = mp.mpf(1) / 2


def jet3(v, d, dd):
    """jet of a time-independent function from its spatial derivatives"""
    z = mp.mpf(0)
    return J(v, [z] + list(d), [[z] * 4] + [[z] + list(r) for r in dd])


class Point:
    """A spacetime around one point of a coordinate system, in BSSN variables, with time derivatives."""

    def __init__(self, cs, r, cf_choice, vacuum=False):
        self.q, self.p = rand_point(cs, r)
        Q = geometry(cs, self.q, self.p)
        h = [jet3(Q["ReD"][i], Q["ReDdD"][i], Q["ReDdDD"][i]) for i in R3]
        g = random_metric(r, h, lapse1=vacuum)
        if vacuum:
            g = make_vacuum(g)
        st = self.st = Spacetime(g)
        self.h = h
        u = lambda: mp.mpf(r.uniform(-1, 1))
        self.BU = [J(u(), [u() for _ in RN], jets._sym([[u() for _ in RN] for _ in RN])) / h[i] for i in R3]
        self.eta = mp.mpf(r.uniform(.5, 3))
        self.ghat = [[h[i] * h[i] if i == j else jets.zero() for j in R3] for i in R3]
        ghatU, dethat = inv(self.ghat)
        ratio = st.det / dethat  # = exp(12 phi)
        self.phi = ratio.log() / 12
        self.cf = {"phi": self.phi, "W": ratio.pow(-mp.mpf(1) / 6), "chi": ratio.pow(-mp.mpf(1) / 3)}[cf_choice]
        em4 = ratio.pow(-mp.mpf(1) / 3)
        self.em4 = em4
        self.gbar = [[st.gam[i][j] * em4 for j in R3] for i in R3]
        self.gbarU, self.detbar = inv(self.gbar)
        self.trK = jsum(st.gamU[i][j] * st.K[i][j] for i in R3 for j in R3)
        self.Abar = [[(st.K[i][j] - st.gam[i][j] * self.trK / 3) * em4 for j in R3] for i in R3]
        self.Gbar = christoffel(self.gbar, self.gbarU, S)
        self.Ghat = christoffel(self.ghat, ghatU, S)
        self.Lam = [jsum(self.gbarU[j][k] * (self.Gbar[i][j][k] - self.Ghat[i][j][k]) for j in R3 for k in R3) for i in R3]
        self.hDD = [[(self.gbar[i][j] - self.ghat[i][j]) / (h[i] * h[j]) for j in R3] for i in R3]
        self.aDD = [[self.Abar[i][j] / (h[i] * h[j]) for j in R3] for i in R3]
        self.lam = [self.Lam[i] * h[i] for i in R3]
        self.vet = [st.betaU[i] * h[i] for i in R3]
        self.bet = [self.BU[i] * h[i] for i in R3]
        self.Rbar = ricci(self.Gbar, S)
        self.T = [[x / (8 * mp.pi) for x in row] for row in st.EinUU]
        self.G3 = christoffel(st.gam, st.gamU, S)
        self.extra = {}

    def lookup(self, name):
        """value of a symbol appearing in the expressions"""
        if name in self.extra:
            return self.extra[name]
        if name in self.p:
            return self.p[name]
        if name in ("xx0", "xx1", "xx2"):
            return self.q[int(name[2])]
        if name in ("PI", "M_PI"):
            return mp.pi
        if name == "M_SQRT1_2":
            return 1 / mp.sqrt(2)
        if name == "eta":
            return self.eta
        m = re.fullmatch(r"T4UU(\d)(\d)", name)
        if m:
            return self.T[int(m[1])][int(m[2])]
        m = re.fullmatch(r"RbarDD(\d)(\d)", name)
        if m:
            return self.Rbar[int(m[1])][int(m[2])]
        m = re.fullmatch(r"(hDD|aDD|lambdaU|vetU|betU|trK|cf|alpha|gammaDD|KDD|betaU|BU)(?:(_dDD|_dD|_dupD)?)(\d*)", name)
        if not m:
            return None
        base, der, ix = m[1], m[2] or "", [int(c) for c in m[3]]
        nt = {"hDD": 2, "aDD": 2, "gammaDD": 2, "KDD": 2, "lambdaU": 1, "vetU": 1, "betU": 1, "betaU": 1, "BU": 1}.get(base, 0)
        if len(ix) != nt + {"": 0, "_dD": 1, "_dupD": 1, "_dDD": 2}[der]:
            return None
        t = {"hDD": self.hDD, "aDD": self.aDD, "lambdaU": self.lam, "vetU": self.vet, "betU": self.bet, "trK": self.trK, "cf": self.cf, "alpha": self.st.alpha,
             "gammaDD": self.st.gam, "KDD": self.st.K, "betaU": self.st.betaU, "BU": self.BU}[base]
        for i in ix[:nt]:
            t = t[i]
        for i in ix[nt:]:
            t = t.d(S[i])
        return t.v


class Checker:
    def __init__(self, m, cs, pre, pt):
        self.m, self.cs, self.pre = m, cs, pre
        self.key = cs + ("_rfm_precompute" if pre else "")
        self.pts = pt
        self.table = {}
        if pre:
            rfm = refmetric.reference_metric[self.key]
            for base, var in (("f0_of_xx0", 0), ("f1_of_xx1", 1), ("f2_of_xx0", 0), ("f3_of_xx2", 2), ("f4_of_xx1", 1)):
                e = getattr(rfm, base)
                if isinstance(e, sp.Symbol) and str(e) == base:
                    continue
                self.table[base] = e
                for o in (1, 2, 3):
                    e = sp.diff(e, rfm.xx[var])
                    self.table[f"{base}__{'D' * o}{str(var) * o}"] = e

    def eval(self, exprs, pts=None):
        """values of a list of expressions at every point"""
        out = []
        for P in pts or self.pts:
            if getattr(P, "ev", None) is None or P.evT is not P.T or P.evx != len(P.extra):
                P.ev, P.evT, P.evx = DagEval(lambda n, P=P: self.symbol(P, n)), P.T, len(P.extra)
            out.append([P.ev(e) for e in exprs])
        return out

    def symbol(self, P, n):
        v = P.lookup(n)
        if v is None and n in self.table:
            v = DagEval(P.lookup)(self.table[n])
        if v is None:
            raise Unknown(n)
        return v

    def compare(self, name, exprs, want, pts=None, scale=None):
        """exprs: nested list of expressions; want(P): same shape of numbers (or jets -> value)"""
        ex = list(flat(exprs)) if isinstance(exprs, (list, tuple)) else [((), exprs)]
        try:
            got = self.eval([e for _, e in ex], pts)
        except Unknown as e:
            self.m.violation(f"{name}:unknown-symbol:{self.key}", f"{self.key} {name} depends on {e}, which is neither a variable nor a parameter of the problem")
            return
        for P, gv in zip(pts or self.pts, got):
            w = want(P)
            wf = [v for _, v in flat(w)] if isinstance(w, (list, tuple)) else [w]
            wf = [v.v if isinstance(v, J) else mp.mpmathify(v) for v in wf]
            if len(wf) != len(gv):
                self.m.violation(f"{name}:shape:{self.key}", f"{name} has {len(gv)} components, expected {len(wf)}")
                return
            sc = max([abs(v) for v in wf] + [mp.mpf(1)]) * (scale(P) if scale else 1)
            self.m.count("components", len(wf))
            for (k, _), a, b in zip(ex, gv, wf):
                self.m.observe()
                if not abs(a - b) <= mp.mpf(10) ** -15 * sc:
                    self.m.violation(f"{name}:{self.key}", f"{self.key} (cf={P.cfname}) {name}{list(k) or ''} = {mp.nstr(a, 12)}, the spacetime has {mp.nstr(b, 12)} at {[mp.nstr(x, 6) for x in P.q]}")
                    return
        self.m.observe(f"{name}:{self.key}:{P.cfname}", n=0)


class Unknown(Exception):
    pass


def dt(x):
    return x.d(0).v


def proj(P, T):
    """rho, S_i, S_ij of a given T^{mu nu}"""
    st = P.st
    g = [[st.g[a][b].v for b in RN] for a in RN]
    n = [-st.alpha.v, 0, 0, 0]
    gam = [[g[a][b] + n[a] * n[b] for b in RN] for a in RN]
    rho = sum(n[a] * n[b] * T[a][b] for a in RN for b in RN)
    SD = [-sum(gam[i + 1][a] * n[b] * T[a][b] for a in RN for b in RN) for i in R3]
    SDD = [[sum(gam[i + 1][a] * gam[j + 1][b] * T[a][b] for a in RN for b in RN) for j in R3] for i in R3]
    tr = sum(st.gamU[i][j].v * SDD[i][j] for i in R3 for j in R3)
    return rho, SD, SDD, tr
