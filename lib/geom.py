"""Textbook geometry of the supported coordinate systems in mpmath: maps, their derivatives to third order and
everything that follows from them; written from the documented definitions, never read from nrpy."""
import itertools
import mpmath as mp
import coords

mp.mp.dps = 50
SYSTEMS = coords.ALL + ["SinhSphericalv2n6", "SinhCylindricalv2n6"]
R3 = range(3)


# ---- textbook maps in mpmath (documented definitions, not read from the code)
def sinh1(x, A, w):
    return A * mp.sinh(x / w) / mp.sinh(1 / w)


def sinh2(x, A, w, s, n):
    return (A - s) * x**n * mp.sinh(x / w) / mp.sinh(1 / w) + s * x


def tmap(cs, p):
    """x(q) as three mpmath callables of three arguments."""
    if "Cartesian" in cs:
        f = (lambda v: v) if cs == "Cartesian" else (lambda v: sinh1(v, p["AMPLXYZ"], p["SINHWXYZ"]))
        return [lambda a, b, c: f(a), lambda a, b, c: f(b), lambda a, b, c: f(c)]
    if "Cyl" in cs:
        if cs == "Cylindrical":
            fr, fz = (lambda v: v), (lambda v: v)
        elif "v2n" in cs:
            n = int(cs.split("v2n")[1])
            fr = lambda v: sinh2(v, p["AMPLRHO"], p["SINHWRHO"], p["rho_slope"], n)
            fz = lambda v: sinh2(v, p["AMPLZ"], p["SINHWZ"], p["z_slope"], n)
        else:
            fr = lambda v: sinh1(v, p["AMPLRHO"], p["SINHWRHO"])
            fz = lambda v: sinh1(v, p["AMPLZ"], p["SINHWZ"])
        return [lambda a, b, c: fr(a) * mp.cos(b), lambda a, b, c: fr(a) * mp.sin(b), lambda a, b, c: fz(c)]
    if cs in ("Spherical", "SymTP"):
        fr = lambda v: v
    elif cs == "SinhSymTP":
        fr = lambda v: sinh1(v, p["AMAX"], p["SINHWAA"])
    elif "v2n" in cs:
        n = int(cs.split("v2n")[1])
        fr = lambda v: sinh2(v, p["AMPL"], p["SINHW"], p["r_slope"], n)
    else:
        fr = lambda v: sinh1(v, p["AMPL"], p["SINHW"])
    X = lambda a, b, c: fr(a) * mp.sin(b) * mp.cos(c)
    Y = lambda a, b, c: fr(a) * mp.sin(b) * mp.sin(c)
    if "SymTP" in cs:
        Z = lambda a, b, c: mp.sqrt(fr(a) ** 2 + p["bScale"] ** 2) * mp.cos(b)
    else:
        Z = lambda a, b, c: fr(a) * mp.cos(b)
    if cs == "UWedgeHSinhSph":
        return [lambda a, b, c: -Z(a, b, c), Y, X]
    if cs == "LWedgeHSinhSph":
        return [Z, Y, lambda a, b, c: -X(a, b, c)]
    return [X, Y, Z]


def jets(f, q, order=3):
    """All partial derivatives of f at q up to the given order, by multivariate central differences at high precision."""
    out = {}
    for n in itertools.product(range(order + 1), repeat=3):
        if sum(n) <= order:
            out[n] = mp.diff(f, tuple(q), n) if sum(n) else f(*q)
    return out


def idx(*dirs):
    n = [0, 0, 0]
    for d in dirs:
        n[d] += 1
    return tuple(n)


def geometry(cs, q, p):
    F = tmap(cs, p)
    J = [jets(f, q) for f in F]
    d1 = [[J[m][idx(i)] for i in R3] for m in R3]  # dx^m/dq^i
    D2 = lambda m, i, j: J[m][idx(i, j)]
    D3 = lambda m, i, j, k: J[m][idx(i, j, k)]
    g = [[sum(d1[m][i] * d1[m][j] for m in R3) for j in R3] for i in R3]
    Ji = mp.matrix(d1) ** -1
    inv = [[Ji[i, m] for m in R3] for i in R3]  # dq^i/dx^m
    G = [[[sum(inv[i][m] * D2(m, j, k) for m in R3) for k in R3] for j in R3] for i in R3]
    # d_l Gamma^i_jk: d_l (inv) = -inv * d_l(d1) * inv
    dinv = [[[-sum(inv[i][a] * D2(a, b, l) * inv[b][m] for a in R3 for b in R3) for l in R3] for m in R3] for i in R3]
    dG = [[[[sum(dinv[i][m][l] * D2(m, j, k) + inv[i][m] * D3(m, j, k, l) for m in R3) for l in R3] for k in R3] for j in R3] for i in R3]
    dg = [[[sum(D2(m, i, k) * d1[m][j] + d1[m][i] * D2(m, j, k) for m in R3) for k in R3] for j in R3] for i in R3]
    ddg = [[[[sum(D3(m, i, k, l) * d1[m][j] + D2(m, i, k) * D2(m, j, l) + D2(m, i, l) * D2(m, j, k) + d1[m][i] * D3(m, j, k, l) for m in R3)
              for l in R3] for k in R3] for j in R3] for i in R3]
    ginv = mp.matrix(g) ** -1
    det = mp.det(mp.matrix(d1)) ** 2
    # det derivatives: d_i det = 2 det Gamma^m_mi
    tr = [sum(G[m][m][i] for m in R3) for i in R3]
    ddet = [2 * det * tr[i] for i in R3]
    dddet = [[2 * ddet[j] * tr[i] + 2 * det * sum(dG[m][m][i][j] for m in R3) for j in R3] for i in R3]
    # scale factors h_i = sqrt(g_ii) and derivatives
    h = [mp.sqrt(g[i][i]) for i in R3]
    dh = [[dg[i][i][k] / (2 * h[i]) for k in R3] for i in R3]
    ddh = [[[ddg[i][i][k][l] / (2 * h[i]) - dg[i][i][k] * dg[i][i][l] / (4 * h[i] ** 3) for l in R3] for k in R3] for i in R3]
    Q = {}
    Q["xx_to_Cart"] = [J[m][(0, 0, 0)] for m in R3]
    Q["Jac_dUCart_dDrfmUD"], Q["Jac_dUrfm_dDCartUD"] = d1, inv
    Q["ghatDD"], Q["ghatDDdD"], Q["ghatDDdDD"] = g, dg, ddg
    Q["ghatUU"] = [[ginv[i, j] for j in R3] for i in R3]
    Q["detgammahat"], Q["detgammahatdD"], Q["detgammahatdDD"] = det, ddet, dddet
    Q["GammahatUDD"], Q["GammahatUDDdD"] = G, dG
    Q["scalefactor_orthog"] = h
    Q["ReD"], Q["ReDdD"], Q["ReDdDD"] = h, dh, ddh
    Q["ReU"] = [1 / h[i] for i in R3]
    Q["ReUdD"] = [[-dh[i][k] / h[i] ** 2 for k in R3] for i in R3]
    Q["ReUdDD"] = [[[-ddh[i][k][l] / h[i] ** 2 + 2 * dh[i][k] * dh[i][l] / h[i] ** 3 for l in R3] for k in R3] for i in R3]
    Q["ReDD"] = [[h[i] * h[j] for j in R3] for i in R3]
    Q["ReDDdD"] = [[[dh[i][k] * h[j] + h[i] * dh[j][k] for k in R3] for j in R3] for i in R3]
    Q["ReDDdDD"] = [[[[ddh[i][k][l] * h[j] + dh[i][k] * dh[j][l] + dh[i][l] * dh[j][k] + h[i] * ddh[j][k][l] for l in R3] for k in R3] for j in R3] for i in R3]
    Q["UnitVectors"] = [[d1[m][i] / h[i] for m in R3] for i in R3]
    # spherical coordinates of the point (wedges: in the wedge's own, unrotated frame)
    if "Wedge" in cs:
        un = geometry_frame(F, cs)
        JS = [jets(f, q, 1) for f in un]
        x = [JS[m][(0, 0, 0)] for m in R3]
        dx = [[JS[m][idx(i)] for i in R3] for m in R3]
    else:
        x, dx = Q["xx_to_Cart"], d1
    r = mp.sqrt(x[0] ** 2 + x[1] ** 2 + x[2] ** 2)
    rho = mp.sqrt(x[0] ** 2 + x[1] ** 2)
    Q["xxSph"] = [r, mp.acos(x[2] / r), mp.atan2(x[1], x[0])]
    dr = [sum(x[m] * dx[m][i] for m in R3) / r for i in R3]
    drho = [(x[0] * dx[0][i] + x[1] * dx[1][i]) / rho for i in R3]
    dth = [(x[2] * drho[i] - rho * dx[2][i]) / r**2 for i in R3]
    dph = [(x[0] * dx[1][i] - x[1] * dx[0][i]) / rho**2 for i in R3]
    Q["Jac_dUSph_dDrfmUD"] = [dr, dth, dph]
    S = mp.matrix([dr, dth, dph]) ** -1
    Q["Jac_dUrfm_dDSphUD"] = [[S[i, j] for j in R3] for i in R3]
    return Q


def geometry_frame(F, cs):
    if cs == "UWedgeHSinhSph":  # x_new=-z, y_new=y, z_new=x
        return [F[2], F[1], lambda a, b, c: -F[0](a, b, c)]
    return [lambda a, b, c: -F[2](a, b, c), F[1], F[0]]


def flat(x, pre=()):
    if isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            yield from flat(y, pre + (i,))
    else:
        yield pre, x


def rand_point(cs, r):
    u = lambda a, b: mp.mpf(r.uniform(a, b))
    p = dict(AMPLXYZ=u(1, 20), SINHWXYZ=u(.15, 2), AMPL=u(1, 20), SINHW=u(.15, 2), r_slope=u(.1, 3), rho_slope=u(.1, 3), z_slope=u(.1, 3), AMPLRHO=u(1, 20), SINHWRHO=u(.15, 2),
             AMPLZ=u(1, 20), SINHWZ=u(.15, 2), AMAX=u(1, 20), SINHWAA=u(.15, 2), bScale=u(.1, 3), RMIN=u(.1, .9), RMAX=u(1, 20))
    if "Cartesian" in cs:
        q = [u(-1, 1) for _ in R3]
    elif "Cyl" in cs:
        q = [u(.02, 1), u(-3.1, 3.1), u(-1, 1)]
        if abs(q[2]) < .02:
            q[2] = mp.mpf(.02)
    elif "Wedge" in cs or "Ring" in cs:
        q = [u(.05, 1), u(.8, 2.3), u(-.78, .78)]
    else:
        q = [u(.02, 1), u(.05, 3.09), u(-3.1, 3.1)]
    return q, p
