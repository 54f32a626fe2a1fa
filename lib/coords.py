"""Independent (textbook) coordinate maps, written from the documented definitions of each
coordinate system, never read from nrpy.reference_metric.  Works on complex arguments so that
Jacobians can be taken by the complex step."""
import cmath
import math

ALL = [
    "Cartesian", "SinhCartesian", "Spherical", "SinhSpherical", "SinhSphericalv2n2", "SinhSphericalv2n4",
    "HoleySinhSpherical", "RingHoleySinhSpherical", "UWedgeHSinhSph", "LWedgeHSinhSph", "SymTP", "SinhSymTP",
    "Cylindrical", "SinhCylindrical", "SinhCylindricalv2n2", "SinhCylindricalv2n4",
]
NO_INVERSE = {c for c in ALL if "v2n" in c}
PI = math.pi


def family(cs):
    if cs.endswith("Cartesian"):
        return "cart"
    if "Wedge" in cs:
        return "wedge"
    if "SymTP" in cs:
        return "symtp"
    if "Cyl" in cs:
        return "cyl"
    return "sph"


def sinh1(x, A, w):
    return A * cmath.sinh(x / w) / math.sinh(1 / w)


def dsinh1(x, A, w):
    return A * cmath.cosh(x / w) / (w * math.sinh(1 / w))


def sinh2(x, A, w, s, n):
    return (A - s) * x**n * cmath.sinh(x / w) / math.sinh(1 / w) + s * x


def dsinh2(x, A, w, s, n):
    return (A - s) * (n * x ** (n - 1) * cmath.sinh(x / w) + x**n * cmath.cosh(x / w) / w) / math.sinh(1 / w) + s


def radial(cs, x, p):
    """(f(x0), f'(x0)) of the radial-like coordinate."""
    if cs == "Spherical" or cs == "SymTP" or cs == "Cylindrical":
        return x, 1.0
    if "v2n" in cs:
        n = int(cs.split("v2n")[1])
        if "Cyl" in cs:
            a = (p["AMPLRHO"], p["SINHWRHO"], p["rho_slope"], n)
        else:
            a = (p["AMPL"], p["SINHW"], p["r_slope"], n)
        return sinh2(x, *a), dsinh2(x, *a)
    if "Cyl" in cs:
        return sinh1(x, p["AMPLRHO"], p["SINHWRHO"]), dsinh1(x, p["AMPLRHO"], p["SINHWRHO"])
    if "SymTP" in cs:
        return sinh1(x, p["AMAX"], p["SINHWAA"]), dsinh1(x, p["AMAX"], p["SINHWAA"])
    return sinh1(x, p["AMPL"], p["SINHW"]), dsinh1(x, p["AMPL"], p["SINHW"])


def zed(cs, x, p):
    if cs == "Cylindrical":
        return x, 1.0
    if "v2n" in cs:
        a = (p["AMPLZ"], p["SINHWZ"], p["z_slope"], int(cs.split("v2n")[1]))
        return sinh2(x, *a), dsinh2(x, *a)
    return sinh1(x, p["AMPLZ"], p["SINHWZ"]), dsinh1(x, p["AMPLZ"], p["SINHWZ"])


def cart(cs, x, p):
    f = family(cs)
    if f == "cart":
        if cs == "Cartesian":
            return list(x)
        return [sinh1(v, p["AMPLXYZ"], p["SINHWXYZ"]) for v in x]
    r = radial(cs, x[0], p)[0]
    if f == "cyl":
        return [r * cmath.cos(x[1]), r * cmath.sin(x[1]), zed(cs, x[2], p)[0]]
    st, ct = cmath.sin(x[1]), cmath.cos(x[1])
    sp_, cp = cmath.sin(x[2]), cmath.cos(x[2])
    if f == "symtp":
        return [r * st * cp, r * st * sp_, cmath.sqrt(r * r + p["bScale"] ** 2) * ct]
    X, Y, Z = r * st * cp, r * st * sp_, r * ct
    if cs == "UWedgeHSinhSph":  # rotate: x_new=-z_old, y_new=y_old, z_new=x_old
        return [-Z, Y, X]
    if cs == "LWedgeHSinhSph":  # x_new=z_old, y_new=y_old, z_new=-x_old
        return [Z, Y, -X]
    return [X, Y, Z]


def cartr(cs, x, p):
    return [v.real if isinstance(v, complex) else v for v in cart(cs, x, p)]


def scale(cs, x, p):
    f = family(cs)
    re = lambda v: v.real if isinstance(v, complex) else v
    if f == "cart":
        if cs == "Cartesian":
            return [1.0, 1.0, 1.0]
        return [re(dsinh1(v, p["AMPLXYZ"], p["SINHWXYZ"])) for v in x]
    r, dr = map(re, radial(cs, x[0], p))
    if f == "cyl":
        return [dr, r, re(zed(cs, x[2], p)[1])]
    if f == "symtp":
        v1 = math.sqrt(r * r + (p["bScale"] * math.sin(x[1])) ** 2)
        v2 = math.sqrt(r * r + p["bScale"] ** 2)
        return [dr * v1 / v2, v1, r * math.sin(x[1])]
    return [dr, r, r * math.sin(x[1])]


def scalec(cs, x, p):
    """scale factors for complex x (for complex-step derivatives)."""
    f = family(cs)
    if f == "cart":
        if cs == "Cartesian":
            return [1.0, 1.0, 1.0]
        return [dsinh1(v, p["AMPLXYZ"], p["SINHWXYZ"]) for v in x]
    r, dr = radial(cs, x[0], p)
    if f == "cyl":
        return [dr, r, zed(cs, x[2], p)[1]]
    if f == "symtp":
        v1 = cmath.sqrt(r * r + (p["bScale"] * cmath.sin(x[1])) ** 2)
        v2 = cmath.sqrt(r * r + p["bScale"] ** 2)
        return [dr * v1 / v2, v1, r * cmath.sin(x[1])]
    return [dr, r, r * cmath.sin(x[1])]


def hatted(cs, x, p):
    """Reference-metric quantities from the scale factors alone (diagonal metric)."""
    h = scale(cs, x, p)
    dh = [[0.0] * 3 for _ in range(3)]  # dh[i][k] = d h_i / dx^k
    e = 1e-30
    for k in range(3):
        z = [complex(v) for v in x]
        z[k] += 1j * e
        H = scalec(cs, z, p)
        for i in range(3):
            dh[i][k] = complex(H[i]).imag / e
    out = {}
    det = (h[0] * h[1] * h[2]) ** 2
    out["detgammahat"] = det
    dg = lambda i, j, k: 2 * h[i] * dh[i][k] if i == j else 0.0
    for i in range(3):
        out[f"ReU{i}"] = 1 / h[i]
        out[f"ReD{i}"] = h[i]
        out[f"detgammahatdD{i}"] = 2 * det * sum(dh[a][i] / h[a] for a in range(3))
        for j in range(3):
            out[f"ReDD{i}{j}"] = h[i] * h[j]
            out[f"ghatDD{i}{j}"] = h[i] ** 2 if i == j else 0.0
            out[f"ghatUU{i}{j}"] = 1 / h[i] ** 2 if i == j else 0.0
            out[f"ReUdD{i}{j}"] = -dh[i][j] / h[i] ** 2
            out[f"ReDdD{i}{j}"] = dh[i][j]
            for k in range(3):
                out[f"ReDDdD{i}{j}{k}"] = dh[i][k] * h[j] + h[i] * dh[j][k]
                out[f"ghatDDdD{i}{j}{k}"] = dg(i, j, k)
                out[f"GammahatUDD{i}{j}{k}"] = 0.5 / h[i] ** 2 * (dg(i, j, k) + dg(i, k, j) - dg(j, k, i))
    return out


def ranges(cs, p):
    """documented coordinate ranges (xxmin, xxmax) in terms of the physical size parameters."""
    f = family(cs)
    asinh = lambda R, A, w: w * math.asinh(R * math.sinh(1 / w) / A)
    if cs == "Cartesian":
        s = p["grid_physical_size"]
        return [-s] * 3, [s] * 3
    if cs == "SinhCartesian":
        return [-1.0] * 3, [1.0] * 3
    if f == "cyl":
        if cs == "Cylindrical":
            s = p["grid_physical_size"]
            return [0.0, -PI, -s], [s, PI, s]
        return [0.0, -PI, -1.0], [1.0, PI, 1.0]
    if cs in ("Spherical", "SymTP"):
        return [0.0, 0.0, -PI], [p["grid_physical_size"], PI, PI]
    if "Holey" in cs or "Wedge" in cs:
        lo = asinh(p["grid_hole_radius"], p["grid_physical_size"], p["SINHW"])
        if cs == "HoleySinhSpherical":
            return [lo, 0.0, -PI], [1.0, PI, PI]
        if cs == "RingHoleySinhSpherical":
            return [lo, PI / 4, -PI], [1.0, 3 * PI / 4, PI]
        return [lo, PI / 4, -PI / 4], [1.0, 3 * PI / 4, PI / 4]
    return [0.0, 0.0, -PI], [1.0, PI, PI]


def size_params(cs, size):
    """what the rfm parameters must be for a given grid_physical_size."""
    return {
        "Cartesian": dict(xmin=-size, xmax=size, ymin=-size, ymax=size, zmin=-size, zmax=size),
        "SinhCartesian": dict(AMPLXYZ=size), "Spherical": dict(RMAX=size), "SymTP": dict(AMAX=size),
        "SinhSymTP": dict(AMAX=size), "Cylindrical": dict(RHOMAX=size, ZMIN=-size, ZMAX=size),
    }.get(cs, dict(AMPLRHO=size, AMPLZ=size) if "Cyl" in cs else dict(AMPL=size))


def jac(cs, x, p):
    """J[a][i] = dX^a/dx^i, complex step."""
    h = 1e-30
    J = [[0.0] * 3 for _ in range(3)]
    for i in range(3):
        z = [complex(v) for v in x]
        z[i] += 1j * h
        X = cart(cs, z, p)
        for a in range(3):
            J[a][i] = complex(X[a]).imag / h
    return J


def units(cs, x, p):
    """e[i][a]: orthonormal basis vectors dX/dx^i / h_i (signed scale factors)."""
    J, h = jac(cs, x, p), scale(cs, x, p)
    return [[J[a][i] / h[i] for a in range(3)] for i in range(3)]


def inv3(M):
    (a, b, c), (d, e, f), (g, h, i) = M
    det = a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g)
    return [
        [(e * i - f * h) / det, (c * h - b * i) / det, (b * f - c * e) / det],
        [(f * g - d * i) / det, (a * i - c * g) / det, (c * d - a * f) / det],
        [(d * h - e * g) / det, (b * g - a * h) / det, (a * e - b * d) / det],
    ]


def _wrap(phi):
    while phi >= PI:
        phi -= 2 * PI
    while phi < -PI:
        phi += 2 * PI
    return phi


def fold(cs, x):
    """Coordinates of the same physical point inside the coordinate ranges of the system."""
    f = family(cs)
    x0, x1, x2 = x
    if f in ("cart", "wedge"):
        return [x0, x1, x2]
    if f == "cyl":
        if x0 < 0:
            x0, x1 = -x0, x1 + PI
        return [x0, _wrap(x1), x2]
    if x0 < 0:
        if f == "symtp":
            x0, x2 = -x0, x2 + PI
        else:
            x0, x1, x2 = -x0, PI - x1, x2 + PI
    if x1 < 0:
        x1, x2 = -x1, x2 + PI
    elif x1 > PI:
        x1, x2 = 2 * PI - x1, x2 + PI
    return [x0, x1, _wrap(x2)]
