"""Spin-weighted spherical harmonics from their Wigner-d definition."""
import mpmath as mp


def sYlm(s, l, mm, th, ph):
    """from the spin-raising and -lowering operators: sYlm = (-1)^s sqrt((2l+1)/4pi) d^l_{m,-s}(th) e^{i m ph}, Wigner's sum"""
    if l < abs(s):
        return mp.mpc(0)
    f = mp.factorial
    a, b = mm, -s
    t = mp.mpf(0)
    for k in range(max(0, b - a), min(l + b, l - a) + 1):
        t += (-1) ** (a - b + k) / (f(l + b - k) * f(k) * f(a - b + k) * f(l - a - k)) * mp.cos(th / 2) ** (2 * l + b - a - 2 * k) * mp.sin(th / 2) ** (a - b + 2 * k)
    d = mp.sqrt(f(l + a) * f(l - a) * f(l + b) * f(l - b)) * t
    return (-1) ** s * mp.sqrt((2 * l + 1) / (4 * mp.pi)) * d * mp.exp(mp.mpc(0, 1) * mm * ph)
