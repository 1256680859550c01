"""Independent reference physics: exact-rational Wigner symbols, tensor-operator shifts, selection rules, term grammar."""
import functools
import math
from fractions import Fraction as Fr

LETTERS = 'SPDFGHIKLMNOQRTUVWXYZ'
C_LIGHT = 299792458.0
H_PLANCK = 6.62607015e-34
E_CHARGE = 1.602176634e-19
K_B = 1.380649e-23
EPS0 = 8.8541878128e-12
MU_B_HZ_G = 1.39962449361e6


def half(x):
    """number or fraction string -> twice the number, as an int"""
    if isinstance(x, str):
        x = Fr(x)
    d = Fr(x).limit_denominator(4) * 2
    assert d.denominator == 1, x
    return int(d)


def frac(x):
    """canonical fraction string of a half-integer"""
    d = half(x)
    return str(d // 2) if d % 2 == 0 else f'{d}/2'


def jrange(a, b):
    """|a-b|, ..., a+b as floats"""
    a2, b2 = half(a), half(b)
    return [x / 2 for x in range(abs(a2 - b2), a2 + b2 + 1, 2)]


def mrange(j):
    return [x / 2 for x in range(-half(j), half(j) + 1, 2)]


f = math.factorial


def _tri(a, b, c):  # doubled arguments
    return (a + b + c) % 2 == 0 and abs(a - b) <= c <= a + b


def _delta(a, b, c):
    return Fr(f((a + b - c) // 2) * f((a - b + c) // 2) * f((-a + b + c) // 2), f((a + b + c) // 2 + 1))


def _sqrt(fr):
    n, d = fr.numerator, fr.denominator
    g = 2 ** (120 + d.bit_length() // 2)
    return math.isqrt(n * g * g // d) / g if fr > 0 else 0.0


@functools.lru_cache(maxsize=None)
def _w3j(j1, j2, j3, m1, m2, m3):
    if min(j1, j2, j3) < 0 or m1 + m2 + m3 != 0 or not _tri(j1, j2, j3):
        return 0.0
    for j, m in ((j1, m1), (j2, m2), (j3, m3)):
        if abs(m) > j or (j - m) % 2:
            return 0.0
    pref = _delta(j1, j2, j3)
    for j, m in ((j1, m1), (j2, m2), (j3, m3)):
        pref *= f((j + m) // 2) * f((j - m) // 2)
    s = Fr(0)
    for t in range(0, (j1 + j2 - j3) // 2 + 1):
        args = [t, (j3 - j2 + m1) // 2 + t, (j3 - j1 - m2) // 2 + t, (j1 + j2 - j3) // 2 - t, (j1 - m1) // 2 - t, (j2 + m2) // 2 - t]
        if min(args) < 0:
            continue
        d = 1
        for x in args:
            d *= f(x)
        s += Fr((-1) ** t, d)
    return (-1) ** ((j1 - j2 - m3) // 2) * float(s) * _sqrt(pref)


def w3j(*args):
    return _w3j(*map(half, args))


@functools.lru_cache(maxsize=None)
def _w6j(a, b, c, d, e, g):
    if min(a, b, c, d, e, g) < 0 or not (_tri(a, b, c) and _tri(a, e, g) and _tri(d, b, g) and _tri(d, e, c)):
        return 0.0
    pref = _delta(a, b, c) * _delta(a, e, g) * _delta(d, b, g) * _delta(d, e, c)
    s = Fr(0)
    lo = max(a + b + c, a + e + g, d + b + g, d + e + c) // 2
    hi = min(a + b + d + e, b + c + e + g, c + a + g + d) // 2
    for t in range(lo, hi + 1):
        den = 1
        for x in (a + b + c, a + e + g, d + b + g, d + e + c):
            den *= f(t - x // 2)
        for x in (a + b + d + e, b + c + e + g, c + a + g + d):
            den *= f(x // 2 - t)
        s += Fr((-1) ** t * f(t + 1), den)
    return float(s) * _sqrt(pref)


def w6j(*args):
    return _w6j(*map(half, args))


@functools.lru_cache(maxsize=None)
def _w9j(a, b, c, d, e, g, h, i, j):
    if min(a, b, c, d, e, g, h, i, j) < 0:
        return 0.0
    for t in ((a, b, c), (d, e, g), (h, i, j), (a, d, h), (b, e, i), (c, g, j)):
        if not _tri(*t):
            return 0.0
    tot = 0.0
    for x in range(max(abs(a - j), abs(d - i), abs(b - g)), min(a + j, d + i, b + g) + 1):
        tot += (-1) ** x * (x + 1) * _w6j(a, b, c, g, j, x) * _w6j(d, e, g, b, x, i) * _w6j(h, i, j, x, a, d)
    return tot


def w9j(*args):
    return _w9j(*map(half, args))


def cg(j1, m1, j2, m2, j, m):
    if half(m1) + half(m2) != half(m):
        return 0.0
    return (-1) ** ((half(j1) - half(j2) + half(m)) // 2) * math.sqrt(half(j) + 1) * w3j(j1, j2, j, m1, m2, -m)


def rank_ok(j0, j1, k):
    """can a rank-k operator connect j0 and j1?"""
    return _tri(half(j0), half(j1), 2 * k)


def allowed_fine(j0, p0, j1, p1, same=False):
    """(E1, M1, E2)"""
    return (rank_ok(j0, j1, 1) and p0 != p1, rank_ok(j0, j1, 1) and p0 == p1, rank_ok(j0, j1, 2) and p0 == p1 and not same)


def multipole_shift(k, I, J, F, stretched):
    """energy of a scalar product of rank-k tensors of I and J in |IJF>, scaled to its value in the stretched state"""
    def x(F_):
        return (-1) ** ((half(J) + half(I) + half(F_)) // 2) * w6j(J, I, F_, I, J, k)
    if half(J) < k or half(I) < k:  # no rank-k moment
        return 0.0
    return stretched * x(F) / x(I + J)


def hf_shift(I, J, F, A, B, C):
    return multipole_shift(1, I, J, F, A * I * J) + multipole_shift(2, I, J, F, B / 4) + multipole_shift(3, I, J, F, C)


def g_F(gJ, I, J, F):
    if F == 0:
        return 0.0
    return gJ * (F * (F + 1) + J * (J + 1) - I * (I + 1)) / (2 * F * (F + 1))


def g_LS(J, L, S):
    return 1 + 1.0023 * (J * (J + 1) + S * (S + 1) - L * (L + 1)) / (2 * J * (J + 1))


def hf_strength(I, J1, F1, J2, F2, k):
    return (2 * F1 + 1) * (2 * F2 + 1) * w6j(J1, F1, I, F2, J2, k) ** 2


def z_strength(F1, m1, F2, m2, k):
    return sum(w3j(F1, k, F2, -m1, q, m2) ** 2 for q in range(-k, k + 1))


# --- recoupling amplitudes, by summing products of Clebsch-Gordan coefficients over magnetic quantum numbers ---

def couple(j1, v1, j2, v2, j, m):
    """couples two families of states {m: {basis: ampl}} to total (j, m)"""
    out = {}
    for m1 in mrange(j1):
        m2 = m - m1
        if abs(m2) > j2:
            continue
        c = cg(j1, m1, j2, m2, j, m)
        if c == 0:
            continue
        for b1, a1 in v1[m1].items():
            for b2, a2 in v2[m2].items():
                key = tuple(sorted(b1 + b2))
                out[key] = out.get(key, 0.0) + c * a1 * a2
    return out


def elementary(name, j):
    return {m: {((name, m),): 1.0} for m in mrange(j)}


def family(j1, v1, j2, v2, j):
    return {m: couple(j1, v1, j2, v2, j, m) for m in mrange(j)}


def dot(a, b):
    return sum(x * b.get(k, 0.0) for k, x in a.items())


def _vec_LS(lc, sc, lo, so, L, S, J):
    e = {n: elementary(n, j) for n, j in (('lc', lc), ('sc', sc), ('lo', lo), ('so', so))}
    vL = family(lc, e['lc'], lo, e['lo'], L)
    vS = family(sc, e['sc'], so, e['so'], S)
    return couple(L, vL, S, vS, J, J)


def _ls_list(lc, sc, lo, so, J):
    return [(L, S) for L in jrange(lc, lo) for S in jrange(sc, so) if _tri(half(L), half(S), half(J))]


@functools.lru_cache(maxsize=None)
def composition(kind, J, *args):
    """{(L, S): squared amplitude} of a JJ (Jc,Jo,lc,sc,lo,so), JK (Jc,K,lc,sc,lo,so) or LK (L,K,sc,so) state"""
    if kind == 'LK':
        L, K, sc, so = args
        e = {n: elementary(n, j) for n, j in (('L', L), ('sc', sc), ('so', so))}
        v = couple(K, family(L, e['L'], sc, e['sc'], K), so, e['so'], J, J)
        out = {}
        for S in jrange(sc, so):
            if _tri(half(L), half(S), half(J)):
                w = couple(L, e['L'], S, family(sc, e['sc'], so, e['so'], S), J, J)
                out[(L, S)] = dot(v, w) ** 2
        return out
    Jc, x, lc, sc, lo, so = args
    e = {n: elementary(n, j) for n, j in (('lc', lc), ('sc', sc), ('lo', lo), ('so', so))}
    core = family(lc, e['lc'], sc, e['sc'], Jc)
    if kind == 'JJ':
        v = couple(Jc, core, x, family(lo, e['lo'], so, e['so'], x), J, J)
    else:
        v = couple(x, family(Jc, core, lo, e['lo'], x), so, e['so'], J, J)
    return {(L, S): dot(v, _vec_LS(lc, sc, lo, so, L, S, J)) ** 2 for L, S in _ls_list(lc, sc, lo, so, J)}


def to_hz(value, unit):
    """spectroscopic value -> Hz, independent of pint"""
    scale = {'Hz': 1.0, 'kHz': 1e3, 'MHz': 1e6, 'GHz': 1e9, 'THz': 1e12}
    if unit in scale:
        return value * scale[unit]
    if unit == 'cm**-1':
        return value * 100 * C_LIGHT
    if unit == 'nm':
        return C_LIGHT / (value * 1e-9)
    if unit == 'um':
        return C_LIGHT / (value * 1e-6)
    if unit == 'eV':
        return value * E_CHARGE / H_PLANCK
    if unit == 'J':
        return value / H_PLANCK
    raise KeyError(unit)


def from_hz(hz, unit):
    scale = {'Hz': 1.0, 'kHz': 1e3, 'MHz': 1e6, 'GHz': 1e9, 'THz': 1e12}
    if unit in scale:
        return hz / scale[unit]
    if unit == 'cm**-1':
        return hz / (100 * C_LIGHT)
    if unit == 'nm':
        return C_LIGHT / hz * 1e9
    if unit == 'um':
        return C_LIGHT / hz * 1e6
    if unit == 'eV':
        return hz * H_PLANCK / E_CHARGE
    if unit == 'J':
        return hz * H_PLANCK
    raise KeyError(unit)


FREQ_UNITS = ['Hz', 'MHz', 'GHz', 'THz', 'cm**-1', 'nm', 'um', 'eV']
