import functools
import math

from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, near, equal


def fl(lo, hi):
    return st.floats(min_value=lo, max_value=hi, allow_nan=False, allow_infinity=False)


def logf(lo, hi):
    return fl(math.log10(lo), math.log10(hi)).map(lambda x: float(f'{10 ** x:.4g}'))


@functools.lru_cache(maxsize=None)
def bessel(n, x):
    """J_n(x) by its integral representation (trapezoidal, spectrally accurate)"""
    m = 400
    return sum(math.cos(n * t - x * math.sin(t)) for t in (2 * math.pi * i / m for i in range(m))) / m


def L(x, x0, g, a=1.0):
    return a / (1 + (2 * (x - x0) / g) ** 2)


def G(x, x0, s, a=1.0):
    return a * math.exp(-0.5 * ((x - x0) / s) ** 2)


def modL(x, x0, g, a, depth, n, f):
    return a * sum(bessel(i, depth) ** 2 * L(x, x0 + i * f, g) for i in range(-n, n + 1))


def func_cases():
    return st.fixed_dictionaries({
        'x0': st.sampled_from([0.0]) | fl(-1000, 1000).map(lambda x: round(x, 3)), 'w': logf(1e-3, 1e3), 'a': logf(1e-3, 1e3),
        'd': st.lists(fl(0, 5).map(lambda x: round(x, 4)), min_size=1, max_size=6),
        'depth': st.just(0.0) | fl(0, 6).map(lambda x: round(x, 3)) | fl(6, 14).map(lambda x: round(x, 3)), 'n': st.none() | st.integers(0, 12), 'f': logf(0.01, 50),
        'arr': st.booleans()})


def check_func(case):
    import numpy as np
    from atomtoolkit.render import lineshapes as ls
    x0, w, a, depth, n, f = (case[k] for k in ('x0', 'w', 'a', 'depth', 'n', 'f'))
    eps = 1e-9 * a + 1e-12
    rt = 1e-7  # differences x - x0 lose digits when |x0| is much larger than the width
    near(ls.lorentzian(x0, x0, w, a), a, 'Lorentzian at its center', eps)
    near(ls.gaussian(x0, x0, w, a), a, 'Gaussian at its center', eps)
    for s in (1, -1):
        near(ls.lorentzian(x0 + s * w / 2, x0, w, a), a / 2, 'Lorentzian at half its width away', eps, rt)
        near(ls.gaussian(x0 + s * w, x0, w, a), a * math.exp(-0.5), 'Gaussian one sigma away', eps, rt)
    near(ls.lorentzian(x0, x0, w), 1, 'Lorentzian of default amplitude', 1e-12)
    near(ls.gaussian(x0, x0, w), 1, 'Gaussian of default amplitude', 1e-12)
    xs = [x0 + s * d * w for d in case['d'] for s in (1, -1)]
    X = np.array(xs) if case['arr'] else None

    def values(fn):
        v = list(fn(X)) if case['arr'] else [fn(x) for x in xs]
        equal(len(v), len(xs), 'number of values')
        return [float(y) for y in v]

    for name, fn, want in (('lorentzian', lambda x: ls.lorentzian(x, x0, w, a), lambda x: L(x, x0, w, a)),
                           ('gaussian', lambda x: ls.gaussian(x, x0, w, a), lambda x: G(x, x0, w, a))):
        v = values(fn)
        for i, (x, y) in enumerate(zip(xs, v)):
            near(y, want(x), f'{name} at {x}', eps, 1e-6)
            need(y > 0, f'{name} is not positive')
        for i in range(0, len(v), 2):
            near(v[i], v[i + 1], f'{name} is not even about its center', eps, 1e-6)
    fw = f * w
    v = values(lambda x: ls.mod_lorentzian(x, x0, w, a, depth=depth, num_sidebands=n, mod_freq_GHz=fw))
    w1 = values(lambda x: ls.mod_lorentzian(x, x0, w, depth=depth, num_sidebands=n, mod_freq_GHz=fw))
    for i, (x, y) in enumerate(zip(xs, v)):
        N = 14 + int(depth) if n is None else n
        near(y, modL(x, x0, w, a, depth, N, fw), f'modulated Lorentzian at {x}', (2e-3 if n is None else 1e-7) * a + eps, 1e-6)
        near(y, a * w1[i], 'modulated Lorentzian is proportional to its amplitude', eps, 1e-9)
    for i in range(0, len(v), 2):
        near(v[i], v[i + 1], 'modulated Lorentzian is not even', eps, 1e-6)
    if depth == 0:
        for x, y in zip(xs, v):
            near(y, L(x, x0, w, a), 'unmodulated', eps, 1e-6)
    d = default = ls.ModLorentzianLineShape(w, depth, fw).num_sidebands
    need(default >= depth, f'{d} sidebands for depth {depth}')
    # the sidebands that are drawn by default carry nearly all of the intensity, in either form
    need(sum(bessel(i, depth) ** 2 for i in range(-d, d + 1)) > 0.97, f'{d} sidebands for depth {depth}')
    o, xs1 = ls.ModLorentzianLineShape(w, depth, fw), np.array(xs + [x0 + i * fw for i in range(-12, 13)])
    for x, y, z in zip(xs1, o.shape_func(xs1, x0), ls.mod_lorentzian(xs1, x0, w, depth=depth, mod_freq_GHz=fw)):
        near(y, modL(x, x0, w, 1.0, depth, d, fw), f'modulated lineshape with the default sidebands at {x}', 1e-7, 1e-6)
        near(z, modL(x, x0, w, 1.0, depth, 14 + int(depth), fw), f'modulated Lorentzian with the default sidebands at {x}', 2e-3)
        near(y, z, f'modulated Lorentzian as an object and as a function at {x}', 1e-6)
    return (['mod'] if depth and n != 0 else []) + (['trivial'] if not any(case['d']) else [])


def check_voigt(x0, s, gamma, ls):
    """the convolution of a Gaussian and a Lorentzian, from the Faddeeva function;
    gamma may stand for the full or the half width, and the profile may have unit area or unit height"""
    from scipy.special import wofz
    w = max(s, gamma)
    xs = [k * w * 0.37 for k in range(-8, 9)]
    got = [float(ls.voigt(x0 + x, x0, s, gamma, 2.5)) for x in xs]
    one = [float(ls.voigt(x0 + x, x0, sigma=s, gamma=gamma)) for x in xs]
    why = []
    for hw in (gamma, gamma / 2):
        raw = [wofz((x + 1j * hw) / (s * math.sqrt(2))).real for x in xs]
        for n in (s * math.sqrt(2 * math.pi), wofz(1j * hw / (s * math.sqrt(2))).real):
            why.append(max(abs(g * n / (2.5 * v) - 1) for g, v in zip(got, raw)))
    need(min(why) < 1e-4 + 1e-11 * x0 / min(s, gamma), f'not the Voigt profile of {s} and {gamma}: {why}')
    for g, o in zip(got, one):
        near(g / o, 2.5, 'Voigt profile is not proportional to its amplitude', 1e-9)


def shape_cases():
    return st.fixed_dictionaries({
        'kind': st.sampled_from(['lorentzian', 'modlorentzian', 'gaussian', 'thermal gaussian', 'thermal']),
        'x0': fl(1, 2000).map(lambda x: round(x, 3)), 'x1': st.sampled_from([1.0001, 0.999, 1.02, 0.9, 1.5, 3.0]), 'w': logf(1e-3, 1e3), 'a': st.none() | logf(1e-3, 1e3) | st.just(0.0),
        'A': st.none() | logf(1e-3, 1e3), 'n': st.one_of(*[st.integers(2, 201)] * 9, st.sampled_from([1000, 2500, 3001])), 'pad': st.none() | fl(0.5, 40).map(lambda x: round(x, 2)),
        'T': st.integers(1, 10 ** 7), 'Tu': st.sampled_from(['K', 'mK', 'uK']), 'm': st.integers(1, 300),
        'mu': st.sampled_from(['amu', 'kg', 'g']), 'depth': fl(0, 4).map(lambda x: round(x, 3)), 'f': logf(0.01, 50),
        'nsb': st.none() | st.integers(0, 8), 'ratio': logf(0.001, 1000)})


def check_shape(case):
    import numpy as np
    from atomtoolkit import Q_
    from atomtoolkit.render import lineshapes as ls
    kind, x0, w, n = case['kind'], case['x0'], case['w'], case['n']
    a = 1.0 if case['a'] is None else case['a']
    kw = {} if case['a'] is None else {'ampl': case['a']}
    T = case['T'] * {'K': 1, 'mK': 1e-3, 'uK': 1e-6}[case['Tu']]
    m = case['m'] * 1.66053906660e-27
    mq = {'amu': Q_(float(case['m']), 'amu'), 'kg': Q_(m, 'kg'), 'g': Q_(m * 1e3, 'g')}[case['mu']]
    sig = math.sqrt(ref.K_B * T / m) / ref.C_LIGHT
    Tq = Q_(float(case['T']), case['Tu'])
    gamma = None
    if kind == 'lorentzian':
        o = ls.LorentzianLineShape(w)
        near(o.fwhm, w, 'fwhm')
        if case['A'] is not None:
            kw['A_coeff'] = case['A']
        g = w + (case['A'] or 0.0)
        want = lambda x: L(x, x0, g, a)
        width = g
    elif kind == 'modlorentzian':
        o = ls.ModLorentzianLineShape(w, case['depth'], case['f'] * w, num_sidebands=case['nsb'])
        N = o.num_sidebands if case['nsb'] is None else case['nsb']
        wm = w
        if case['A'] is not None:  # an A coefficient in rad/s, broadens all sidebands alike
            kw['A_coeff'] = case['A'] * 1e6 * 2 * math.pi
            wm = w + case['A']
        want = lambda x: modL(x, x0, wm, a, case['depth'], N, case['f'] * w)
        width = None
    elif kind == 'gaussian':
        o = ls.GaussianLineShape(w)
        near(o.fwhm / w, 2 * math.sqrt(2 * math.log(2)), 'fwhm', 1e-3)
        want = lambda x: G(x, x0, w, a)
        width = w
    elif kind == 'thermal gaussian':
        o = ls.ThermalGaussianLineShape(Tq, mq)
        near(o.sigma / sig, 1, 'Doppler width', 1e-6)
        near(o.fwhm / sig, 2 * math.sqrt(2 * math.log(2)), 'fwhm', 1e-3)
        s = sig * x0
        want = lambda x: G(x, x0, s, a)
        width = s
    else:
        s = sig * x0
        gamma = s * case['ratio']
        o = ls.ThermalLineShape(Tq, mq, gamma)
        near(o.sigma / sig, 1, 'Doppler width', 1e-6)
        width = max(s, gamma)
        want = None
        if case['ratio'] > 25.5:
            want = lambda x: L(x, x0, gamma, a)
        elif case['ratio'] < 1 / 25.5:
            want = lambda x: G(x, x0, s, a)
        elif 1 / 24.5 < case['ratio'] < 24.5:
            want = lambda x: float(ls.voigt(x, x0, s, gamma)) * a
            check_voigt(x0, s, gamma, ls)
    if case['pad'] is not None:
        kw['padding'] = case['pad']
    pad = 20.0 if case['pad'] is None else case['pad']
    x, y = o.compute(x0, n, **kw)
    equal((len(x), len(y)), (n, n), 'number of points')
    half = float(x[-1] - x0)
    if kind == 'modlorentzian':
        need(half >= case['f'] * w * N, 'the grid leaves out the outer sidebands')
    else:
        near(half / width, pad, 'half width of the grid', 1e-15 * x0 / width, 1e-6)
    for i in range(n):
        near(x[i], x0 + half * (2 * i / (n - 1) - 1), 'grid', 1e-9 * half + 1e-12 * x0)
    kw.pop('padding', None)
    xs0, direct = x, o.shape_func(x, x0, **kw)
    tol = 1e-6 * a
    rt = 1e-5 + 1e-11 * abs(x0) / half
    for i in range(0, n, max(1, n // 12)):
        near(y[i], direct[i], 'value on the grid', 1e-12 * a, 1e-12)
        if want is not None:
            near(y[i], want(float(x[i])), f'{kind} at grid point {i}', tol * (1 if gamma is None else 1 / (s + gamma) if s < 25 * gamma and gamma < 25 * s else 1), rt * 100 if half < 1e-6 * x0 else 1e-5)
        need(y[i] >= 0, 'negative value')
        near(y[i], y[n - 1 - i], 'not even', tol, 1e-3 if half < 1e-6 * x0 else 1e-5)
    if kind == 'thermal':  # falls off monotonically from the center, proportional to the amplitude
        for i in range(n // 2, n - 1):
            need(y[i + 1] <= y[i] * (1 + 1e-6), 'rises away from the center')
        one = o.shape_func(x, x0)
        for i in range(0, n, max(1, n // 12)):
            near(y[i], a * one[i], 'proportional to the amplitude', 1e-9 * a)
    if kind in ('lorentzian', 'gaussian', 'thermal gaussian', 'thermal'):  # the same object at another center
        x1 = x0 * case['x1']
        for d in (0.0, 0.3, -1.1):
            s1 = sig * x1
            if kind == 'lorentzian':
                x, v = x1 + d * g, L(d * g, 0, g, a)
            elif kind == 'gaussian':
                x, v = x1 + d * w, G(d * w, 0, w, a)
            elif kind == 'thermal gaussian':
                x, v = x1 + d * s1, G(d * s1, 0, s1, a)
            else:
                r1, wd = gamma / s1, max(s1, gamma)
                x = x1 + d * wd
                v = L(d * wd, 0, gamma, a) if r1 > 25.5 else G(d * wd, 0, s1, a) if r1 < 1 / 25.5 else float(ls.voigt(d * wd, 0, s1, gamma)) * a
                if 24.5 <= r1 <= 25.5 or 24.5 <= 1 / r1 <= 25.5:
                    continue
            near(float(o.shape_func(np.array([x]), x1, **kw)[0]), v, f'{kind} at another center', 1e-6 * a, 1e-5 + 1e-11 * x1 / (half / pad if width else half))
        again = o.shape_func(xs0, x0, **kw)
        for i in range(n):
            near(again[i], direct[i], 'value after another center', 1e-12 * a, 1e-12)
    xd, yd = o.compute(x0, **kw)
    equal(len(xd), 1000, 'default number of points')
    return [kind] + (['trivial'] if n < 3 else [])


SUBS = [Sub('functions', func_cases, check_func, quick=800, thorough=20000, rule='random parameters and offsets up to 5 widths; non-trivial: some offset is not 0'),
        Sub('shapes', shape_cases, check_shape, quick=1000, thorough=20000, rule='all five lineshape classes; non-trivial: at least 3 grid points')]
