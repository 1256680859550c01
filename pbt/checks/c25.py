import functools
import math
import warnings

from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, near
from ..ref import jrange, mrange


@functools.lru_cache(maxsize=None)
def icosahedral():
    """the 60 rotations of an icosahedron: averages over them are exact for tensors of rank up to 5"""
    import numpy as np
    g = (1 + 5 ** 0.5) / 2
    a = np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0]], float)
    b = np.array([[-1, 0, 0], [0, -1, 0], [0, 0, 1]], float)
    c = 0.5 * np.array([[1, -g, 1 / g], [g, 1 / g, -1], [1 / g, 1, g]])
    out = [np.eye(3)]
    todo = [np.eye(3)]
    while todo:
        m = todo.pop()
        for x in (a, b, c):
            n = m @ x
            if not any(np.allclose(n, o, atol=1e-9) for o in out):
                out.append(n)
                todo.append(n)
    assert len(out) == 60, len(out)
    return out


@st.composite
def lines(draw, rank=None):
    """I, J0, F0, M0, J1, F1, M1 of a pair of sublevels, mostly one that a rank-k operator connects"""
    k = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4])) if rank is None else rank
    I = draw(st.integers(0, 7)) / 2
    J0 = draw(st.integers(0, 7)) / 2
    js = [j for j in jrange(J0, k) if j <= 4.5]
    J1 = draw(st.sampled_from(js)) if draw(st.integers(0, 9)) and js else draw(st.integers(0, 3)) + J0 % 1
    F0 = draw(st.sampled_from(jrange(I, J0)))
    f1 = [f for f in jrange(I, J1) if ref.rank_ok(F0, f, k)] if draw(st.integers(0, 9)) else []
    F1 = draw(st.sampled_from(f1 or jrange(I, J1)))
    M0 = draw(st.sampled_from(mrange(F0)))
    m1 = [m for m in mrange(F1) if abs(m - M0) <= k] if draw(st.integers(0, 9)) else []
    M1 = draw(st.sampled_from(m1 or mrange(F1)))
    c = {'k': k, 'l': [I, J0, F0, M0, J1, F1, M1]}
    if rank is None and draw(st.integers(0, 19)) == 0:  # an F that I and J cannot form
        c['l'][draw(st.sampled_from([2, 5]))] = I + max(J0, J1) + 1
        c['bad'] = True
    return c


def expected(k, q, l):
    """the matrix element, from exact Wigner symbols"""
    I, J0, F0, M0, J1, F1, M1 = l
    return (math.sqrt((2 * F0 + 1) * (2 * F1 + 1)) * ref.w6j(J0, J1, k, F1, F0, I) * ref.w3j(F1, k, F0, -M1, q, M0))


def check_tensor(case):
    from atomtoolkit import transition_strengths as ts
    k, l = case['k'], case['l']
    I, J0, F0, M0, J1, F1, M1 = l
    hit = 0
    for q in range(-k, k + 1):
        want = expected(k, q, l)
        near(ts.tkq_mel(I, k, q, *l[1:]), want, f'matrix element q={q}', 1e-10)
        near(ts.tkq_transition_strength(I, k, q, *l[1:]), want ** 2, f'strength q={q}', 1e-10)
        hit += want != 0
    need(hit <= 1, 'a line has at most one q')
    if case.get('bad'):
        return ['impossible']
    tot = sum(ts.tkq_transition_strength(I, k, q, J0, F0, M0, J1, F, M)
              for F in jrange(I, J1) for M in mrange(F) for q in range(-k, k + 1) if M - M0 == q or case.get('all'))
    near(tot, 1 / (2 * J0 + 1) if ref.rank_ok(J0, J1, k) else 0, 'sum over all sublevels', 1e-9)
    return [f'k{k}'] + ([] if hit else ['trivial', 'zero'])


comp = st.integers(-1000, 1000).map(lambda x: x / 100)


@st.composite
def geom_cases(draw):
    kind = draw(st.sampled_from(['E1', 'M1', 'E2']))
    c = draw(lines(2 if kind == 'E2' else 1))
    v = [draw(comp) for _ in range(3)]
    w = [draw(comp) for _ in range(3)]
    for x in (v, w):
        if draw(st.integers(0, 3)) == 0:
            for i in draw(st.sampled_from([(0, 1), (0,), (1,), (2,), (0, 2), (1, 2)])):
                x[i] = 0.0
    if sum(x * x for x in v) < 0.01:
        v = [0.0, 0.0, 1.0]
    # w is made orthogonal to v
    n = sum(x * x for x in v)
    d = sum(x * y for x, y in zip(v, w)) / n
    w = [y - d * x for x, y in zip(v, w)]
    if sum(x * x for x in w) < 0.01:
        w = [-v[1], v[0], 0.0] if abs(v[0]) + abs(v[1]) > 0.1 else [1.0, 0.0, 0.0]
        d = sum(x * y for x, y in zip(v, w)) / n
        w = [y - d * x for x, y in zip(v, w)]
    near_unit = draw(st.sampled_from([None, None, 1.0, 1.0004, 0.9997, 1.000001]))
    if near_unit:  # vectors that are almost, but not quite, of length one
        v, w = ([x / math.sqrt(sum(y * y for y in u)) * near_unit for x in u] for u in (v, w))
    return {**c, 'kind': kind, 'eps': v, 'kv': w, 'scale': draw(st.sampled_from([0.001, 0.5, 3.0, 1e4])),
            'scale2': draw(st.sampled_from([0.25, 7.0, -1.0, 1e3])), 'phi': draw(st.integers(0, 628)) / 100,
            'im': [draw(comp) for _ in range(3)], 'as': draw(st.sampled_from(['array', 'list', 'tuple'])),
            'ints': [[draw(st.integers(-3, 3)) for _ in range(3)] for _ in range(2)], 'iso': draw(st.integers(0, 3)) == 0}


def norm(v):
    n = math.sqrt(sum(abs(x) ** 2 for x in v))
    return [x / n for x in v]


def weight(kind, q, e, kv):
    """squared magnitude of the component of the field that drives q"""
    e, kv = norm(e), norm(kv)
    if kind != 'E2':
        return e[2] ** 2 if q == 0 else (e[0] ** 2 + e[1] ** 2) / 2
    # traceless symmetric tensor of two orthogonal unit vectors, in the normalisation in which q=+-2 is (ex+iey)(kx+iky)
    T = [[e[i] * kv[j] + e[j] * kv[i] for j in range(3)] for i in range(3)]
    if q == 0:
        return T[2][2] ** 2 * 3 / 2
    if abs(q) == 1:
        return T[0][2] ** 2 + T[1][2] ** 2
    return ((T[0][0] - T[1][1]) / 2) ** 2 + T[0][1] ** 2


def check_geom(case):
    import numpy as np
    from atomtoolkit import transition_strengths as ts
    kind, l, k = case['kind'], case['l'], case['k']
    I = l[0]
    box = {'array': np.array, 'list': lambda x: x if isinstance(x, list) else x.tolist(),
           'tuple': lambda x: tuple(float(y) for y in x)}[case['as']]
    smel = getattr(ts, kind + '_mel_geom')
    sstr = getattr(ts, kind + '_transition_strength_geom')

    def args(e, kv):
        return (e, kv, I, *l[1:]) if kind == 'E2' else (e, I, *l[1:])

    e, kv = case['eps'], case['kv']
    q = l[6] - l[3]
    want = 0.0
    if abs(q) <= k:
        want = expected(k, int(q), l) ** 2 * weight(kind, int(q), e, kv)
    be, bk = np.array(e), np.array(kv)
    got = sstr(*args(box(e), box(kv)))
    near(got, want, f'{kind} strength', 1e-10)
    mel = smel(*args(box(e), box(kv)))
    near(abs(mel) ** 2, want, f'squared magnitude of the {kind} matrix element', 1e-10)
    for f, w in ((sstr, want), (lambda *a: abs(smel(*a)) ** 2, want)):
        near(f(*args(be * case['scale'], bk * case['scale2'])), w, 'after rescaling the vectors', 1e-10)
        c, s = math.cos(case['phi']), math.sin(case['phi'])
        R = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])
        near(f(*args(R @ be, R @ bk)), w, 'after a rotation about the axis', 1e-9)
    # vectors of whole numbers are as good as any
    ie = case['ints'][0]
    ik = np.cross(*case['ints']).tolist()
    if any(ie) and (any(ik) or kind != 'E2'):
        w = expected(k, int(q), l) ** 2 * weight(kind, int(q), ie, ik if any(ik) else [1, 0, 0]) if abs(q) <= k else 0.0
        for b in (list, np.array, lambda x: np.array(x, dtype=float)):
            ve, vk = b(ie), b(ik)
            near(sstr(*args(ve, vk)), w, f'{kind} strength for vectors {ie}, {ik}', 1e-10)
            near(abs(smel(*args(ve, vk))) ** 2, w, f'{kind} matrix element for vectors {ie}, {ik}', 1e-10)
            need(list(ve) == ie and list(vk) == ik, 'the vectors were changed')
    if kind != 'E2':
        # complex polarizations drive q with the component (ex -+ i ey)/sqrt(2) or ez
        z = [complex(a, b) for a, b in zip(e, case['im'])]
        u = norm(z)
        c = {0: abs(u[2]), 1: abs(u[0] - 1j * u[1]) / 2 ** 0.5, -1: abs(u[0] + 1j * u[1]) / 2 ** 0.5}.get(int(q), 0.0)
        near(abs(smel(*args(np.array(z), None))), abs(expected(1, int(q), l)) * c if abs(q) <= 1 else 0.0,
             f'{kind} matrix element for complex polarization', 1e-10)
    # the matrix element times the length of the vector is linear in the (complex) vector
    z, zi = np.array(case['im']), np.array(case['eps']) + 1j * np.array(case['im'])
    if sum(abs(z)) > 0.1:
        n = np.linalg.norm
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            lhs = smel(*args(zi, bk)) * n(zi)
            rhs = smel(*args(be, bk)) * n(be) + 1j * smel(*args(z, bk)) * n(z)
            near(abs(lhs - rhs), 0, f'{kind} matrix element is not linear in the polarization: {lhs} vs {rhs}', 1e-9 * (1 + n(zi)))
            for ph in (2.5, -1, 1j, 0.6 - 0.8j):
                near(abs(smel(*args(zi * ph, bk))), abs(lhs) / n(zi), f'{kind} matrix element after scaling by {ph}', 1e-9)
    if case['iso']:
        tot = sum(sstr(*args(R @ be, R @ bk)) for R in icosahedral()) / 60
        single = sum(expected(k, p, l) ** 2 for p in range(-k, k + 1))
        near(tot, single * (1 / 3 if k == 1 else 2 / 5), 'average over isotropic directions', 1e-9)
        if kind != 'E2':
            near(getattr(ts, kind + '_transition_strength_avg')(*l), single / 3, 'averaged strength', 1e-10)
        else:
            near(ts.E2_transition_strength_avg(*l), single / 5, 'averaged strength', 1e-10)
    return [kind] + (['zero', 'trivial'] if want < 1e-14 else []) + (['isotropic'] if case['iso'] else [])


SUBS = [Sub('tensor', lines, check_tensor, quick=1000, thorough=16000, rule='pairs of sublevels, I and J up to 7/2, ranks 0 to 4; non-trivial: the line is allowed'),
        Sub('geometry', geom_cases, check_geom, quick=1600, thorough=32000, rule='E1/M1/E2 lines with random orthogonal vectors; non-trivial: non-zero strength')]
