import math

from hypothesis import strategies as st

from .. import ref
from ..core import Sub
from ..gen import need, near, equal


def h(mx2):
    return st.integers(0, mx2).map(lambda x: x / 2)


@st.composite
def third(draw, a, b):
    """mostly within the triangle"""
    if draw(st.integers(0, 5)):
        return draw(st.sampled_from(ref.jrange(a, b)))
    return draw(h(12))


@st.composite
def cases(draw):
    big = draw(st.sampled_from([12, 12, 12, 12, 45]))
    kind = draw(st.sampled_from(['3j', '3j', '6j', '6j', '9j']))
    if kind == '3j':
        j1, j2 = draw(h(big)), draw(h(big))
        j3 = draw(third(j1, j2))
        m1, m2 = draw(st.sampled_from(ref.mrange(j1))), draw(st.sampled_from(ref.mrange(j2)))
        args = [j1, j2, j3, m1, m2, -(m1 + m2)]
    elif kind == '6j':
        a, b, d = draw(h(big)), draw(h(big)), draw(h(big - 2))
        c = draw(third(a, b))
        e = draw(third(c, d))
        f = draw(third(b, d))
        args = [a, b, c, d, e, f]
    else:
        a, b, d, e = (draw(h(6)) for _ in range(4))
        c, f, g, hh = draw(third(a, b)), draw(third(d, e)), draw(third(a, d)), draw(third(b, e))
        args = [a, b, c, d, e, f, g, hh, draw(third(c, f))]
    mess = draw(st.sampled_from([None, None, None, 'one', 'half', 'odd', 'neg']))
    if mess:
        i = draw(st.integers(0, len(args) - 1))
        if mess == 'one':
            args[i] += draw(st.sampled_from([1, 2, 5]))
        elif mess == 'half':
            args[i] += 0.5
        elif mess == 'odd':
            args[i] += draw(st.sampled_from([0.25, 0.3]))
        else:
            args[i] = -args[i] - 1
    return {'kind': kind, 'args': args, 'ints': draw(st.booleans()), 'np': draw(st.booleans()), 'perm': draw(st.integers(0, 5)), 'mess': mess}


PERMS = [(0, 1, 2), (1, 2, 0), (2, 0, 1), (1, 0, 2), (0, 2, 1), (2, 1, 0)]


def check(case):
    import numpy as np
    from atomtoolkit import wigner
    kind, args = case['kind'], case['args']
    fn = {'3j': wigner.wigner3j, '6j': wigner.wigner6j, '9j': wigner.wigner9j}[kind]
    rf = {'3j': ref.w3j, '6j': ref.w6j, '9j': ref.w9j}[kind]
    valid = all(2 * x == int(2 * x) for x in args)
    want = rf(*args) if valid else 0.0
    give = [np.float64(x) for x in args] if case['np'] else [int(x) if case['ints'] and x == int(x) else x for x in args]
    got = fn(*give)
    near(got, want, f'{kind}{args}', 1e-10)
    need(not isinstance(got, complex) and (float(got) == 0.0) == (got == 0.0) == (abs(want) < (1e-14 if kind == '9j' else 1e-300)),
         f'{kind}{args}: {got!r} where {want!r} is right')
    near(fn(*give), got, 'second evaluation', 0)
    if want:
        p = PERMS[case['perm']]
        odd = case['perm'] > 2
        if kind == '3j':
            pa = [args[i] for i in p] + [args[3 + i] for i in p]
            near(fn(*pa), (-1) ** int(sum(args[:3]) * odd) * got, 'permuted columns', 1e-10)
            near(fn(*args[:3], *[-m for m in args[3:]]), (-1) ** int(sum(args[:3])) * got, 'reversed projections', 1e-10)
        elif kind == '6j':
            near(fn(*([args[i] for i in p] + [args[3 + i] for i in p])), got, 'permuted columns', 1e-10)
            near(fn(args[3], args[4], args[2], args[0], args[1], args[5]), got, 'swapped rows', 1e-10)
        else:
            sgn = (-1) ** int(sum(args) * odd)
            near(fn(*[args[3 * i + k] for i in p for k in range(3)]), sgn * got, 'permuted rows', 1e-10)
            near(fn(*[args[3 * k + i] for i in range(3) for k in range(3)]), got, 'transposed', 1e-10)
    labels = [kind] + ([f'invalid-{case["mess"]}'] if case['mess'] else [])
    return labels + (['trivial'] if not want and not case['mess'] else []) + (['nonzero'] if want else [])


@st.composite
def sums(draw):
    kind = draw(st.sampled_from(['3j', '6j']))
    a, b = draw(h(7)), draw(h(7))
    if kind == '3j':
        c, c2 = draw(st.sampled_from(ref.jrange(a, b))), draw(st.sampled_from(ref.jrange(a, b)))
        return {'kind': kind, 'args': [a, b, c, c2], 'm': draw(st.sampled_from(ref.mrange(c)))}
    d = draw(h(5))
    e = draw(st.sampled_from(ref.jrange(a, b)))
    e = draw(st.sampled_from(ref.jrange(e, d)))  # total
    fs = [f for f in ref.jrange(a, d) if e in ref.jrange(f, b)]
    return {'kind': kind, 'args': [a, b, d, e, draw(st.sampled_from(fs)), draw(st.sampled_from(fs))], 'm': 0}


def check_sum(case):
    from atomtoolkit import wigner
    if case['kind'] == '3j':
        a, b, c, c2 = case['args']
        m = case['m']
        tot = sum(wigner.wigner3j(a, b, c, m1, -m - m1, m) * wigner.wigner3j(a, b, c2, m1, -m - m1, m)
                  for m1 in ref.mrange(a) if abs(-m - m1) <= b)
        near(tot * (2 * c + 1), 1.0 if c == c2 else 0.0, f'orthogonality of 3j {case["args"]}', 1e-9)
        return ['3j']
    a, b, d, e, f1, f2 = case['args']
    # {a b x; d... } recoupling of a, b, d to e via x = a+b or f = a+d
    tot = sum((2 * x + 1) * wigner.wigner6j(a, b, x, e, d, f1) * wigner.wigner6j(a, b, x, e, d, f2) for x in ref.jrange(a, b))
    near(tot * (2 * f1 + 1), 1.0 if f1 == f2 else 0.0, f'orthogonality of 6j {case["args"]}', 1e-9)
    return ['6j']


SUBS = [Sub('values', cases, check, quick=3440,
            rule='3j and 6j with arguments up to 6, 9j up to 3, also as ints or numpy floats, some made invalid (triangle, integrality, quarter integers, negative); non-trivial: non-zero or deliberately invalid'),
        Sub('orthogonality', sums, check_sum, quick=450, rule='orthogonality sums over random spins; all count')]
