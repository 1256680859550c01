from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, same, equal, frac


@st.composite
def terms(draw):
    t = dict(draw(gen.any_term(draw(st.integers(0, 1)), max_l=2, max_s2=2)))
    t['F'] = draw(st.none() | st.integers(0, 4).map(lambda x: x / 2))
    t['m'] = None if t['F'] is None else draw(st.none() | st.sampled_from(ref.mrange(t['F'])))
    t['p'] = draw(st.sampled_from([100.0, 60.0, 33.33333333, 12.5, 20.625e-2]))
    return t


@st.composite
def cases(draw):
    a = draw(terms())
    b = dict(a)
    for _ in range(draw(st.integers(0, 2))):
        field = draw(st.sampled_from(['c', 't', 'J', 'F', 'm', 'p', 'all', 'run', 'case']))
        if field == 'all':
            b = draw(terms())
        elif field == 'run' and a['k'] == b['k'] == 'LS':  # the same name, divided differently
            w = draw(st.sampled_from(['a', 'b', 'x2']))
            a, b = dict(a, c=a['c'] + ' ' + w), dict(a, t=w + ' ' + a['t'])
        elif field == 'case':
            b['c'] = b['c'].swapcase() if b['k'] == 'LS' and '(' not in b['c'] else b['c']
        elif field == 'c':
            b['c'] = a['c'].replace('4f', '5f').replace('5d', '6d').replace('3d', '6d') if b['c'] == a['c'] else b['c']
        elif field == 't':
            b['t'] = b['t'][:-1] if b['t'].endswith('*') else b['t'] + '*'
            if b['k'] != 'LS' and 'odd' in b:
                b['odd'] = b['t'].endswith('*')
        elif field == 'J':
            b['J'] = frac(gen.J_of(b) + draw(st.sampled_from([1, 2])))
        elif field == 'F':
            b['F'] = None if b['F'] is not None and draw(st.booleans()) else (b['F'] or 0) + 1
            if b['F'] is None:
                b['m'] = None
        elif field == 'm' and b['m'] and draw(st.booleans()):
            b['m'] = -b['m']
        elif field == 'm' and b['F'] is not None:
            b['m'] = draw(st.sampled_from([None] + ref.mrange(b['F'])))
        elif field == 'p':
            b['p'] = draw(st.sampled_from([100.0, 60.0, 33.33333333, 12.5, 20.625e-2]))
    rest = draw(st.lists(st.tuples(st.integers(0, 3), st.sampled_from([20.0, 10.0, 5.0, 20.5])), max_size=draw(st.sampled_from([2, 2, 4])), unique_by=lambda x: x[1]))
    rest2 = [list(x) for x in rest]
    if draw(st.booleans()) and rest2:
        how = draw(st.sampled_from(['drop', 'change', 'swap']))
        if how == 'drop':
            rest2.pop()
        elif how == 'change':
            rest2[0][0] = (rest2[0][0] + 1) % 4
        elif len(rest2) == 2:
            rest2[0][1], rest2[1][1] = rest2[1][1], rest2[0][1]
    return {'a': a, 'b': b, 'ra': [list(x) for x in rest], 'rb': rest2, 'order': draw(st.booleans()),
            'F': draw(st.integers(0, 6)) / 2, 'm': draw(st.integers(0, 6)), 'strF': draw(st.booleans())}


OTHERS = [('4f14.7s', '2S'), ('4f14.7p', '2P*'), ('4f13.(2F*<7/2>).5d.6s.(3D)', '3[5/2]*'), ('4f14.7s', '4S')]


def key(t):
    return t['c'], t['t'], gen.J_of(t), t['F'], t['m']


def check(case):
    from atomtoolkit.term import MultiTerm, Term

    def mk(t, s=case['strF']):
        f = (lambda x: None if x is None else frac(x)) if s else (lambda x: x)
        return Term(t['c'], t['t'], t['J'], F=f(t['F']), mF=f(t['m']), percentage=t['p'])

    def eq(x, y, want, what):
        need(bool(x == y) == want, f'{what}: {x!r} == {y!r} is {x == y}')
        need(bool(y == x) == want, f'{what}: {y!r} == {x!r} is {y == x}')
        need(bool(x != y) == (not want), f'{what}: {x!r} != {y!r} is {x != y}')

    a, b = case['a'], case['b']
    A, B = mk(a), mk(b, False)
    labels = ['equal' if key(a) == key(b) else 'different', a['k']]
    eq(A, B, key(a) == key(b), 'terms')
    eq(A, MultiTerm(B), key(a) == key(b), 'term and wrapped term')
    eq(MultiTerm(A), MultiTerm(B), key(a) == key(b), 'wrapped terms')
    eq(A, mk(a), True, 'a term and its twin')
    # names
    for t, T in ((a, A), (b, B)):
        nm = f"{t['c']} {t['t']}{frac(t['J'])}"
        if t['F'] is not None:
            nm += f" F={frac(t['F'])}"
        if t['m'] is not None:
            nm += f" mF={frac(t['m'])}"
        for x in (T, MultiTerm(T)):
            equal(x.name, nm, 'name')
            equal(x.term_name, nm[len(t['c']) + 1:], 'term_name')
        equal(str(T), nm[len(t['c']) + 1:], 'str')
    # mixtures
    def mix(t, rest):
        xs = [mk(t)] + [Term(OTHERS[i][0], OTHERS[i][1], t['J'], F=t['F'], mF=t['m'], percentage=p) for i, p in rest]
        return MultiTerm(*(xs[::-1] if case['order'] else xs)), xs

    def mixkey(t, rest):
        comps = [(t['p'], key(t))] + [(p, (OTHERS[i][0], OTHERS[i][1], gen.J_of(t), t['F'], t['m'])) for i, p in rest]
        return [k for _, k in sorted(comps, key=lambda c: -c[0])]
    M, xs = mix(a, case['ra'])
    N, _ = mix(b, case['rb'])
    eq(M, N, mixkey(a, case['ra']) == mixkey(b, case['rb']), 'mixtures')
    equal(len(M), len(xs), 'len of a mixture')
    want = sorted(xs, key=lambda x: -x.percentage)
    equal([x.percentage for x in M], [x.percentage for x in want], 'percentages in order')
    for i, x in enumerate(want):
        same(M[i], x, f'component {i}')
        need(x in M, 'component is not in the mixture')
    for attr in ('conf', 'term', 'J', 'F', 'mF', 'percentage', 'parity', 'name', 'term_name', 'short_name', 'coupling', 'quantum_nums',
                 'l', 's', 'k', 'lc', 'sc', 'lo', 'so', 'jc', 'jo', 'J_frac', 'F_frac', 'mF_frac'):
        equal(getattr(M, attr), getattr(want[0], attr), f'attribute {attr} of a mixture')
    # copies for sublevels
    F = case['F']
    m = ref.mrange(F)[case['m'] % len(ref.mrange(F))]
    base = dict(a, F=None, m=None)
    for T, comps in ((mk(base), [base]), (MultiTerm(mk(base)), [base])):
        f = T.make_term_copy(F=F)
        z = f.make_term_copy(mF=m)
        eq(f, mk(dict(base, F=F)), True, 'copy with F')
        eq(T.make_term_copy(F=F, mF=m), mk(dict(base, F=F, m=m)), True, 'copy with F and mF at once')
        eq(z, mk(dict(base, F=F, m=m)), True, 'copy with F and mF')
        equal((f.percentage, z.percentage), (base['p'], base['p']), 'percentage of a copy')
        equal((T.F, T.mF, f.mF), (None, None, None), 'the original of a copy')
        equal(f.short_name, f'F={frac(F)}', 'short name')
        equal(z.short_name, f'mF={frac(m)}', 'short name')
    Z = mix(base, case['ra'])[0].make_term_copy(F=F).make_term_copy(mF=m)
    equal(len(Z), len(case['ra']) + 1, 'components of a copy')
    need(all((c.F, c.mF, c.J) == (F, m, gen.J_of(base)) for c in Z), 'quantum numbers of a copied mixture')
    equal([c.percentage for c in Z], sorted((c.percentage for c in Z), reverse=True), 'percentages of a copied mixture')
    qn = mk(b).quantum_nums  # given explicitly, whatever the configuration says
    T = Term(a['c'], a['t'], a['J'], percentage=a['p'], quantum_nums=qn)
    for x in (T, T.make_term_copy(F=F), T.make_term_copy(F=F).make_term_copy(mF=m), MultiTerm(T).make_term_copy(F=F)):
        equal(x.quantum_nums, qn, 'quantum numbers that were given')
        equal(x.percentage, a['p'], 'percentage')
        equal((x.conf, x.term, x.J, x.parity), (T.conf, T.term, T.J, T.parity), 'the rest of a copy')
    if key(a) == key(b) and case['ra'] == case['rb'] and a['F'] is None:
        labels.append('trivial')
    return labels


SUBS = [Sub('equality', cases, check, quick=2400,
            rule='pairs of terms that are equal or differ in one or two of configuration, symbol, J, F, mF, percentage, and mixtures of up to 3; non-trivial: they differ or have F')]
