from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, equal, frac
from ..ref import LETTERS, jrange

NAMES = ['lc', 'sc', 'lo', 'so', 'jc', 'jo', 'l', 's', 'k']


@st.composite
def nested_jj(draw):
    """JJ terms with pair-coupled cores, intermediate parents, or the parents in the term"""
    jc, jo = draw(st.integers(0, 20)) / 2, draw(st.integers(0, 20)) / 2
    lo, so2 = draw(st.integers(0, 20)), draw(st.integers(0, 9))
    a, b = draw(st.integers(0, 15)) / 2, draw(st.integers(0, 15)) / 2
    st1, st2 = draw(st.sampled_from(['', '*'])), draw(st.sampled_from(['', '*']))
    sep = draw(st.sampled_from([',', ', ']))
    outer = f'({so2 + 1}{LETTERS[lo]}{st2}<{frac(jo)}>)'
    pair = draw(st.integers(0, 3)) == 0   # the outer parent is a coupled pair as well
    if pair:
        c, d = draw(st.integers(0, 15)) / 2, draw(st.integers(0, 15)) / 2
        outer = f'({frac(c)}{sep}{frac(d)}){st2}<{frac(jo)}>'
    odd = draw(st.booleans())
    q = {'jc': jc, 'jo': jo, 'lo': None if pair else lo, 'so': None if pair else so2 / 2, 'lc': None, 'sc': None}
    if draw(st.booleans()):
        conf = f'5f3.5f3.({frac(a)}{sep}{frac(b)}){st1}<{frac(jc)}>.7s.7p.{outer}'
    else:
        lc, sc2 = draw(st.integers(0, 20)), draw(st.integers(0, 9))
        q['lc'], q['sc'] = lc, sc2 / 2
        mid = draw(st.sampled_from(['.5d.(2D)', '.6s.6p.(3P*)', '.5d2']))
        conf = f'4f12.({sc2 + 1}{LETTERS[lc]}{st1}<{frac(jc)}>){mid}.6p.{outer}'
    return {'c': conf, 't': draw(st.sampled_from(['', ' '])) + f'({frac(jc)}{sep}{frac(jo)})' + '*' * odd, 'k': 'JJ', 'q': q, 'odd': odd,
            'J': frac(draw(st.sampled_from(jrange(jc, jo))))}


@st.composite
def electron_jj(draw):
    """JJ terms in which the outer or both parents are single electrons, such as 4p<3/2>"""
    def electron():
        l = draw(st.integers(0, 5))
        j = draw(st.sampled_from([x for x in (l - 0.5, l + 0.5) if x > 0]))
        return l, j, f'{draw(st.integers(l + 1, 12))}{LETTERS[l].lower()}<{frac(j)}>'
    lo, jo, outer = electron()
    q = {'lo': lo, 'jo': jo, 'so': 0.5}
    if draw(st.booleans()):
        q['lc'], q['jc'], core = electron()
        q['sc'] = 0.5
        electrons = ['sc', 'so']
    else:
        electrons = ['so']
        L, S2 = draw(st.integers(0, 20)), draw(st.integers(0, 9))
        q['lc'], q['sc'], q['jc'] = L, S2 / 2, draw(st.sampled_from(jrange(L, S2 / 2)))
        core = f'({S2 + 1}{LETTERS[L]}{draw(st.sampled_from(["", "*"]))}<{frac(q["jc"])}>)'
    odd = draw(st.booleans())
    return {'c': f'3d9.{core}.{outer}', 't': f'({frac(q["jc"])}, {frac(jo)})' + '*' * odd, 'k': 'JJ', 'q': q, 'odd': odd,
            'electrons': electrons, 'J': frac(draw(st.sampled_from(jrange(q['jc'], jo))))}


@st.composite
def cases(draw):
    how = draw(st.integers(0, 8))
    if how == 0:
        t = draw(nested_jj())
    elif how == 1:
        t = draw(electron_jj())
    else:
        t = dict(draw(gen.any_term(draw(st.integers(0, 4)), max_l=draw(st.sampled_from([3, 20])), max_s2=draw(st.sampled_from([3, 11])))))
        if t['k'] == 'LK' and draw(st.booleans()):
            t['t'] = t['t'].replace(' ', '')
    return {'t': t, 'F': draw(st.none() | st.just(1.0)), 'numJ': draw(st.booleans())}


def grid():
    """every L letter and multiplicity, every letter of a single outer electron"""
    for l in range(10):
        for kind, t, q in (('JK', '2[{}]*', {'jc': 2.5, 'k': l + 2.5}), ('LK', f'{LETTERS[l + 1]}* 2[{{}}]', {'l': l + 1, 'k': l + 1.5})):
            c = '4f13.(2F*<5/2>).' if kind == 'JK' else '3d9.6s.(2P).'
            q.update(lo=l, so=0.5, lc=3 if kind == 'JK' else 1, sc=0.5)
            yield {'t': {'c': c + f'{l + 1}{LETTERS[l].lower()}', 't': t.format(frac(q['k'])), 'k': kind, 'q': q, 'odd': True, 'J': frac(q['k'] + 0.5)},
                   'F': None, 'numJ': False}
    for L in range(21):
        for S2 in range(12):
            yield {'t': {'c': '4f13.6s', 't': f'{S2 + 1}{LETTERS[L]}' + '*' * (L % 2), 'k': 'LS', 'q': {'l': L, 's': S2 / 2},
                         'odd': bool(L % 2), 'J': frac(L + S2 / 2)}, 'F': None, 'numJ': False}


def check(case):
    from atomtoolkit import util
    from atomtoolkit.term import MultiTerm, Term
    t = case['t']
    want = tuple(t['q'].get(n) for n in NAMES)
    got = tuple(util.get_quantum_nums(t['c'], t['t']))
    # known finding: single electrons, such as 4p<3/2>, are given spin 0; nothing else may be wrong
    finding = tuple(0.0 if n in t.get('electrons', ()) else t['q'].get(n) for n in NAMES)
    if t.get('electrons') and got == finding:
        want = finding
    equal(util.get_term_coupling(t['t']), t['k'], f'coupling of {t["t"]!r}')
    equal(got, want, f'quantum numbers of {t["c"]} {t["t"]} in the order {NAMES}')
    x = Term(t['c'], t['t'], gen.J_of(t) if case['numJ'] else t['J'], F=case['F'])
    for y in (x, MultiTerm(x), x.make_term_copy(F=2.0)):
        equal(y.coupling, t['k'], 'coupling')
        equal(tuple(getattr(y, n) for n in NAMES), want, f'attributes {NAMES}')
        equal(tuple(y.quantum_nums), want, 'quantum_nums')
        need(y.parity == (-1 if t['odd'] else 1), f'parity {y.parity} of {t["t"]!r}')
        equal(y.J, gen.J_of(t), 'J')
        equal(y.J_frac, frac(t['J']), 'J_frac')
        need(y.quantum_nums is x.quantum_nums or tuple(y.quantum_nums) == want, 'quantum numbers')
    return [t['k']] + ['odd'] * t['odd'] + (['trivial'] if t['k'] == 'LS' and t['q']['l'] < 2 else [])


SUBS = [Sub('symbols', cases, check, quick=4800, cases=grid,
            rule='every LS symbol with L up to 20 and multiplicity up to 12, then symbols of all notations rendered from random quantum numbers (nested JJ cores, single electrons, spacing, asterisks); non-trivial: not an S or P term in LS coupling')]
