from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, equal, frac


def grid():
    for J0 in range(16):
        for J1 in range(J0, 16, 2):  # an atom's J are all integer or all half-integer
            for p in range(4):
                t0 = {'c': '4f14.6s', 't': f'{J0 + 1}S' + '*' * (p & 1), 'J': frac(J0 / 2), 'odd': bool(p & 1), 'E': 1}
                t1 = {'c': '4f14.7s', 't': f'{J1 + 1}S' + '*' * (p >> 1), 'J': frac(J1 / 2), 'odd': bool(p >> 1), 'E': 2}
                yield {'a': t0, 'b': t1, 'I': None, 'multi': 0}


@st.composite
def cases(draw):
    t0, t1 = (dict(draw(gen.any_term(i, max_l=5))) for i in range(2))
    if draw(st.booleans()) or (gen.J_of(t0) + gen.J_of(t1)) % 1:  # close enough to be connected
        t1 = dict(draw(gen.ls_term(1, max_l=7, max_s2=7, J=min(abs(gen.J_of(t0) + draw(st.integers(-2, 2))), 10 + gen.J_of(t0) % 1))))
    if draw(st.integers(0, 3)) == 0:  # high angular momenta
        J = draw(st.integers(0, 40)) / 2
        t0, t1 = (dict(draw(gen.ls_term(i, max_l=20, max_s2=9, J=x))) for i, x in enumerate((J, min(abs(J + draw(st.integers(-3, 3))), 24 + J % 1))))
    same = draw(st.integers(0, 5)) == 0  # two different levels of which only the energies differ, or nothing
    if same:
        t1 = dict(t0)
    t0['E'], t1['E'] = draw(st.integers(0, 10 ** 6)), draw(st.integers(0, 10 ** 6))
    if draw(st.integers(0, 4)) == 0:
        t1['E'] = t0['E']
    return {'a': t0, 'b': t1, 'I': None if same else draw(st.sampled_from([None, 0.0, 0.5, 2.5])), 'multi': draw(st.sampled_from([0, 1, 2, 3]))}


def check(case):
    from atomtoolkit import Q_
    from atomtoolkit.atom import Atom, EnergyLevel, Transition
    from atomtoolkit.term import MultiTerm, Term
    lvs = []
    for bit, t in ((1, case['a']), (2, case['b'])):
        term = gen.mk_term(t, pct=60)
        if case['multi'] & bit:  # a smaller component of other parity and J says nothing about the level
            term = MultiTerm(term, Term('5g.7h', '2F' if t['odd'] else '2F*', t['J'], percentage=30))
        lvs.append(EnergyLevel(term, Q_(float(t['E']), 'GHz'), lande=1.0))
    if case['I'] is not None:
        a = Atom('X', I=case['I'], levels=lvs)
    J0, J1 = (gen.J_of(case[k]) for k in 'ab')
    p0, p1 = case['a']['odd'], case['b']['odd']
    want = ref.allowed_fine(J0, p0, J1, p1)
    for x, y in (lvs, lvs[::-1]):
        t = Transition(x, y)
        equal(tuple(bool(v) for v in t.allowed_types), want, f'allowed types of {t.name}')
        equal(tuple(bool(v) for v in t.transition_allowed()), want, 'transition_allowed()')
    for x, J, p in ((lvs[0], J0, p0), (lvs[1], J1, p1)):
        t = Transition(x, x)
        equal(tuple(bool(v) for v in t.allowed_types), ref.allowed_fine(J, p, J, p, same=True), f'allowed types of {t.name}')
    return ['E1'] * want[0] + ['M1'] * want[1] + ['E2'] * want[2] or ['none'] + (['trivial'] if abs(J0 - J1) > 3 else [])


SUBS = [Sub('rules', cases, check, quick=1200, cases=grid,
            rule='every pair of J up to 15/2 (both integer or both half-integer, as in any atom) with every parity, then random pairs of terms in all couplings, in both orders, in and out of atoms, with a second component of the other parity; non-trivial: |J-J\'| <= 3')]
