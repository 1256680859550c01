from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, same, equal, raises, frac


@st.composite
def cases(draw):
    return {'I': draw(gen.spins), 'Istr': draw(st.booleans()),
            't': draw(gen.level_specs(1, 2, 'LS JJ JK LK', max_J=7.5, hf=False)),
            'into': draw(st.sampled_from(['add', 'add', 'parent', 'both'])), 'eager': draw(st.booleans()), 'numJ': draw(st.booleans()), 'look': draw(st.integers(0, 5))}


def grid():
    for I2 in range(10):
        for J2 in range(10):
            yield {'I': I2 / 2, 'Istr': bool(J2 % 2), 'eager': bool(I2 % 2), 'numJ': True, 'look': (I2 + J2) % 6,
                   't': [{'c': '4f14.6s', 't': f'{J2 + 1}S', 'J': frac(J2 / 2), 'E': 100, 'g': 1.5}]}


    for I, J in ((7.0, 7.5), (9.5, 6.5), (4.5, 10.0), (8.0, 8.0)):
        yield {'I': I, 'Istr': False, 'eager': False, 'numJ': True, 'look': 5, 't': [{'c': '4f14.6s', 't': '9Q', 'J': frac(J), 'E': 100, 'g': 1.5}]}


def check(case):
    from atomtoolkit import Q_
    from atomtoolkit.atom import Atom, EnergyLevel
    from atomtoolkit.term import Term
    I = case['I']
    a = Atom('X', I=frac(I) if case['Istr'] else I)
    equal(a.I, I, 'nuclear spin')
    n_states = 0
    for t in case['t']:
        J = gen.J_of(t)
        into = case.get('into', 'add')   # a level may also be made for an atom, and added to it later or not
        lv = EnergyLevel(Term(t['c'], t['t'], J if case['numJ'] else t['J']), Q_(t['E'], 'GHz'), lande=t['g'], **({} if into == 'add' else {'parent': a}))
        if into != 'parent':
            if into == 'both' and case['look'] % 2:
                equal(len(lv), len(ref.jrange(I, J)), 'sublevels of a level made for an atom')
            same(a.add_level(lv, populate_sublevels=case['eager']), lv, 'add_level')
        same(lv.atom, a, 'atom')
        nm = gen.name_of(t)
        equal(lv.name, nm, 'name')
        want = ref.jrange(I, J)
        gen.first_look(lv, case.get('look', 5), lambda x: x.sublevels(), 'level')
        subs = lv.sublevels()
        equal(sorted(s.term.F for s in subs), want, 'F values')
        equal(sorted(lv.keys()), sorted(f'F={frac(F)}' for F in want), 'keys')
        equal(sorted(lv), sorted(lv.keys()), 'iteration')
        equal(len(lv), len(want), 'len')
        equal(len(list(lv.values())), len(want), 'values')
        count = 0
        for k, s in lv.items():
            same(lv[k], s, 'indexing')
            F = s.term.F
            equal(k, f'F={frac(F)}', 'key')
            need(any(s is v for v in lv.values()) and any(s is v for v in subs), 'values/sublevels disagree with items')
            equal((s.term.conf, s.term.term, s.term.J, s.term.mF, s.name), (t['c'], t['t'], J, None, f'{nm} F={frac(F)}'), 'term of the sublevel')
            equal(s.term.parity, lv.term.parity, 'parity')
            same(s.parent, lv, 'parent'), same(s.manifold, lv, 'manifold'), same(s.atom, a, 'atom')
            ms = ref.mrange(F)
            gen.first_look(s, case.get('look', 5) + count, lambda x: x.sublevels(), 'sublevel')
            equal(sorted(z.term.mF for z in s.sublevels()), ms, f'mF values of F={F}')
            equal(len(s), len(ms), 'len')
            equal(sorted(s.keys()), sorted(f'mF={frac(m)}' for m in ms), 'keys')
            equal(sorted(s), sorted(s.keys()), 'iteration')
            for kz, z in s.items():
                same(s[kz], z, 'indexing')
                m = z.term.mF
                equal(kz, f'mF={frac(m)}', 'key')
                equal((z.term.conf, z.term.term, z.term.J, z.term.F, z.name),
                      (t['c'], t['t'], J, F, f'{nm} F={frac(F)} mF={frac(m)}'), 'term of the Zeeman sublevel')
                same(z.parent, s, 'parent'), same(z.manifold, lv, 'manifold'), same(z.atom, a, 'atom')
                count += 1
            raises(KeyError, lambda: s['mF=99'], 'unknown mF')
        equal(count, int((2 * J + 1) * (2 * I + 1)), 'number of states')
        raises(KeyError, lambda: lv['F=99'], 'unknown F')
        n_states += count
    return ['trivial'] if n_states < 2 else (['half' if (2 * I) % 2 else 'integer'])


SUBS = [Sub('ladders', cases, check, quick=600, cases=grid,
            rule='all (I,J) up to 9/2 once, then random I up to 9/2, 1-2 levels of any coupling with J up to 15/2, lazy or eager; non-trivial: at least two states')]
