from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, near, equal, frac


@st.composite
def cases(draw):
    lead = dict(draw(gen.any_term(0, 'LS LS JJ JK LK', max_l=draw(st.sampled_from([2, 4])), max_s2=3)))
    J = gen.J_of(lead)
    comps = [lead]
    for i in range(draw(st.integers(0, 2))):
        kind = draw(st.sampled_from(['LS', 'JJ', 'JK', 'LK']))
        t = None
        if kind != 'LS':
            for _ in range(6):
                c = dict(draw(gen.TERMS[kind](i=i + 1, max_l=2, max_s2=3)))
                if gen.J_of(c) == J:
                    t = c
                    break
        comps.append(t or dict(draw(gen.ls_term(i + 1, max_l=9, max_s2=9, J=J))))
    pct = [draw(st.sampled_from([100.0, 50.0, 33.0, 20.0, 1.0, 0.0, 0.5, 33.33333333]) | st.integers(1, 100).map(float)) for _ in comps]
    if not any(pct):
        pct[0] = 12.5
    return {'terms': comps, 'pct': pct, 'order': draw(st.booleans()), 'g': draw(st.none() | st.sampled_from([0.0, -1.5, 2.002]) | st.floats(-5, 5)),
            'single': draw(st.booleans())}


def check(case):
    from atomtoolkit import Q_
    from atomtoolkit.atom import Atom, EnergyLevel
    from atomtoolkit.term import MultiTerm
    comps = list(zip(case['terms'], case['pct']))
    ts = [gen.mk_term(t, pct=p) for t, p in comps]
    m = MultiTerm(*(ts[::-1] if case['order'] else ts))
    J = gen.J_of(comps[0][0])
    want = gen.estimate_g(comps)
    lv = EnergyLevel(m, Q_(1.0, 'THz'))
    near(lv.lande, want, 'estimated g-value', 1e-9)
    a = Atom('X', I=1.5, levels=[lv])
    for f in lv.sublevels():
        near(f.gF, ref.g_F(want, 1.5, J, f.term.F), f'gF of {f.name}', 1e-9)
    if case['single'] and comps[0][1]:
        near(EnergyLevel(ts[0], Q_(1.0, 'THz')).lande, gen.estimate_g(comps[:1]), 'estimated g-value of a single term', 1e-9)
    if J == 0:
        equal(float(lv.lande), 0.0, 'g-value of J=0')
    if case['g'] is not None:
        equal(EnergyLevel(m, Q_(1.0, 'THz'), lande=case['g']).lande, case['g'], 'given g-value')
    return ['+'.join(sorted({t['k'] for t, _ in comps}))] + (['trivial'] if J == 0 else []) + \
        (['equal percentages'] if len(set(case['pct'])) < len(comps) else [])


SUBS = [Sub('lande', cases, check, quick=1430,
            rule='single terms and mixtures of up to three terms in all couplings with any percentages in any order; non-trivial: J > 0')]
