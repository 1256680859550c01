from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, near, frac


@st.composite
def cases(draw):
    I = draw(gen.small_spins)
    n = draw(st.integers(2, 4))
    levels, J0 = [], draw(st.sampled_from(gen.HALF_J[:8]))
    slots = draw(st.permutations(list(range(n))))
    for i in range(n):
        # neighbours that usually have an allowed transition
        J = max(J0 % 1, J0 + draw(st.integers(-2, 2))) if i else J0
        t = dict(draw(gen.ls_term(i, J=J)))
        t.update(draw(gen.coefs()))
        t['E'] = slots[i] * 5000 + draw(st.integers(0, 1000))
        t['g'] = draw(st.integers(-3000, 3000)) / 1000
        levels.append(t)
    gen.spread(draw, levels)
    # a forest: each level is linked to an earlier one
    links = [draw(st.integers(0, i - 1)) for i in range(1, n)]
    ops = draw(st.lists(st.tuples(st.integers(0, 9), st.sampled_from([0, 1, 1, 2, 2]), st.integers(0, 99), st.integers(0, 99),
                                  st.integers(1000, 10 ** 6), st.sampled_from(ref.FREQ_UNITS), st.booleans(), st.none() | st.none() | st.sampled_from([50, 900, -900, 10 ** 4, 10 ** 6])), min_size=1, max_size=5))
    zero = draw(st.sampled_from([None, None, 'THz', 'cm**-1', 'eV']))
    return {'zero': zero, 'spec': {'I': I, 'B': draw(st.integers(0, 500)), 'levels': levels}, 'links': links, 'ops': [list(o) for o in ops],
            'nudge': [draw(st.sampled_from([0, 0, 0, 150, -150, 20])) for _ in ops], 'flip': draw(st.booleans()), 'init': draw(st.integers(0, 3))}


def check(case):
    from atomtoolkit import Q_
    from atomtoolkit.atom import Transition
    spec = case['spec']
    a, lvs = gen.mk_atom(spec)
    ts = []
    # the one that moves levels comes first: which level of a transition is the upper one is decided when it is made
    for i, k in sorted(enumerate(case['links'], 1), key=lambda x: x[0] != case['init']):
        pair = (lvs[i], lvs[k]) if case['flip'] else (lvs[k], lvs[i])
        kw = {'freq': Q_(3000.0 + i, 'GHz')} if case['init'] == i else {}
        ts.append(a.add_transition(Transition(*pair, A=Q_(1.0, 'MHz'), **kw)))

    def shape():
        """distance of every component from its transition, and every shift"""
        d = {}
        for n, t in enumerate(ts):
            par = t.E_upper.level_Hz - t.E_lower.level_Hz
            for s in t.subtransitions():
                d[n, s.name] = s.E_upper.level_Hz - s.E_lower.level_Hz - par
                for z in s.subtransitions():
                    d[n, s.name, z.name, z.E_lower.name] = z.E_upper.level_Hz - z.E_lower.level_Hz - par
        for lv in lvs:
            for f in lv.sublevels():
                d[f.name] = f.shift_Hz
                for z in f.sublevels():
                    d[z.name] = z.shift_Hz
        return d

    start, labels = shape(), set()
    for n, (i, depth, j, k, f, unit, prop, small) in enumerate(case['ops']):
        t = ts[i % len(ts)]
        by_hand = case['nudge'][n] if 'nudge' in case else 0
        if by_hand and t.freq_Hz > 500e9:  # the level was moved by hand in the meantime
            t.E_upper.level = t.E_upper.level + Q_(float(by_hand), 'GHz')
            labels.add('moved by hand')
        for pick in (j, k)[:depth]:
            if not t.subtransitions():
                break
            t = t.subtransitions()[pick % len(t.subtransitions())]
            labels.add('component')
        chain = [t]
        while chain[-1].parent is not None:
            chain.append(chain[-1].parent)
        if len(chain) > 1 and any((x.E_upper.level_Hz - x.E_lower.level_Hz) < 1e9 or x.E_upper.manifold is not chain[-1].E_upper for x in chain):
            labels.add('overlap')  # manifolds that were moved onto or past each other: not claimed
            continue
        f_hz = f * 1e9 if small is None or t.freq_Hz < 1e9 else t.freq_Hz + small  # (a small correction)
        q = Q_(ref.from_hz(f_hz, unit), unit)
        if prop:
            t.freq = q
        else:
            t.set_frequency(q)
        near(t.freq_Hz, f_hz, f'{t.name} set to {f_hz} Hz in {unit}', 6.0)
        near(t.freq.to('Hz').magnitude, f_hz, 'freq', 6.0)
        now = shape()
        for key in start:
            near(now[key], start[key], f'{key} after setting {t.name}', 6.0)
        need(set(now) == set(start), 'components changed')
        labels.add(unit)
    if case.get('zero'):  # two levels brought to the same energy, and apart again
        b, lw = gen.mk_atom(spec)
        t = b.add_transition(Transition(lw[1], lw[0], freq=Q_(0.0, case['zero']))) if case['flip'] else b.add_transition((lw[0].name, lw[1].name), freq=Q_(0.0, case['zero']))
        near(t.freq_Hz, 0, 'frequency of a transition added with a frequency of zero', 6.0)
        t.freq = Q_(5.0, 'GHz')
        near(t.freq_Hz, 5e9, 'frequency set after one of zero', 6.0)
        t.set_frequency(Q_(0.0, case['zero']))
        near(t.freq_Hz, 0, 'frequency set to zero', 6.0)
    if 'component' not in labels:
        labels.add('trivial')
    return sorted(labels)


SUBS = [Sub('components', cases, check, quick=170,
            rule='random atoms of 2-4 levels joined by a tree of transitions, 1-5 settings of transitions and components at random depth in eight units; non-trivial: at least one component was set')]
