from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, near, same, equal, frac

A_UNITS = {'Hz': 1.0, 'kHz': 1e3, 'MHz': 1e6, 'GHz': 1e9, '1/s': 1.0, '1/ms': 1e3, '1/us': 1e6}


@st.composite
def cases(draw):
    spec = draw(gen.atom_specs(2, 4, 'LS LS JK', max_J=2.5, I=st.sampled_from([0.0, 0.5, 1.0, 1.5])))
    for t in spec['levels']:
        t['E'] = draw(st.integers(0, 100)) if draw(st.integers(0, 5)) == 0 else t['E']   # manifolds that overlap
    close = draw(st.integers(0, 3)) == 0
    if close:   # levels that are almost degenerate
        spec['levels'][1]['E'] = spec['levels'][0]['E'] + draw(st.integers(-10 ** 4, 10 ** 4)) * 10.0 ** draw(st.integers(-7, -4))
        if draw(st.booleans()):
            for t in spec['levels'][:2]:
                t['A'] = t['B'] = t['C'] = 0
    n = len(spec['levels'])
    pairs = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(1, n - 1)), min_size=1, max_size=3))
    if close:
        pairs = [draw(st.sampled_from([(0, 1), (1, n - 1)]))] + pairs[:2]
    return {'spec': spec, 'pairs': [list(p) for p in pairs],
            'A': [draw(st.sampled_from([None, 0, 3, 250])) for _ in pairs], 'Au': draw(st.sampled_from(sorted(A_UNITS))),
            'how': draw(st.sampled_from(['object', 'names', 'levels'])), 'name': draw(st.sampled_from([None, None, 'my line'])), 'free': draw(st.integers(0, 3)) == 0,
            'edits': [list(e) for e in draw(st.lists(st.tuples(st.sampled_from(['E', 'A', 'B', 'C', 'field', 'sub', 'tune', 'apart']), st.integers(0, 9),
                                                               st.integers(-4000, 4000).filter(bool)), min_size=1, max_size=4))]}


def check(case):
    from atomtoolkit import Q_
    from atomtoolkit.atom import Transition
    spec = case['spec']
    I, specs, B = spec['I'], [dict(t) for t in spec['levels']], float(spec['B'])
    free = case['free']
    if free:
        a, lvs = None, [gen.mk_level(t) for t in specs]
    else:
        a, lvs = gen.mk_atom(spec)
    index = {gen.name_of(t): i for i, t in enumerate(specs)}
    made, seen, labels = [], set(), set()

    def energy(x):
        t = specs[index[x.manifold.name]]
        if x.term.F is None:
            return gen.E_level(t)
        if x.term.mF is None:
            return gen.E_hf(I, t, x.term.F)
        return gen.E_z(I, t, x.term.F, x.term.mF, B)

    def check_one(t, first=False):
        e1, e2 = energy(t.E_1), energy(t.E_2)
        f = abs(e1 - e2)
        near(t.freq_Hz, f, f'freq_Hz of {t.name}', 4.0)
        near(t.freq.to('Hz').magnitude, f, f'freq of {t.name}', 4.0)
        if f > 1e6:
            near(t.wl.to('nm').magnitude, ref.C_LIGHT / f * 1e9, f'wavelength of {t.name}', 0, 1e-9 + 20 / f)
            equal(str(t.wl.units), 'nanometer', 'unit of the wavelength')
        need({id(t.E_upper), id(t.E_lower)} == {id(t.E_1), id(t.E_2)}, 'upper and lower level are not its levels')
        if first and f > 100:
            same(t.E_upper, t.E_1 if e1 > e2 else t.E_2, f'upper level of {t.name}')
            same(t.E_lower, t.E_2 if e1 > e2 else t.E_1, f'lower level of {t.name}')

    def everything(first=False):
        for t, _ in made:
            check_one(t, first)
            if free:
                continue
            for s in t.subtransitions():
                check_one(s, first)
                if first:
                    equal(s.name, f'{s.E_1.name} → {s.E_2.name}', 'name of a component')
                for z in s.subtransitions():
                    check_one(z, first)
                    if first:
                        equal(z.name, f'{z.E_1.name} → {z.E_2.name}', 'name of a Zeeman component')

    for (i, dj), A in zip(case['pairs'], case['A']):
        j = (i + dj) % len(specs)
        if frozenset((i, j)) in seen:
            continue
        seen.add(frozenset((i, j)))
        kw = {} if A is None else {'A': Q_(float(A), case['Au'])}
        if case['name']:
            kw['name'] = case['name']
        how = 'object' if free else case.get('how', 'object')
        if how == 'object':
            t = Transition(lvs[i], lvs[j], **kw)
            if a is not None:
                same(a.add_transition(t), t, 'add_transition')
        else:
            t = a.add_transition((lvs[i].name, lvs[j].name) if how == 'names' else (lvs[i], lvs[j]), **kw)
            same(a.transitions[lvs[i].name, lvs[j].name], t, 'transition of two levels')
        same(t.E_1, lvs[i], 'E_1'), same(t.E_2, lvs[j], 'E_2')
        equal(t.name, case['name'] or f'{gen.name_of(specs[i])} → {gen.name_of(specs[j])}', 'name')
        equal(str(t), t.name, 'str')
        if A is None:
            equal(t.A, None, 'A')
        else:
            near(t.A.magnitude, A * A_UNITS[case['Au']], 'A in hertz', 1e-9, 1e-9)
            equal(str(t.A.units), 'hertz', 'unit of A')
        made.append((t, A))
    everything(True)
    for what, i, v in case['edits']:
        t, lv = specs[i % len(specs)], lvs[i % len(specs)]
        if what == 'E':
            t['E'] += v
            lv.level = Q_(float(t['E']), 'GHz')
        elif what == 'apart':  # both ends of a transition by opposite amounts
            for e, s in zip((made[i % len(made)][0].E_1, made[i % len(made)][0].E_2), (1, -1)):
                specs[index[e.name]]['E'] += s * v
                e.level = Q_(float(specs[index[e.name]]['E']), 'GHz')
        elif what in 'ABC':
            t[what] = v
            setattr(lv, 'hf' + what, Q_(float(v), 'MHz'))
        elif what == 'field' and a is not None:
            B = float(abs(v))
            a.B = Q_(B, 'G')
        elif what == 'sub' and a is not None:
            s = lv.sublevels()[-1]
            s.level = Q_(gen.E_hf(I, t, s.term.F) + v * 1e9, 'Hz')
            t['E'] += v
        elif what == 'tune' and a is not None:  # the levels are where the atom puts them, and can be moved away again
            made[i % len(made)][0].freq = Q_(float(abs(v)), 'THz')
            for t, lv in zip(specs, lvs):
                t['E'] = lv.level_Hz / 1e9
        labels.add('edit-' + what)
        everything()
    if free:
        labels.add('free')
    elif not any(t.subtransitions() for t, _ in made):
        labels.add('trivial')
    return sorted(labels)


SUBS = [Sub('attributes', cases, check, quick=90,
            rule='random atoms (some with overlapping manifolds) or free levels, 1-3 transitions in either order, A in seven units, then 1-4 edits of levels, coefficients, frequencies and field, all components looked at after each; non-trivial: some transition has components, or the levels are in no atom')]
