import csv
import os

from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, near, equal

COEF = st.one_of(st.just(0.0), st.integers(-4000, 4000).map(float), st.floats(-1e4, 1e4, allow_nan=False).map(lambda x: float(f'{x:.12g}') if abs(x) > 1e-9 else 0.0))


@st.composite
def cases(draw):
    spec = draw(gen.atom_specs(1, 6, 'LS LS JJ JK LK', hf=False, more=30))
    n = len(spec['levels'])
    bare = [t for t in spec['levels'] if '[' not in t['t'] and '(' not in t['t']]
    if bare and draw(st.integers(0, 5)) == 0:  # a level without a configuration
        bare[0]['c'] = ''
    return {'spec': spec, 'coef': [[draw(COEF) for _ in range(3)] for _ in range(n)], 'unit': draw(st.sampled_from(['Hz', 'MHz', 'GHz'])),
            'here': [draw(st.sampled_from([True, True, True, False])) for _ in range(n)], 'extra': draw(st.integers(0, 2)),
            'other': [[draw(st.integers(-50, 50)) for _ in range(3)] for _ in range(n + 2)],
            'blank': draw(st.integers(0, 3)) == 0, 'defA': draw(st.sampled_from([None, None, 1.25, -3.0])), 'file': draw(st.booleans()),
            'twice': draw(st.booleans())}


def check(case):
    from atomtoolkit import Q_
    from atomtoolkit.atom import Atom
    from atomtoolkit import IO
    u = case['unit']
    k = {'Hz': 1.0, 'MHz': 1e6, 'GHz': 1e9}[u]
    specs = case['spec']['levels']
    a = Atom('Yb_II', I=case['spec']['I'])
    for t, c in zip(specs, case['coef']):
        a.add_level(gen.mk_level(t, **{'hf' + x: Q_(v, u) for x, v in zip('ABC', c)}))
    before = gen.snapshot(a, False)
    kw = {} if case['defA'] is None else {'def_A': Q_(case['defA'], 'GHz')}
    path = os.path.join(os.getcwd(), 'hf.csv' if case['file'] else 'Yb_II_Hyperfine.csv')
    if case['file']:
        IO.generate_hf_csv(a, path, blank=case['blank'], **kw)
    else:
        IO.generate_hf_csv(a, blank=case['blank'], **kw)
    need(os.path.exists(path), f'{path} was not written')
    need(gen.diff(before, gen.snapshot(a, False)) is None, 'writing the file changed the atom')
    want = {}
    for t, c in zip(specs, case['coef']):
        v = [0.0, 0.0, 0.0] if case['blank'] else [x * k for x in c]
        if not case['blank'] and v[0] == 0 and case['defA'] is not None:
            v[0] = case['defA'] * 1e9
        want[gen.name_of(t)] = v
    with open(path, newline='', encoding='utf-8') as f:
        rows = list(csv.reader(f))
    equal(sorted(r[0] for r in rows), sorted(want), 'rows of the file')
    for r in rows:
        for x, v, c in zip(r[1:], want[r[0]], 'ABC'):
            near(Q_(x).to('Hz').magnitude, v, f'{c} written for {r[0]}', 1e-6, 1e-12)
    # another atom with some of the levels and some others
    b = Atom('other', I=case['spec']['I'])
    more = [{'c': f'9s.{i}p', 't': '3P*', 'J': '1' if case['spec']['I'] % 1 == 0 else '2', 'E': 1000 * i, 'g': 1.5} for i in range(case['extra'])]
    here = [t for t, h in zip(specs, case['here']) if h] + more
    own = {}
    for t, c in zip(here, case['other']):
        b.add_level(gen.mk_level(t, **{'hf' + x: Q_(float(v), 'MHz') for x, v in zip('ABC', c)}))
        own[gen.name_of(t)] = [x * 1e6 for x in c]
    for _ in range(2 if case['twice'] else 1):
        IO.apply_hf_csv(b, path)
        equal(sorted(b.levels.keys()), sorted(own), 'levels of the other atom')
        for t in here:
            nm = gen.name_of(t)
            for x, v in zip('ABC', want.get(nm, own[nm])):
                near(getattr(b.levels[nm], 'hf' + x).to('Hz').magnitude, v, f'hf{x} of {nm}', 1e-6, 1e-12)
    os.remove(path)
    labels = ['blank'] if case['blank'] else []
    if more or not all(case['here']):
        labels.append('partial')
    if not any(map(any, case['coef'])) or not any(case['here']):
        labels.append('trivial')
    return labels


SUBS = [Sub('files', cases, check, quick=870,
            rule='atoms of 1-6 levels with coefficients in three units (zeros included), blank files, default A, applied to atoms with other sets of levels; non-trivial: some coefficient non-zero and some level shared')]
