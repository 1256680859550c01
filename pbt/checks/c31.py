import math

from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, near, equal, raises

I_UNITS = {'W/m**2': 1.0, 'mW/cm**2': 10.0, 'W/cm**2': 1e4, 'uW/mm**2': 1.0, 'kW/m**2': 1e3, 'erg/s/cm**2': 1e-3}
comp = st.integers(-1000, 1000).map(lambda x: x / 100)

NORMS = [1 + 4e-7, 1 - 4e-7, 1 + 7e-7, 1 - 8e-7, 1 + 2e-6, 1 - 2e-6, 1.01, 0.0, 0.5, 1e-9, 1.4142135623730951, -1.0, 2.0, 1e6]


def grid():
    for norm in NORMS:
        for re, im in (([0.0, 0.0, 1.0], None), ([1.0, 0.0, 0.0], [0.0, 1.0, 0.0]), ([1.0, 2.0, -3.0], None), ([0.0, 1.0, 0.0], [2.0, 0.0, -1.0])):
            yield {'re': re, 'im': im, 'norm': norm, 'I': 1.5, 'u': 'W/cm**2', 'u2': 'W/m**2', 'k': [1.0, 2.0, 3.0], 'default': False}


def cases():
    return st.fixed_dictionaries({
        're': st.lists(comp | st.sampled_from([1e-3, -1e-4]), min_size=3, max_size=3), 'im': st.none() | st.lists(comp, min_size=3, max_size=3),
        'norm': st.sampled_from([1.0] * 12 + NORMS),
        'I': st.integers(0, 10 ** 6).map(lambda x: x / 1000) | st.integers(3, 9).map(lambda x: 3.0 * 10 ** x) | st.integers(-12, 2).map(lambda x: 3.14159265 * 10.0 ** x), 'u': st.sampled_from(sorted(I_UNITS)), 'u2': st.sampled_from(sorted(I_UNITS)),
        'k': st.lists(comp, min_size=3, max_size=3), 'default': st.integers(0, 9).map(lambda x: x == 0)})


def check(case):
    import numpy as np
    from atomtoolkit import Q_
    from atomtoolkit.environment import LightField
    v = np.array(case['re'])
    if case['im'] is not None:
        v = v + 1j * np.array(case['im'])
    n = math.sqrt(sum(abs(x) ** 2 for x in v))
    if n < 0.1:
        v, n = np.array([0.0, 0.0, 1.0]), 1.0
    v = v / n * case['norm']
    SI = case['I'] * I_UNITS[case['u']]
    inten = Q_(case['I'], case['u'])
    k = np.array(case['k'])
    k = k / (math.sqrt(sum(x * x for x in k)) or 1.0)
    if case['default']:
        v = np.array([0.0, 0.0, 1.0])
        f = LightField(k, inten)
    elif abs(abs(case['norm']) - 1) < 1e-6:
        given = v.copy(), k.copy()
        f = LightField(k, inten, v)
    else:
        raises(AssertionError, lambda: LightField(k, inten, v), f'polarization of norm {abs(case["norm"])}')
        return ['rejected']

    def fields(f, SI):
        amp = math.sqrt(2 * SI / (ref.C_LIGHT * ref.EPS0))
        E = f.E().to('V/m').magnitude
        equal(len(E), 3, 'components of the field')
        for i in range(3):
            near(abs(E[i] - v[i] * amp), 0, f'component {i} of the field {E}', 1e-6 * amp + 1e-30)
        near(sum(abs(x) ** 2 for x in E), amp ** 2, 'squared magnitude of the field', 1e-5 * amp ** 2)
        B = f.B().to('T').magnitude
        want = np.cross(k, v) * amp / ref.C_LIGHT
        for i in range(3):
            near(abs(B[i] - want[i]), 0, f'component {i} of the magnetic field {B}', 1e-6 * amp / ref.C_LIGHT + 1e-15)

    fields(f, SI)
    fields(f, SI)
    if not case['default']:
        need((v == given[0]).all() and (k == given[1]).all(), 'the vectors that were passed in have changed')
    SI2 = SI * 4
    f.intensity = Q_(SI2 / I_UNITS[case['u2']], case['u2'])
    fields(f, SI2)
    return ['complex' if case['im'] is not None else 'real'] + (['trivial'] if SI == 0 or case['default'] else [])


SUBS = [Sub('fields', cases, check, quick=800, cases=grid, thorough=20000, rule='a grid of lengths near and far from 1, then real and complex vectors of norm 1 or not, six units of intensity; non-trivial: non-default polarization and non-zero intensity')]
