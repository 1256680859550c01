from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import near, frac

COEF = st.integers(-10 ** 10, 10 ** 10) | st.sampled_from([0, 0, 1, 10 ** 9]) | st.integers(-1000, 1000)


@st.composite
def cases(draw):
    I = draw(gen.spins)
    t = draw(gen.ls_term(0, J=draw(st.sampled_from(gen.HALF_J))))
    t['g'], t['E'] = 1.2, draw(st.integers(-10 ** 5, 10 ** 6))
    return {'I': I, 't': t, 'A': draw(COEF), 'B': draw(COEF), 'C': draw(COEF),
            'edits': draw(st.lists(st.tuples(st.sampled_from(['A', 'B', 'C', 'E']), COEF), max_size=4)),
            'unit': draw(st.sampled_from(['Hz', 'MHz', 'GHz', 'cm**-1']))}


def grid():
    for I2 in range(10):
        for J2 in range(10):
            for abc in ((10 ** 9, 0, 0), (0, 10 ** 9, 0), (0, 0, 10 ** 9)):
                yield {'I': I2 / 2, 't': {'c': '4f14.6s', 't': f'{J2 + 1}S', 'J': frac(J2 / 2), 'E': 5, 'g': 1.1},
                       'A': abc[0], 'B': abc[1], 'C': abc[2], 'edits': [], 'unit': 'Hz'}


def check(case):
    from atomtoolkit import Q_
    from atomtoolkit.atom import Atom, EnergyLevel
    I, t, u = case['I'], case['t'], case['unit']
    J = gen.J_of(t)
    cur = {k: case[k] for k in 'ABC'}
    cur['E'] = t['E'] * 1e9
    a = Atom('X', I=I)
    lv = a.add_level(EnergyLevel(gen.mk_term(t), Q_(t['E'], 'GHz'), lande=t['g'],
                                 **{'hf' + k: Q_(ref.from_hz(cur[k], u), u) for k in 'ABC'}))

    def verify():
        scale = sum(abs(cur[k]) for k in 'ABC')
        tol = 2.0 + 1e-9 * scale
        mean = 0.0
        for F in ref.jrange(I, J):
            s = lv[f'F={frac(F)}']
            want = ref.hf_shift(I, J, F, cur['A'], cur['B'], cur['C'])
            near(s.shift_Hz, want, f'shift of F={F}', tol)
            near(s.shift.to('Hz').magnitude, want, 'shift as quantity', tol)
            near(s.level_Hz, cur['E'] + want, 'level_Hz', tol)
            near(s.level.to('Hz').magnitude, cur['E'] + want, 'level', tol)
            mean += (2 * F + 1) * s.shift_Hz
        near(mean, 0.0, 'barycentre', tol * (2 * I + 1) * (2 * J + 1) * 10)
        top = lv[f'F={frac(I + J)}']
        st_want = cur['A'] * I * J + (cur['B'] / 4 if I >= 1 and J >= 1 else 0) + (cur['C'] if I >= 1.5 and J >= 1.5 else 0)
        near(top.shift_Hz, st_want, 'stretched state', tol)
        for k in 'ABC':
            near(getattr(lv, 'hf' + k).to('Hz').magnitude, cur[k], 'hf' + k, 1e-3 + 1e-9 * abs(cur[k]))

    verify()
    for k, v in case['edits']:
        if k == 'E':
            cur['E'] = float(v)
            lv.level = Q_(v, 'Hz')
        else:
            cur[k] = v
            setattr(lv, 'hf' + k, Q_(ref.from_hz(v, u), u))
        verify()
    labels = [f'edits{len(case["edits"])}']
    if I >= 1 and J >= 1 and cur['B']:
        labels.append('quadrupole')
    if I >= 1.5 and J >= 1.5 and cur['C']:
        labels.append('octupole')
    if I == 0 or J == 0:
        labels.append('trivial')
    return labels


SUBS = [Sub('shifts', cases, check, quick=1600, cases=grid,
            rule='all (I,J) up to 9/2 with A, B or C alone, then random coefficients in random units with edits; non-trivial: I and J both non-zero')]
