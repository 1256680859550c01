from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import near, frac

UNIT = {'gauss': 1.0, 'G': 1.0, 'kG': 1e3, 'mG': 1e-3, 'microgauss': 1e-6, 'nanogauss': 1e-9}


@st.composite
def cases(draw):
    spec = draw(gen.atom_specs(1, 3, 'LS', I=gen.spins))
    fields = draw(st.lists(st.tuples(st.integers(-5000, 5000), st.sampled_from(sorted(UNIT))), min_size=1, max_size=4))
    quad = draw(st.lists(st.tuples(st.integers(0, 99), st.integers(0, 99), st.integers(0, 99), st.integers(-1000, 1000)), max_size=3))
    return {'spec': spec, 'fields': fields, 'quad': quad, 'est': draw(st.booleans())}


def grid():
    """every I up to 9/2 and J up to 13/2"""
    for I2 in range(10):
        for J2 in range(14):
            L, S2 = (J2 + 1) // 2, J2 % 2
            t = {'c': '4f14.6s', 't': f'{S2 + 1}{ref.LETTERS[L]}', 'J': frac(J2 / 2), 'k': 'LS', 'odd': False, 'q': {'l': L, 's': S2 / 2},
                 'E': 1000, 'g': 1.25 - I2 / 8, 'A': 300, 'B': -20, 'C': 1}
            yield {'spec': {'I': I2 / 2, 'B': 7 * J2 - 40, 'levels': [t]}, 'fields': [[I2 - J2, 'G']], 'quad': [], 'est': False}


def check(case):
    from atomtoolkit import Q_
    from atomtoolkit.atom import Atom
    spec = case['spec']
    I, specs = spec['I'], [dict(t) for t in spec['levels']]
    if case['est']:  # estimated g-values
        for t in specs:
            J, q = gen.J_of(t), t['q']
            t['g'] = None
    a = Atom('X', I=I, B=Q_(spec['B'], 'G'))
    lvs = [a.add_level(gen.mk_level(t)) for t in specs]
    if case['est']:
        for t in specs:
            J, q = gen.J_of(t), t['q']
            t['g'] = ref.g_LS(J, q['l'], q['s']) if J else 0.0
    quad, B = {}, float(spec['B'])

    def verify():
        for t, lv in zip(specs, lvs):
            J = gen.J_of(t)
            for F in ref.jrange(I, J):
                hf = lv[f'F={frac(F)}']
                gF = ref.g_F(t['g'], I, J, F)
                near(hf.gF, gF, f'gF of F={F}', 1e-9)
                tot = 0.0
                for m in ref.mrange(F):
                    z = hf[f'mF={frac(m)}']
                    near(z.gF, gF, f'gF of F={F} mF={m}', 1e-9)
                    q = quad.get(z.name, 0.0)
                    want = gF * m * ref.MU_B_HZ_G * B + q * B * B
                    tol = 2.0 + 1e-9 * abs(want)
                    parts = abs(gF * m * ref.MU_B_HZ_G * B) + abs(q * B * B)
                    near(z.shift_Hz, want, f'shift of {z.name} at {B} G', 1e-9 * parts)
                    near(z.shift.to('Hz').magnitude, want, 'shift as quantity', 1e-9 * parts)
                    near(z.level_Hz, hf.level_Hz + want, 'level_Hz', tol)
                    near(z.level.to('Hz').magnitude, hf.level_Hz + want, 'level', tol)
                    tot += z.shift_Hz - q * B * B
                near(tot, 0.0, 'sum of linear shifts', 2.0 + 1e-6 * abs(gF * B) * ref.MU_B_HZ_G)

    verify()
    for i, j, k, v in case['quad']:
        lv = lvs[i % len(lvs)]
        subs = lv.sublevels()
        zs = subs[j % len(subs)].sublevels()
        z = zs[k % len(zs)]
        z.quadratic_zeeman = float(v)
        quad[z.name] = float(v)
    for v, u in case['fields']:
        a.B = Q_(float(v), u)
        B = v * UNIT[u]
        near(a.B.to('gauss').magnitude, B, 'field', 1e-9 * abs(B))
        verify()
    a.B = Q_(0.0, 'kG')
    B = 0.0
    verify()
    for lv in lvs:
        for hf in lv.sublevels():
            for z in hf.sublevels():
                near(z.level_Hz, hf.level_Hz, 'zero field')
    labels = ['quadratic'] if quad else []
    if I > 0:
        labels.append('I>0')
    if all(gen.J_of(t) == 0 or t['g'] == 0 for t in specs):
        labels.append('trivial')
    return labels


SUBS = [Sub('fields', cases, check, quick=200, cases=grid,
            rule='every I up to 9/2 and J up to 13/2, then random atoms (I, J up to 9/2) with given or estimated g-values, 1-4 field settings in six units, down to picogauss, quadratic coefficients; non-trivial: some level has a magnetic moment')]
