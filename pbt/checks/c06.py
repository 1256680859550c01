from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, near, frac


@st.composite
def cases(draw):
    spec = draw(gen.atom_specs(1, 4, 'LS LS JJ JK LK', max_J=3.5))
    ops = draw(st.lists(st.tuples(st.integers(0, 9), st.sampled_from([0, 1, 2, 2]), st.integers(0, 30), st.integers(0, 30),
                                  st.integers(-20000, 10 ** 6).filter(bool) | st.integers(-300, 300).filter(bool),
                                  st.sampled_from(ref.FREQ_UNITS), st.booleans()), min_size=1, max_size=6))
    return {'spec': spec, 'ops': [list(o) for o in ops], 'lazy': draw(st.booleans()), 'alias': draw(st.booleans()),
            'small': [draw(st.sampled_from([0, 0, 1, -1, 40, -1000, 10 ** 5])) for _ in ops],
            'linked': draw(st.booleans()), 'quad': [draw(st.sampled_from([0, 0, 1500, -700])) for _ in range(3)]}


def check(case):
    from atomtoolkit import Q_
    from atomtoolkit.atom import Transition
    spec = case['spec']
    I, specs, B = spec['I'], [dict(t) for t in spec['levels']], float(spec['B'])
    a, lvs = gen.mk_atom(spec)
    labels, moved = set(), False
    if case.get('linked') and len(lvs) > 1:   # set transitions that agree with the levels do not tie them down
        for x, y in zip(lvs, lvs[1:]):
            t = Transition(x, y)
            t.set_freq = t.freq
            a.add_transition(t)
        labels.add('linked')

    quad = {}
    for n, v in enumerate(case.get('quad', [])):  # quadratic shifts of some Zeeman sublevels
        if v:
            z = lvs[n % len(lvs)].sublevels()[n - 1 if len(lvs[n % len(lvs)]) > 1 else 0]
            z = z.sublevels()[n % len(z)]
            z.quadratic_zeeman, quad[z.name] = float(v), float(v)

    def verify():
        for t, lv in zip(specs, lvs):
            nm = gen.name_of(t)
            near(lv.level_Hz, gen.E_level(t), f'{nm} level_Hz', 4.0)
            near(lv.level.to('Hz').magnitude, gen.E_level(t), f'{nm} level', 4.0)
            for F in ref.jrange(I, gen.J_of(t)):
                want = gen.E_hf(I, t, F)
                hf = lv[f'F={frac(F)}']
                near(hf.level_Hz, want, f'{nm} F={F}', 4.0)
                near(hf.shift_Hz, want - gen.E_level(t), f'{nm} F={F} shift', 4.0)
                for m in ref.mrange(F):
                    z = hf[f'mF={frac(m)}']
                    near(z.level_Hz, gen.E_z(I, t, F, m, B, quad.get(z.name, 0.0)), f'{nm} F={F} mF={m}', 4.0)
                    near(z.level.to('Hz').magnitude, z.level_Hz, 'level', 1e-3)

    if not case['lazy']:
        verify()
    for n, (i, depth, j, k, e, unit, by_hz) in enumerate(case['ops']):
        t, lv = specs[i % len(specs)], lvs[i % len(specs)]
        F = ref.jrange(I, gen.J_of(t))
        F = F[j % len(F)]
        m = ref.mrange(F)
        m = m[k % len(m)]
        target = e * 1e9
        if depth == 0:
            obj, now = lv, gen.E_level(t)
        elif depth == 1:
            obj, now = lv[f'F={frac(F)}'], gen.E_hf(I, t, F)
        else:
            obj = lv[f'F={frac(F)}'][f'mF={frac(m)}']
            now = gen.E_z(I, t, F, m, B, quad.get(obj.name, 0.0))
        if case.get('small') and case['small'][n]:   # a small step from where it is
            target = now + case['small'][n] * 1e4
            if target == 0:
                target = 1e4
        if depth == 0 and by_hz:
            obj.level_Hz = target
        else:
            q = Q_(ref.from_hz(target, unit), unit)
            if case['alias'] and depth:
                a.levels[obj.name].level = q
            else:
                obj.level = q
            labels.add(unit)
        near(obj.level_Hz, target, f'{obj.name} set to {e} GHz in {unit}', 4.0)
        near(obj.level.to('Hz').magnitude, target, 'level', 4.0)
        moved |= abs(target - now) > 1
        t['E'] = (gen.E_level(t) + target - now) / 1e9
        verify()
        labels.add(f'depth{depth}')
    if not moved:
        labels.add('trivial')
    return sorted(labels)


@st.composite
def fine_cases(draw):
    spec = draw(gen.atom_specs(1, 3, 'LS', max_J=2.5))
    for t in spec['levels']:
        t['E'] = 0
        for k in 'ABC':
            t[k] = draw(st.sampled_from([0, 0, 1, -2]))
    return {'spec': spec, 'ops': [list(o) for o in draw(st.lists(st.tuples(
        st.integers(0, 9), st.sampled_from([0, 1, 2]), st.integers(0, 30), st.sampled_from([0.25, 1e-3, 3.7, 1234.5678, 1e5, 4321012.25]),
        st.sampled_from([u for u in ref.FREQ_UNITS]), st.booleans()), min_size=1, max_size=4))]}


def check_fine(case):
    """energies far below the usual ones are set as exactly as large ones"""
    from atomtoolkit import Q_
    spec = case['spec']
    a, lvs = gen.mk_atom(spec)
    for i, depth, j, e, unit, by_hz in case['ops']:
        x = lvs[i % len(lvs)]
        for _ in range(depth):
            x = x.sublevels()[j % len(x)]
        others = {y.name: y.level_Hz for y in lvs if y is not x.manifold}
        eps = 1e-15 * (abs(x.level_Hz) + abs(x.manifold.level_Hz))  # the rounding of where it was
        if by_hz and depth == 0:
            x.level_Hz = e
        else:
            x.level = Q_(ref.from_hz(e, unit), unit)
        scale = abs(x.level_Hz - x.manifold.level_Hz) + 1e3
        near(x.level_Hz, e, f'{x.name} set to {e} Hz in {unit}', 1e-11 * scale + eps, 1e-12)
        near(x.level.to('Hz').magnitude, e, 'level', 1e-11 * scale + eps, 1e-12)
        need(others == {y.name: y.level_Hz for y in lvs if y is not x.manifold}, 'another manifold moved')
    return []


SUBS = [Sub('fine', fine_cases, check_fine, quick=110, rule='small atoms with energies and shifts of hertz to megahertz, assigned in eight units'),
        Sub('moves', cases, check, quick=230,
            rule='random atoms (all couplings, I up to 5/2, field up to 500 G), 1-6 assignments to (sub)levels at random depth in eight units; non-trivial: something moved')]
