from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, near, equal

LINEAR = ['Hz', 'kHz', 'MHz', 'GHz', 'THz', 'cm**-1', 'eV', 'J']
ALL = LINEAR + ['nm', 'um']
FIELD = {'G': 1.0, 'mG': 1e-3, 'kG': 1e3, 'uG': 1e-6, 'gauss': 1.0, 'MG': 1e6}
RATE = {'cm**-1': ref.C_LIGHT * 100, 'eV': ref.E_CHARGE / ref.H_PLANCK, 'Hz': 1.0, 'kHz': 1e3, 'MHz': 1e6, 'GHz': 1e9, '1/s': 1.0, '1/us': 1e6, 'ms**-1': 1e3}
how = st.tuples(st.sampled_from(['init', 'set']), st.sampled_from(ALL), st.sampled_from(['Q_', 'text', 'product']))


@st.composite
def cases(draw):
    spec = draw(gen.atom_specs(2, 4, 'LS', max_J=2.5, I=st.sampled_from([0.0, 0.5, 0.5, 1.0, 1.5])))
    n = len(spec['levels'])
    for t in spec['levels']:
        if draw(st.integers(0, 3)) == 0:
            t['A'], t['B'], t['C'] = draw(st.sampled_from([(0, 0, 0), (t['A'], 0, 0), (0, t['B'], t['C'])]))
    return {'spec': spec, 'hows': [[list(draw(how)) for _ in range(4)] for _ in range(n)], 'q': [draw(st.integers(-2000, 2000)) for _ in range(n)],
            'links': [draw(st.integers(0, i - 1)) for i in range(1, n)],
            'lines': [[draw(st.none() | st.integers(0, 5000)), draw(st.sampled_from(sorted(RATE))), draw(st.none() | st.integers(500, 10 ** 6)),
                       list(draw(how))] for _ in range(n - 1)],
            'field': [draw(st.sampled_from(sorted(FIELD))), draw(st.booleans())], 'eager': draw(st.booleans()),
            'ops': [list(o) for o in draw(st.lists(st.tuples(st.sampled_from(['level', 'sub', 'line', 'comp', 'field', 'A', 'B', 'C']), st.integers(0, 9), st.integers(0, 9),
                                                             st.integers(1, 90000), st.sampled_from(ALL), st.sampled_from(sorted(FIELD))), max_size=4))]}


def quantity(hz, unit, style='Q_'):
    from atomtoolkit import Q_, ureg
    if hz == 0 and unit in ('nm', 'um'):
        unit = 'cm**-1'  # no wavelength stands for zero
    x = ref.from_hz(hz, unit)
    if style == 'text':
        return Q_(f'{x!r} {unit}')
    if style == 'product':
        return x * ureg(unit)
    return Q_(x, unit)


def build(case, plain):
    """the atom of the case, with every quantity in hertz or gauss, or in the units of the case"""
    from atomtoolkit import Q_
    from atomtoolkit.atom import Atom, EnergyLevel, Transition
    spec = case['spec']
    u, later = case['field']
    field = Q_(float(spec['B']), 'gauss') if plain else Q_(spec['B'] / FIELD[u], u)
    a = Atom('X', I=spec['I']) if later and not plain else Atom('X', I=spec['I'], B=field)
    lvs = []
    for t, hows in zip(spec['levels'], case['hows']):
        vals = dict(level=t['E'] * 1e9, hfA=t['A'] * 1e6, hfB=t['B'] * 1e6, hfC=t['C'] * 1e6)
        init, after = {}, {}
        for (k, v), (mode, unit, style) in zip(vals.items(), hows):
            if plain:
                mode, unit, style = 'init', 'Hz', 'Q_'
            if k != 'level' and unit in ('nm', 'um'):  # may be negative
                unit = 'eV'
            (init if mode == 'init' else after)[k] = quantity(v, unit, style)
        lv = EnergyLevel(gen.mk_term(t), init.pop('level', Q_(17.0, 'THz')), lande=t['g'], **init)
        a.add_level(lv, populate_sublevels=case['eager'])
        for k, v in after.items():
            setattr(lv, k, v)
        lvs.append(lv)
    if later and not plain:
        a.B = field
    ts = []
    for i, (k, (A, rate, f, (mode, unit, style))) in enumerate(zip(case['links'], case['lines']), 1):
        kw = {}
        if f is not None:
            f += 0.0017 * 2 ** i  # no level ends up at zero, where rounding would be all of its energy
        if A is not None:
            kw['A'] = Q_(A * 1e3, 'Hz') if plain else Q_(A * 1e3 / RATE[rate], rate)
        if f is not None and (plain or mode == 'init'):
            kw['freq'] = Q_(f * 1e9, 'Hz') if plain else quantity(f * 1e9, unit, style)
        t = a.add_transition(Transition(lvs[k], lvs[i], **kw))
        if f is not None and not plain and mode == 'set':
            t.freq = quantity(f * 1e9, unit, style)
        ts.append(t)
    return a, lvs, ts


def edit(op, atoms, k):
    """the same edit in different units"""
    from atomtoolkit import Q_
    kind, i, j, v, unit, fu = op
    v += 0.013 * (k + 1)  # no two levels coincide, so that rounding cannot swap them
    for plain, (a, lvs, ts) in zip((True, False), atoms):
        q = quantity(v * 1e9, 'Hz' if plain else unit)
        lv, t = lvs[i % len(lvs)], ts[i % len(ts)]
        if kind == 'level':
            lv.level = q
        elif kind == 'sub':
            lv.sublevels()[j % len(lv)].level = q
        elif kind == 'line':
            t.set_frequency(q)
        elif kind == 'comp':
            if t.subtransitions():
                t.subtransitions()[j % len(t)].freq = q
        elif kind == 'field':
            a.B = Q_(v / 100, 'gauss') if plain else Q_(v / 100 / FIELD[fu], fu)
        else:
            h = (v - 45000) * 1e5
            setattr(lv, 'hf' + kind, quantity(h, 'Hz' if plain else 'eV' if unit in ('nm', 'um') else unit))


def check(case):
    one, two = build(case, True), build(case, False)

    def compare(what):
        small = (2 * case['spec']['I'] + 1) * sum(2 * gen.J_of(t) + 1 for t in case['spec']['levels']) < 30
        d = gen.diff(gen.snapshot(one[0], small), gen.snapshot(two[0], small), atol=6.0)
        need(d is None, f'{what}: in hertz / in other units: {d}')

    compare('as built')
    for k, op in enumerate(case['ops']):
        edit(op, (one, two), k)
        compare(str(op[0]))
    a, lvs, ts = two
    # read back in every unit
    for lv in lvs:
        for s in [lv, *lv.sublevels()[:2], *lv.sublevels()[0].sublevels()[:1]]:
            for unit in LINEAR:
                near(s.level.to(unit).magnitude, ref.from_hz(s.level_Hz, unit), f'level in {unit}', 1e-40, 1e-11)
                near(s.shift.to(unit).magnitude, ref.from_hz(s.shift_Hz, unit), f'shift in {unit}', 1e-40, 1e-11)
            if s.level_Hz > 0:
                for unit in ('nm', 'um'):
                    near(s.level.to(unit).magnitude, ref.from_hz(s.level_Hz, unit), f'level in {unit}', 1e-40, 1e-11)
        for x in 'ABC':
            hz = getattr(lv, f'hf{x}_Hz')
            for unit in LINEAR:
                near(getattr(lv, 'hf' + x).to(unit).magnitude, ref.from_hz(hz, unit), f'{x} in {unit}', 1e-40, 1e-11)
    for fu, k in FIELD.items():
        near(a.B.to(fu).magnitude, a.B_gauss / k, f'field in {fu}', 1e-12, 1e-11)
    for t in ts:
        f = abs(t.E_1.level_Hz - t.E_2.level_Hz)
        near(t.freq_Hz, f, 'freq_Hz', 0)
        for unit in ALL if f else LINEAR:
            near(t.freq.to(unit).magnitude, ref.from_hz(f, unit), f'frequency in {unit}', 1e-40, 1e-11)
        if f:
            near(t.wl.to('nm').magnitude, ref.from_hz(f, 'nm'), 'wavelength', 1e-40, 1e-11)
            near(t.wl.to('THz').magnitude, f / 1e12, 'wavelength in THz', 1e-40, 1e-11)
        if t.A is not None:
            for u, k in RATE.items():
                near(t.A.to(u).magnitude, t.A.to('Hz').magnitude / k, f'A in {u}', 1e-40, 1e-11)
    units = {h[1] for hs in case['hows'] for h in hs}
    return sorted(units) + (['edits'] if case['ops'] else []) + (['trivial'] if len(units) < 3 else [])


@st.composite
def file_cases(draw):
    specs = draw(gen.atom_specs(2, 5, 'LS', max_J=2.5))['levels']
    n = len(specs)
    unit = st.sampled_from(LINEAR)
    return {'specs': specs, 'coef': [[[draw(st.integers(-5000, 5000) | st.just(0)), draw(unit)] for _ in 'ABC'] for _ in range(n)],
            'E': [draw(st.sampled_from(ALL)) for _ in range(n)], 'links': [draw(st.integers(0, i - 1)) for i in range(1, n)],
            'lines': [[draw(st.none() | st.integers(0, 5000)), draw(st.sampled_from(sorted(RATE))), draw(st.none() | st.integers(500, 10 ** 6)), draw(st.sampled_from(ALL))]
                      for _ in range(n - 1)], 'field': [draw(st.integers(0, 5000)), draw(st.sampled_from(sorted(FIELD)))], 'style': draw(st.booleans())}


def check_files(case):
    """tables whose cells are quantities in any unit, and coefficient files in any unit"""
    import csv
    import os
    import shutil
    import tempfile
    import pandas as pd
    from atomtoolkit import IO, Q_
    from ..core import SCRATCH
    specs, tmp, atoms = case['specs'], tempfile.mkdtemp(dir=SCRATCH), []
    try:
        for plain in (True, False):
            with open(os.path.join(tmp, 'hf.csv'), 'w', newline='', encoding='utf-8') as f:
                for t, cs in zip(specs, case['coef']):
                    cells = []
                    for v, u in cs:
                        x = ref.from_hz(v * 1e6, 'Hz' if plain else u)
                        cells.append(str(Q_(x, 'Hz' if plain else u)) if case['style'] else f'{x!r} {"Hz" if plain else u}')
                    csv.writer(f).writerow([gen.name_of(t)] + cells)
            df = pd.DataFrame({'Level (cm-1)': [quantity(t['E'] * 1e9, 'Hz' if plain else u) for t, u in zip(specs, case['E'])], 'J': [t['J'] for t in specs],
                               'Lande': [t['g'] for t in specs], 'Configuration': [t['c'] for t in specs], 'Term': [t['t'] for t in specs],
                               'Percentage': [100.0 for t in specs]})
            cols = {c + x: [] for c in ('conf_', 'term_', 'j_') for x in 'lu'}
            freq, A = [], []
            for i, (k, (v, rate, f, u)) in enumerate(zip(case['links'], case['lines']), 1):
                for x, t in zip('lu', (specs[k], specs[i])):
                    for c, y in (('conf_', 'c'), ('term_', 't'), ('j_', 'J')):
                        cols[c + x].append(t[y])
                A.append(None if v is None else Q_(v * 1e3, 'Hz') if plain else Q_(v * 1e3 / RATE[rate], rate))
                freq.append(None if f is None else quantity((f + 0.0017 * 2 ** i) * 1e9, 'Hz' if plain else u))
            tab = pd.DataFrame({**cols, 'freq': pd.Series(freq, dtype=object), 'A': pd.Series(A, dtype=object)})
            v, u = case['field']
            atoms.append(IO.generate_full_from_dataframe(df, 'X', I=1.5, B=Q_(v / 100, 'gauss') if plain else Q_(v / 100 / FIELD[u], u),
                                                         hf_csv=os.path.join(tmp, 'hf.csv'), transitions_df=tab))
    finally:
        shutil.rmtree(tmp)
    for t, cs in zip(specs, case['coef']):
        lv = atoms[1].levels[gen.name_of(t)]
        for x, (v, u) in zip('ABC', cs):
            near(getattr(lv, f'hf{x}').to('Hz').magnitude, v * 1e6, f'{x} of {lv.name} in {u}', 1e-5, 1e-9)
    small = sum(2 * gen.J_of(t) + 1 for t in specs) < 9
    d = gen.diff(gen.snapshot(atoms[0], small), gen.snapshot(atoms[1], small), atol=6.0)
    need(d is None, f'tables in hertz / in other units: {d}')
    return ['lines'] * any(l[2] for l in case['lines']) + (['trivial'] if not any(v for cs in case['coef'] for v, _ in cs) else [])


def check_consts(case):
    import atomtoolkit as m
    one = {'Hz': 1.0, 'kHz': 1e3, 'MHz': 1e6, 'GHz': 1e9, 'THz': 1e12}
    v = case['mant'] * 10.0 ** case['exp']
    for n, k in one.items():
        near((v * getattr(m, n)).to('Hz').magnitude, v * k, f'{v!r} {n} in hertz', 0, 1e-12)
    near((v * m.G).to('gauss').magnitude, v, 'G', 0, 1e-12)
    near((v * m.G * m.mu_B).to('Hz').magnitude, v * ref.MU_B_HZ_G, 'mu_B of a field', 0, 1e-12)
    near((v * m.c).to('m/s').magnitude, v * ref.C_LIGHT, 'speed of light', 0, 1e-12)
    need(m.Q_(1.0, 'MHz') == m.MHz * 1.0 and m.Q_ is m.ureg.Quantity, 'Q_')
    return []


def value_cases():
    return st.fixed_dictionaries({'kind': st.sampled_from(['level', 'level', 'sub', 'hfA', 'hfB', 'hfC', 'B', 'A', 'freq', 'line']),
                                  'mant': st.integers(1, 10 ** 9 - 1), 'exp': st.integers(-12, 7), 'neg': st.booleans(), 'style': st.sampled_from(['Q_', 'text', 'product']),
                                  'unit': st.sampled_from(ALL), 'fu': st.sampled_from(sorted(FIELD)), 'rate': st.sampled_from(sorted(RATE)), 'how': st.sampled_from(['init', 'set'])})


def check_value(case):
    """one quantity of any size, the others zero, in any unit: nothing is rounded away"""
    from atomtoolkit import Q_
    from atomtoolkit.atom import Atom, EnergyLevel, Transition
    kind, unit, init = case['kind'], case['unit'], case['how'] == 'init'
    v = case['mant'] * 10.0 ** case['exp'] * (-1 if case['neg'] else 1)
    if kind in ('freq', 'line', 'A'):
        v = abs(v)
    if v < 0 and unit in ('nm', 'um') or kind.startswith('hf') and unit in ('nm', 'um'):
        unit = 'eV'
    a = Atom('X', I=1.5)
    zero = {'c': '4f', 't': '2P*', 'J': '3/2', 'E': 0, 'g': 1.0}
    if kind == 'B':
        q = Q_(v / FIELD[case['fu']], case['fu'])
        given = q.magnitude, str(q.units)
        if init:
            a = Atom('X', I=1.5, B=q)
        else:
            a.B = q
        equal((q.magnitude, str(q.units)), given, 'the quantity that was given, afterwards')
        near(a.B_gauss, v, 'field in gauss', 0, 1e-12)
        near(a.B.to('G').magnitude, v, 'field', 0, 1e-12)
        return [kind]
    q = Q_(v / RATE[case['rate']], case['rate']) if kind == 'A' else quantity(v, unit, case['style'])
    given = q.magnitude, str(q.units)
    kw = {kind: q} if kind.startswith('hf') and init else {}
    lv = a.add_level(EnergyLevel(gen.mk_term(zero), q if kind == 'level' and init else Q_(0.0, 'Hz'), lande=1.0, **kw))
    if kind == 'level' and not init:
        lv.level = q
    elif kind.startswith('hf') and not init:
        setattr(lv, kind, q)
    if kind == 'level':
        near(lv.level_Hz, v, 'level_Hz', 0, 1e-12)
        near(lv.level.to('Hz').magnitude, v, 'level', 0, 1e-12)
        for s in lv.sublevels():
            near(s.level_Hz, v, 'level_Hz of a sublevel without hyperfine structure', 0, 1e-12)
    elif kind == 'sub':
        s = lv.sublevels()[case['mant'] % len(lv)]
        s.level = q
        near(s.level_Hz, v, 'level_Hz of the sublevel', 0, 1e-12)
    elif kind.startswith('hf'):
        near(getattr(lv, kind + '_Hz'), v, kind, 0, 1e-12)
        near(getattr(lv, kind).to('Hz').magnitude, v, kind, 0, 1e-12)
        if kind != 'hfC':
            for s in lv.sublevels():
                want = ref.hf_shift(1.5, 1.5, s.term.F, v if kind == 'hfA' else 0.0, v if kind == 'hfB' else 0.0, 0.0)
                near(s.shift_Hz, want, f'shift of F={s.term.F}', 1e-12 * abs(v), 1e-12)
    else:
        other = EnergyLevel(gen.mk_term(dict(zero, c='5d', t='2D', J='5/2')), Q_(0.0, 'Hz'), lande=1.0)
        a.add_level(other)
        kw = {'A': q} if kind == 'A' else {'freq': q} if init else {}
        t = a.add_transition(Transition(lv, other, **kw))
        if kind == 'line' and not init:
            t.set_frequency(q)
        elif kind == 'freq' and not init:
            t.freq = q
        if kind == 'A':
            near(t.A.to('Hz').magnitude, v, 'A coefficient', 0, 1e-12)
        else:
            near(t.freq_Hz, v, 'frequency', 0, 1e-12)
            near(t.wl.to('m').magnitude, ref.C_LIGHT / v, 'wavelength', 0, 1e-12)
    equal((q.magnitude, str(q.units)), given, 'the quantity that was given, afterwards')
    return [kind] + (['trivial'] if unit == 'Hz' and kind not in ('B', 'A') else [])


SUBS = [Sub('constants', lambda: st.fixed_dictionaries({'mant': st.integers(1, 10 ** 9 - 1), 'exp': st.integers(-12, 7)}), check_consts, quick=20, thorough=100,
            rule='the exported units, mu_B and c times random numbers; all non-trivial'),
        Sub('files', file_cases, check_files, quick=60, thorough=1500, rule='level tables, transition tables and coefficient files whose cells are quantities in any unit; non-trivial: some coefficient is not zero'),
        Sub('values', value_cases, check_value, quick=200, rule='one quantity between 1e-12 and 1e16 in any unit, on construction or assigned later, to 12 digits; non-trivial: not in hertz'),
        Sub('units', cases, check, quick=150, thorough=4000,
            rule='atoms of 2-4 levels with lines built twice, with every quantity in hertz and in a unit of its own, on construction or assigned later, '
                 'then up to 4 edits of each in different units; non-trivial: at least three different units')]
