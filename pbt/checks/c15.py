from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, near, same, equal, frac


@st.composite
def cases(draw):
    rows = draw(gen.table_rows(1, 8, more=30, three=draw(st.integers(0, 2)) == 0))
    for r in rows:  # the second component may be the larger one
        if r['two'] and draw(st.integers(0, 4)) == 0:
            r['p'], r['p2'] = r['p2'], r['p']
        elif r['two'] and draw(st.integers(0, 4)) == 0:
            r['p2'] = draw(st.sampled_from([0.0, r['p']]))
    plain = [r for r in rows if r['k'] in ('LS', 'unknown')]
    if plain and draw(st.integers(0, 4)) == 0:
        plain[draw(st.integers(0, len(plain) - 1))]['c'] = ''  # listings have levels of which the configuration is not known
    dup = draw(st.none() | st.integers(0, len(rows) - 1)) if draw(st.integers(0, 3)) == 0 else None
    if dup is not None:
        rows.append(dict(rows[dup], E=rows[dup]['E'] + 7.5))
    return {'rows': rows, 'num': draw(st.none() | st.integers(0, len(rows) + 2)), 'I': draw(gen.spins), 'Istr': draw(st.booleans()),
            'B': draw(st.none() | st.integers(1, 500)), 'name': draw(st.sampled_from(['Yb II', 'x'])), 'nan': draw(st.booleans()), 'cols': draw(st.integers(0, 20)),
            'index': draw(st.sampled_from(['plain', 'plain', 'shifted', 'labels', 'shuffled', 'filtered']))}


def lead(r):
    """the components of a row, the largest one first"""
    parts = [(dict(r, p=None), r['p'])] + ([(dict(r['two'], J=r['J']), r['p2'])] if r['two'] else [])
    parts += [(dict(r['three'], J=r['J']), r['p3'])] if r.get('three') else []
    return sorted(parts, key=lambda x: -x[1])


def check(case):
    from atomtoolkit import Q_
    from atomtoolkit.atom import Atom
    from atomtoolkit.term import Term
    rows = case['rows']
    df = gen.mk_table(rows)
    if case['nan']:  # pandas may represent a missing configuration as NaN
        df['Configuration_2'] = df['Configuration_2'].where(df['Configuration_2'].notna(), float('nan'))
    df = gen.reindex(df, case['index'])
    kw = {}
    if case['num'] is not None:
        kw['num_levels'] = case['num']
    if case['B'] is not None:
        kw['B'] = Q_(float(case['B']), 'G')
    if case['I'] != 0 or case['Istr']:
        kw['I'] = frac(case['I']) if case['Istr'] else case['I']
    # the order of the columns says nothing, except that the components of a level are numbered
    cols = list(df.columns)
    firsts = [c for c in cols if c[-2:] not in ('_2', '_3')]
    k = case['cols'] % len(firsts)
    df = df[firsts[k:] + firsts[:k] + [c for c in cols if c.endswith('_2')] + [c for c in cols if c.endswith('_3')]]
    copy = df.copy(deep=True)
    a = Atom.from_dataframe(df, case['name'], **kw)
    need(str(df) == str(copy), 'the table changed')
    equal((a.name, a.I), (case['name'], case['I']), 'name and spin')
    near(a.B.to('G').magnitude, case['B'] or 0, 'field', 1e-9)
    used = rows[:case['num']] if case['num'] is not None else rows
    by_name = {}
    for r in used:
        by_name.setdefault(gen.name_of(lead(r)[0][0]), []).append(r)
    equal(sorted(a.levels.keys()), sorted(by_name), 'levels of the atom')
    labels = {case['index']}
    for nm, rs in by_name.items():
        lv = a.levels[nm]
        if len(rs) > 1:
            need(any(abs(lv.level_Hz - r['E'] * 100 * ref.C_LIGHT) < 4 for r in rs), f'energy of {nm}')
            labels.add('duplicate')
            continue
        r = rs[0]
        near(lv.level_Hz, r['E'] * 100 * ref.C_LIGHT, f'energy of {nm}', 4.0)
        tm = lv.term
        (r1, p1), *rest = mix = lead(r)
        equal((tm.conf, tm.term, tm.J, tm.F, tm.mF), (r1['c'], r1['t'], gen.J_of(r), None, None), f'term of {nm}')
        near(tm.percentage, p1, 'percentage', 0)
        t1, i = Term.from_dataframe(df, rows.index(r)), rows.index(r)
        equal((t1.conf, t1.term, t1.J, t1.F, t1.mF, t1.percentage), (r['c'], r['t'], gen.J_of(r), None, None, r['p']), f'first component of row {i} as a term')
        equal(len(tm), len(mix), f'number of components of {nm}')
        for k, (r2, p2) in enumerate(rest, 1):
            t2 = tm[k]
            equal((t2.conf, t2.term, t2.J), (r2['c'], r2['t'], gen.J_of(r)), f'component {k} of {nm}')
            near(t2.percentage, p2, f'percentage of component {k}', 0)
            labels.add('three' if k > 1 else 'two' if r['p2'] <= r['p'] else 'second leads')
        if r['g'] is not None:
            near(lv.lande, r['g'], f'g-value of {nm}', 0)
        else:
            near(lv.lande, gen.estimate_g(mix), f'estimated g-value of {nm}', 1e-9)
            labels.add('estimated')
        for k in ('hfA', 'hfB', 'hfC'):
            near(getattr(lv, k).to('Hz').magnitude, 0, k, 0)
        equal(len(lv), len(ref.jrange(case['I'], gen.J_of(r))), 'sublevels')
    equal(len(a.transitions), 0, 'transitions')
    if len(used) < 2:
        labels.add('trivial')
    return sorted(labels)


SUBS = [Sub('tables', cases, check, quick=290,
            rule='tables of 1-8 and sometimes up to 38 rows (all couplings, missing g-values and second components, duplicate names), num_levels below, at and above the length; non-trivial: at least two rows used')]
