import contextlib
import io
import os
import shutil
import tempfile

from hypothesis import strategies as st

from .. import gen, ref
from ..core import SCRATCH, Sub
from ..gen import need, near, equal
from . import c29

COLS = ['Configuration', 'Term', 'J', 'Level (cm-1)', 'Lande', 'Percentage', 'Configuration_2', 'Term_2', 'Percentage_2',
        'Configuration_3', 'Term_3', 'Percentage_3']
HEADS = {'same': {}, 'own': {c: 'my ' + c.lower() for c in COLS},
         'swapped': {'Configuration': 'Configuration_2', 'Configuration_2': 'Configuration', 'Term': 'Term_2', 'Term_2': 'Term',
                     'Percentage': 'Percentage_2', 'Percentage_2': 'Percentage'}}
DECO = ['{}', '{}', '[{}]', '{}?', '({})', '{} / centimeter', ' {} ', '{} cm', '[{}]?', '{}+x', '{: }', '{:,}']


@st.composite
def cases(draw):
    rows = draw(gen.table_rows(1, 7, draw(st.sampled_from(['LS', 'LS LS JJ JK LK'])), more=15, three=draw(st.booleans())))
    plain = draw(st.integers(0, 2)) == 0
    bare = [r for r in rows if r['k'] in ('LS', 'unknown')]
    if bare and draw(st.integers(0, 4)) == 0:  # a level without a configuration
        bare[draw(st.integers(0, len(bare) - 1))]['c'] = ''
    for r in rows:
        if draw(st.integers(0, 3)) == 0:
            r['E'] = draw(st.sampled_from([0, 1, 10 ** 6, 1234567, 99999999, 1000])) / draw(st.sampled_from([1, 10, 1000]))
        elif draw(st.integers(0, 3)) == 0:  # as precise as listings get
            r['E'] = draw(st.integers(1, 999999)) + draw(st.integers(1, 999999)) / 10 ** 6
    return {'rows': rows, 'deco': [draw(st.sampled_from(DECO[:1] if plain else DECO)) for _ in rows],
            'ints': draw(st.integers(0, 3)) == 0, 'heads': draw(st.sampled_from(sorted(HEADS))), 'sep': draw(st.sampled_from([',', ',', ';', '\t'])),
            'order': draw(st.permutations(range(len(COLS)))), 'decl': draw(st.permutations(range(len(COLS)))),
            'two': draw(st.sampled_from([1, 2, 3, 3])), 'extra': draw(st.booleans()), 'skip': draw(st.booleans()), 'I': draw(st.sampled_from([0.0, 0.5, 1.5])),
            'again': draw(st.booleans())}


@contextlib.contextmanager
def scratch():
    tmp = tempfile.mkdtemp(dir=SCRATCH)
    try:
        yield tmp
    finally:
        shutil.rmtree(tmp)


def decorate(deco, E):
    if deco in ('{: }', '{:,}'):  # digits in groups of three
        return f'{E:,}'.replace(',', deco[2])
    return deco.format(E)


def none(x):
    import pandas as pd
    return x is None or x is pd.NA or x != x or x == ''


def check_rows(df, rows, two, what):
    equal(len(df), len(rows), f'{what}: rows')
    for i, r in enumerate(rows):
        x = {c: df[c].iloc[i] for c in df.columns}
        near(x['Level (cm-1)'].to('cm**-1').magnitude, r['E'], f'{what}: energy of row {i}', 1e-9, 1e-12)
        near(x['Level (Hz)'].to('Hz').magnitude, r['E'] * 100 * ref.C_LIGHT, f'{what}: frequency of row {i}', 1, 1e-9)
        equal((x['Configuration'], x['Term'], ref.half(str(x['J']))), (r['c'], r['t'], ref.half(r['J'])), f'{what}: row {i}')
        need(none(x['Lande']) if r['g'] is None else abs(x['Lande'] - r['g']) < 1e-9, f'{what}: g of row {i}: {x["Lande"]} instead of {r["g"]}')
        near(x['Percentage'], r['p'], f'{what}: percentage of row {i}', 1e-9)
        for k, key in ((2, 'two'), (3, 'three'))[:two - 1]:
            if r.get(key):
                equal((x[f'Configuration_{k}'], x[f'Term_{k}']), (r[key]['c'], r[key]['t']), f'{what}: component {k} of row {i}')
                near(x[f'Percentage_{k}'], r[f'p{k}'], f'{what}: percentage {k} of row {i}', 1e-9)
            else:
                need(none(x[f'Configuration_{k}']) and none(x[f'Percentage_{k}']), f'{what}: component {k} of row {i}')


def check(case):
    import csv
    from atomtoolkit import IO
    from atomtoolkit.atom import Atom
    rows, two = [dict(r) for r in case['rows']], case['two']
    if case['ints']:
        for r in rows:
            r['E'] = float(int(r['E']))
    head = lambda c: HEADS[case['heads']].get(c, c)
    out = ['_2', '_3'][two - 1:]
    used = [COLS[k] for k in case['order'] if COLS[k][-2:] not in out]
    decl = {COLS[k]: head(COLS[k]) for k in case['decl'] if COLS[k][-2:] not in out}
    want_decl = dict(decl)
    kw = {'sep': case['sep']} if case['sep'] != ',' else {}
    if case['skip']:
        kw['skiprows'] = 2
    with scratch() as tmp:
        path = os.path.join(tmp, 'levels.csv')
        with open(path, 'w', newline='', encoding='utf-8') as f:
            if case['skip']:
                f.write('levels of an atom\nfrom nowhere\n')
            w = csv.writer(f, delimiter=case['sep'])
            w.writerow([head(c) for c in used] + ['remark'] * case['extra'])
            for r, deco in zip(rows, case['deco']):
                e = decorate(deco, int(r['E']) if case['ints'] else r['E'])
                cell = {'Configuration': r['c'], 'Term': r['t'], 'J': r['J'], 'Level (cm-1)': e, 'Lande': r['g'], 'Percentage': r['p'],
                        'Configuration_2': r['two'] and r['two']['c'], 'Term_2': r['two'] and r['two']['t'], 'Percentage_2': r['two'] and r['p2']}
                for k in 'Configuration Term Percentage'.split():
                    cell[k + '_3'] = r.get('three') and {'C': r['three']['c'], 'T': r['three']['t'], 'P': r['p3']}[k[0]]
                w.writerow(['' if cell[c] is None else cell[c] for c in used] + ['x 77'] * case['extra'])
        df = IO.load_level_data(path, decl, **kw)
        equal(decl, want_decl, 'the declared columns')
        check_rows(df, rows, two, 'table read from a file')
        equal(set(df.columns), set(decl) | {'Level (Hz)'}, 'columns')
        if case['again']:  # written and read again
            df.to_csv(path)
            df = IO.load_level_data(path, columns={c: c for c in want_decl})
            check_rows(df, rows, two, 'table written and read again')
    for r in rows:
        r['two'] = r['two'] if two > 1 else None
        r['three'] = r.get('three') if two > 2 else None
    a, b = Atom.from_dataframe(df, 'A', case['I']), Atom.from_dataframe(gen.mk_table(rows), 'A', case['I'])
    d = gen.diff(gen.snapshot(a), gen.snapshot(b))
    need(not d, f'atom from the file / from the table: {d}')
    once = [r for r in rows if sum((x['c'], x['t'], x['J']) == (r['c'], r['t'], r['J']) for x in rows) == 1]
    for r in once:
        parts = [(r['p'], r['c'], r['t'])] + [(r[f'p{k}'], r[key]['c'], r[key]['t']) for k, key in ((2, 'two'), (3, 'three')) if r.get(key)]
        lv = a.levels[gen.name_of(r)] if gen.name_of(r) in a.levels.keys() else None
        need(lv is not None or max(parts)[1:] != (r['c'], r['t']), f'{gen.name_of(r)} is not in the atom')
        if lv is not None:
            equal(sorted((x.percentage, x.conf, x.term) for x in lv.term), sorted(parts), f'components of {lv.name}')
    equal(len(list(a.levels.keys())), len({(r['c'], r['t'], r['J']) for r in rows}), 'levels')
    return (['trivial'] if len(rows) < 2 else []) + ['decorated'] * any(x != '{}' for x in case['deco']) + [case['heads']]


def check_saved(case):
    """a listing that was imported and saved can be read back, and gives the same atom"""
    import pandas as pd
    from atomtoolkit import IO
    from atomtoolkit.atom import Atom
    text, real = c29.render(case), pd.read_csv
    pd.read_csv = lambda url, *args, **kw: real(io.StringIO(text) if isinstance(url, str) and url.startswith('http') else url, *args, **kw)
    try:
        with scratch() as tmp:
            path = os.path.join(tmp, 'saved.csv')
            df = IO.load_NIST_data(case['species'], save=path)
            if not len(df):
                return ['trivial']
            back = IO.load_level_data(path, {c: c for c in COLS if '_3' not in c})
    finally:
        pd.read_csv = real
    rows = c29.expected(case)
    equal(len(back), len(rows), 'rows')
    for i, r in enumerate(rows):
        near(back['Level (cm-1)'].iloc[i].to('cm**-1').magnitude, r['Level (cm-1)'], f'energy of row {i}', 1e-9, 1e-12)
        near(back['Level (Hz)'].iloc[i].to('Hz').magnitude, r['Level (cm-1)'] * 100 * ref.C_LIGHT, f'frequency of row {i}', 1, 1e-9)
        for c in ('Configuration', 'Term'):
            equal(back[c].iloc[i], r[c], f'{c} of row {i}')
        equal(ref.half(str(back['J'].iloc[i])), ref.half(r['J']), f'J of row {i}')
        near(back['Percentage'].iloc[i], r['Percentage'], f'percentage of row {i}', 1e-9)
        need(none(back['Lande'].iloc[i]) if r['Lande'] is None else abs(back['Lande'].iloc[i] - r['Lande']) < 1e-9, f'g of row {i}')
    atoms = []
    for x in (df, back):
        try:
            atoms.append(gen.snapshot(Atom.from_dataframe(x, 'A', 0.5)))
        except Exception as e:  # terms that no atom can be made of
            atoms.append(type(e).__name__)
    if str in map(type, atoms):
        equal(atoms[0] if isinstance(atoms[0], str) else 'an atom', atoms[1] if isinstance(atoms[1], str) else 'an atom', 'making an atom of the listing / of the saved listing')
        return ['no atom', 'trivial']
    d = gen.diff(*atoms)
    need(not d, f'atom of the listing / of the saved listing: {d}')
    return ['atom'] + (['trivial'] if len(rows) < 2 else [])


SUBS = [Sub('file', cases, check, quick=300, thorough=4000,
            rule='tables of 1-7 (sometimes up to 22) levels, columns in any order under the same, other or exchanged headers, decorated energies; non-trivial: at least two levels'),
        Sub('saved', c29.cases, check_saved, quick=150, thorough=2000,
            rule='the listings of C29, imported, saved, read back and made into atoms; non-trivial: at least two rows that make an atom')]
