import csv
import os

from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub
from ..gen import need, near, same, equal

ALLOWED = [[bool(b & 1), bool(b & 2), bool(b & 4)] for b in range(8)]


@st.composite
def cases(draw):
    rows = draw(gen.table_rows(2, 6, draw(st.sampled_from(['LS', 'LS LS JJ JK LK'])), max_J=3.5, more=15))
    n = len(rows)
    c = {'rows': rows, 'I': draw(st.sampled_from([0.0, 0.0, 0.5, 1.0, 2.5])), 'B': draw(st.none() | st.integers(0, 100)),
         'num': draw(st.sampled_from([None, None, 1, 2, 3])),
         'hf': draw(st.sampled_from(['no', 'no', 'file', 'file', 'file', 'missing', 'none'])),
         'tr': draw(st.sampled_from(['no', 'no', 'no', 'df', 'df', 'none'])), 'allowed': draw(st.none() | st.sampled_from(ALLOWED)),
         'tuple': draw(st.booleans()), 'coef': draw(st.lists(st.tuples(st.integers(0, n), *[st.integers(-2000, 2000)] * 3), max_size=4)),
         'index': draw(st.sampled_from(['plain', 'plain', 'shifted', 'filtered'])), 'table': [], 'pos': draw(st.booleans())}
    if c['num'] is not None:
        c['num'] = min(c['num'], n)
    if c['tr'] == 'df':
        seen = set()
        for i, j, A, f in draw(st.lists(st.tuples(st.integers(0, n), st.integers(0, n), st.integers(1, 999), st.integers(0, 2)), max_size=draw(st.sampled_from([4, 4, 14])))):
            if i != j and frozenset((i, j)) not in seen:
                seen.add(frozenset((i, j)))
                c['table'].append([i, j, A, f])
    return c


def check(case):
    import pandas as pd
    from atomtoolkit import Q_
    from atomtoolkit import IO
    from atomtoolkit.atom import Atom
    rows = case['rows']
    ghost = {'c': '1s.9h', 't': '3H*', 'J': '5'}  # not in the table
    specs = rows + [ghost]
    make = lambda: gen.mk_table(rows)
    kw, known = {}, rows[:case['num']]
    if case['num'] is not None:
        kw['num_levels'] = case['num']
    if case['B'] is not None:
        kw['B'] = Q_(float(case['B']), 'G')
    path = os.path.join(os.getcwd(), 'full_hf.csv')
    coef = {i: [float(x) for x in abc] for i, *abc in case['coef']}
    if case['hf'] == 'file':
        with open(path, 'w', newline='', encoding='utf-8') as f:
            w = csv.writer(f)
            for i, abc in coef.items():
                for _ in range(1 + (i == len(rows))):  # a level that is not in the table may come up repeatedly
                    w.writerow([gen.name_of(specs[i])] + [f'{x} MHz' for x in abc])
    elif os.path.exists(path):
        os.remove(path)
    hf = {'file': path, 'missing': path, 'none': None}.get(case['hf'])
    full = dict(kw)
    if case['hf'] != 'no':
        full['hf_csv'] = hf
    allowed = case['allowed'] and (tuple if case['tuple'] else list)(case['allowed'])
    if allowed is not None:
        full['allowed'] = allowed
    freqs, parent = [], list(range(len(specs)))

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x
    here = {gen.name_of(t) for t in known}
    for i, j, A, f in case['table']:
        ok = {gen.name_of(specs[i]), gen.name_of(specs[j])} <= here
        if not f or (ok and find(i) == find(j)):
            freqs.append(None)
            continue
        if ok:
            parent[find(i)] = find(j)
        freqs.append(Q_(100.0 + 37 * A, 'THz'))
    tdf = pd.DataFrame({k: pd.Series([specs[r[s]][x] for r in case['table']], dtype=object)
                        for k, s, x in (('conf_l', 0, 'c'), ('term_l', 0, 't'), ('j_l', 0, 'J'), ('conf_u', 1, 'c'), ('term_u', 1, 't'), ('j_u', 1, 'J'))})
    tdf['A'] = pd.Series([Q_(float(r[2]), 'kHz') for r in case['table']], dtype=object)
    tdf['freq'] = pd.Series(freqs, dtype=object)
    if case['tr'] != 'no':
        full['transitions_df'] = tdf.copy() if case['tr'] == 'df' else None
    # without a choice of types: E1, but all of them if a table of transitions is declined
    default = (True, True, True) if case['tr'] == 'none' else (True, False, False)
    table = gen.reindex(make(), case['index'])
    a = IO.generate_full_from_dataframe(table, 'Full', case['I'], **full) if case['pos'] else \
        IO.generate_full_from_dataframe(df=table, name='Full', I=case['I'], **full)
    # step by step
    b = Atom.from_dataframe(make(), 'Full', case['I'], **kw)
    if case['hf'] == 'file':
        IO.apply_hf_csv(b, path)
        os.remove(path)
    if case['tr'] == 'df':
        b.populate_transitions_df(tdf)
    else:
        b.populate_transitions(allowed=allowed or default)
    b.populate_internal_transitions()
    deep = (2 * case['I'] + 1) * sum(2 * gen.J_of(t) + 1 for t in known) < 25
    d = gen.diff(gen.snapshot(a, deep), gen.snapshot(b, deep))
    need(d is None, f'in one go / step by step: {d}')
    # and against the table itself
    equal(a.name, 'Full', 'name')
    equal(float(a.I), float(case['I']), 'spin')
    near(a.B.to('gauss').magnitude, case['B'] or 0.0, 'field', 1e-9)
    equal(sorted(a.levels.keys()), sorted(here), 'levels')
    if case['hf'] == 'file':
        for i, t in enumerate(known):
            lv = a.levels[gen.name_of(t)]
            for x, v in zip('ABC', coef.get(i, [0.0] * 3)):
                near(getattr(lv, 'hf' + x).to('Hz').magnitude, v * 1e6, f'{x} of {lv.name}', 1e-3)
    if case['tr'] == 'df':
        want = {frozenset((gen.name_of(specs[i]), gen.name_of(specs[j]))) for i, j, _, _ in case['table']}
        want = {p for p in want if p <= here}
    else:
        al = case['allowed'] or default
        want = {frozenset((gen.name_of(s), gen.name_of(t))) for k, s in enumerate(known) for t in known[:k]
                if any(x and y for x, y in zip(al, ref.allowed_fine(gen.J_of(s), s['odd'], gen.J_of(t), t['odd'])))}
    equal({frozenset(k) for k in a.transitions.keys()}, want | {frozenset([x]) for x in here}, 'transitions')
    return [case['hf'], case['tr']] + ([] if want or case['hf'] == 'file' and coef else ['trivial'])


SUBS = [Sub('full', cases, check, quick=250, thorough=3000,
            rule='tables of 2-6 (sometimes up to 21) levels with a field, number of levels, hyperfine file (present, missing, None), transition table with known and unknown '
                 'levels (present, absent, None) and all choices of types; non-trivial: some transition or some hyperfine coefficient')]
